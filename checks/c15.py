"""C15: the sequencer plays every pattern step once per cycle, in order and on time."""
from fractions import Fraction

PROPERTY = 'C15'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a phase moves by less than half a cycle per update (a cycle of at least two buffers, 12 ms; at least twelve where micro rhythms are exchanged)',
               'no step or note end falls exactly onto an update (floating point ties), except the start']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Lengths = %s
 MaxK = %d
 NoteLength = 2
INVARIANTS InOrder Counted WithinCycle OnTime Restored Silenced
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxOps = %d
ACTION_CONSTRAINT Emit
'''
TURNS = [4993, 4999]     # primes, more than the number of updates


def cells(rng, n, style):
    if style in ('numpy',):
        return [[rng.randint(1, 127)] if rng.random() < .8 else [] for _ in range(n)]
    return [rng.choice([[], [rng.randint(1, 127)], [rng.randint(1, 127)], sorted(rng.sample(range(1, 128), rng.randint(2, 5)))]) for _ in range(n)]


def length(rng, rate, n):
    """Note length without ties: (abs, rel)."""
    while True:
        if rng.random() < .3:
            return 2 * rng.randint(0, 60) + 1, [1, 2]
        rel = rng.choice([[1, 2], [1, 2], [1, 3], [1, 1], [2, 1], [7, 10], [3, 1], [1, 16]])
        if (Fraction(*rel) / rate).denominator > 1:
            return 0, rel


def base(rng, rows=None, style=None):
    style = style or rng.choice(['plain', 'plain', 'none', 'chords', 'tuples', 'numpy'])
    rows = rows or rng.choice([1, 1, 2, 3])
    lens = [rng.choice([1, 2, 3, 4, 5, 7, 8, 16]) for _ in range(rows)]
    return {'style': style, 'patterns': [cells(rng, n, style) for n in lens], 'split': rng.random() < .6,
            'flat': rng.random() < .5, 'defaults': rng.random() < .5}


def rhythm(rng, last=None):
    """A micro rhythm which moves no phase by a lot."""
    n = rng.choice([1, 2, 3, 4, 4, 4])
    if n == 1:
        ws = rng.choice([[2, 1], [1, 2], [3, 2], [2, 1, 1, 2], [1, 1], [4, 3, 3]])
        beat = rng.choice([[1, 1], [2, 3]])
    else:
        ws = rng.choice([[2, 1], [1, 2], [2, 1, 1, 2], [1, 1, 1], [3, 1, 2], [5, 1], [1, 4], [1], [6, 4, 5]])
        beat = {2: [1, 2], 3: [1, 3], 4: [1, 4]}[n] if rng.random() < .8 else {2: [3, 8], 3: [2, 7], 4: [2, 9]}[n]
    xd = rng.choice([1, 2, 4])
    return {'ws': ws, 'n': n, 'beat': beat, 'xn': rng.randint(0, xd), 'xd': xd}


def grooving(rng, kinds):
    b = rng.choice(TURNS)
    cfg = base(rng)
    shortest = min(len(p) for p in cfg['patterns'])
    # up to 60 updates per cycle of the shortest. Exchanging a micro rhythm moves the phase by up to a third of the cycle
    a = max(1, min(b - 1, int(b * shortest / rng.uniform(12 if 'apply' in kinds else 4, 60))))
    rate = Fraction(a, b)
    cfg.update(mode='turn', a=a, b=b, grid=rng.choice([[1, 16], [1, 8], [3, 16]]), beat=rng.choice([[1, 4], [3, 8], [1, 2]]))
    cfg['abs'], cfg['rel'] = length(rng, rate, 0)
    cycle = int(shortest / rate)
    ops = []
    k = 0
    chs = len(cfg['patterns'])
    xds = {}
    for kind in kinds:
        if kind in ('short', 'long'):
            n = rng.randint(1, 6) if kind == 'short' else rng.randint(cycle, 3 * cycle)
            k += n
            ops.append({'op': 'update', 'n': n})
        elif kind == 'apply':
            ch = rng.randint(1, chs) if rng.random() < .5 else 1
            m = rhythm(rng)
            xds[ch] = m['xd']
            ops.append({'op': 'apply', 'ch': ch, 'mr': m})
        elif kind == 'reset':
            ch = rng.choice(list(xds) or [1])
            xds.pop(ch, 0)
            ops.append({'op': 'reset', 'ch': ch})
        elif kind == 'phrasing' and xds:
            ch = rng.choice(list(xds))
            ops.append({'op': 'phrasing', 'ch': ch, 'xn': rng.randint(0, xds[ch])})
        elif kind == 'channel':
            n = rng.choice([shortest, shortest + 1, 16])
            op = {'op': 'channel', 'pattern': cells(rng, n, cfg['style'])}
            if rng.random() < .6:
                x, y = rng.choice([(2, 1), (1, 2), (3, 2), (2, 3), (1, 1)])
                if rate * x / y < Fraction(n, 3):
                    absolute, rel = length(rng, rate * x / y, 0)
                    op.update(scale=[x, y], by=rng.choice(['tempo', 'beat', 'grid']), abs=absolute, rel=rel)
            ops.append(op)
            chs += 1
    ops.append({'op': 'update', 'n': min(cycle * 2 + 3, 200)})
    return {'cfg': cfg, 'ops': ops}


def timing(rng, lengths=(60, 400, 1500)):
    """Straight sequences at common tempi."""
    while True:
        cfg = base(rng)
        tempo = [rng.randint(40, 300), 1] if rng.random() < .7 else [rng.randint(400, 3000), 10] if rng.random() < .7 else [rng.choice([80, 120]), 1]
        grid = rng.choice([[1, 16], [1, 16], [1, 8], [1, 32], [1, 4], [3, 32], [1, 24], [1, 64]])
        beat = rng.choice([[1, 4], [1, 4], [1, 8], [3, 8], [1, 2]])
        rate = Fraction(16, 165375) * Fraction(*tempo) * Fraction(*beat) / Fraction(*grid)
        n = rng.choice(lengths)
        if rate.denominator <= n + 1 or rate * 2 > min(len(p) for p in cfg['patterns']) or n * rate.numerator >= 2 ** 31 or rate.denominator * 60 >= 2 ** 31:
            continue
        cfg.update(mode='tempo', tempo=tempo, grid=grid, beat=beat, inttempo=rng.random() < .7)
        cfg['abs'], cfg['rel'] = length(rng, rate, 0)
        return {'cfg': cfg, 'ops': [{'op': 'update', 'n': n}]}


def run(ctx):
    ctx.design('SequencerDesign', DESIGN % (('{1, 2, 3, 4}', 17) if ctx.thorough else ('{1, 2, 3}', 9)), label='sequencer', min_states=1000, timeout=1500, workers=6)
    rng = ctx.rng
    found = ctx.generate('SequencerGen', GEN % (6 if ctx.thorough else 4), label='operations', limit=20000 if ctx.thorough else None)
    scns = [grooving(rng, s['ops']) for s in found for _ in range(1 if ctx.thorough else 2)]
    kinds = ['apply', 'reset', 'phrasing', 'channel', 'short', 'long', 'short', 'long']
    for _ in range(3000 if ctx.thorough else 300):
        scns.append(grooving(rng, [rng.choice(kinds) for _ in range(rng.randint(5, 20))]))
    for _ in range(3000 if ctx.thorough else 300):
        scns.append(timing(rng))
    for _ in range(20 if ctx.thorough else 3):       # minutes of music
        scns.append(timing(rng, [10000, 30000]))
    for _ in range(30):
        lo = rng.randint(1, 100)
        n = rng.randint(1, 40)
        scns[-1]['ops'].append({'op': 'random', 'length': n, 'period': rng.choice([n, rng.randint(1, n)]), 'min': lo, 'max': rng.randint(lo, 127), 'default': rng.random() < .5})
    ctx.conform('d_sequencer', 'SequencerTrace', scns, native=False)
