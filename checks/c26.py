"""C26: tempo, metre and note values convert consistently."""
PROPERTY = 'C26'
LEVEL = 'model_checking'
ASSUMPTIONS = ['tempi are multiples of a quarter, floats are read as the fraction they round to (relative tolerance 3e-14)']

DESIGN = '''SPECIFICATION Spec
CONSTANTS
 Tempi = {60, 90, 120%s}
 Numerators = {1, 2, 3, 4, 5, 6, 7, 9, 12%s}
 Denominators = {2, 4, 8%s}
 MaxNotes = %d
INVARIANTS Additive FullBar Beats Classes Inverse DotAdds
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxNum = %d
 Dens = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 32, 64}
ACTION_CONSTRAINT Emit
'''
BASES = ['LARGE', 'LONG', 'DOUBLE_WHOLE', 'WHOLE', 'HALF', 'QUARTER', 'EIGHT', 'SIXTEENTH', 'THIRTY_SECOND', 'SIXTY_FOURTH',
         'HUNDRED_TWENTY', 'TWO_HUNDRED_FIFTY_SIXTH']


def plain(rng):
    a, b = rng.choice([(1, 1), (1, 2), (1, 4), (1, 4), (1, 8), (1, 8), (1, 16), (1, 32), (3, 8), (3, 4), (3, 16), (7, 8), (5, 4), (2, 1), (4, 1), (5, 16), (2, 3), (1, 12)])
    return [a, b]


def note(rng):
    if rng.random() < .25:
        n = rng.choice([3, 3, 5, 7, 9, 2, 4, 6])
        return ['tuplet', n, [plain(rng) for _ in range(rng.randint(1, 4))], rng.choice([0, 0, n - 1, 2, 4])]
    return plain(rng)


def tempo(rng):
    return rng.choice([[60, 1], [120, 1], [90, 1], [rng.randint(20, 300), 1], [2 * rng.randint(20, 150) + 1, 2], [4 * rng.randint(20, 50) + 1, 4], [1, 1], [1, 2]])


def metre(rng):
    return [rng.choice([rng.randint(1, 16), 2, 3, 4, 6, 9, 12]), rng.choice([1, 2, 4, 4, 8, 8, 16, 3, 5, 6, 12])]


def fill(rng):
    m = metre(rng)
    from fractions import Fraction as F
    left, notes = F(*m), []
    while left > 0 and len(notes) < 12:
        q = rng.choice([(1, 1), (1, 2), (3, 8), (1, 4), (3, 16), (1, 8), (1, 16), 'tuplet'])
        if q == 'tuplet':
            n = rng.choice([3, 5])
            v = F(n - 1, 8)
            if v <= left:
                notes.append(['tuplet', n, [[1, 8]] * n, 0])
                left -= v
        elif F(*q) <= left:
            notes.append(list(q))
            left -= F(*q)
        elif left < F(1, 16):
            break
    if left > 0 and rng.random() < .8:
        notes.append([left.numerator, left.denominator])
    return {'op': 'fill', 'notes': notes, 'metre': m, 'tempo': tempo(rng)}


def op(rng, m=None):
    m = m or metre(rng)
    base = {'tempo': tempo(rng) if rng.random() < .8 else [], 'metre': rng.choice([m, m, m, []]), 'pos': rng.random() < .5,
            'beat': plain(rng) if rng.random() < .4 else []}
    k = rng.choice(['duration'] * 4 + ['rate'] * 2 + ['bar', 'bar', 'velocity', 'frequency', 'period', 'pass', 'dot', 'dedot', 'tuplet', 'fill', 'beats', 'class', 'metre'])
    if k in ('duration', 'rate'):
        if rng.random() < .15:   # far below the shortest named note
            return dict(base, op=k, note=rng.choice([[1, 2048], [15, 2048], [7, 1024], [1, 4096], [3, 5005]]), tempo=rng.choice([[], [60, 1], [120, 1], [90, 1]]),
                        metre=rng.choice([[], [4, 4], [3, 4]]), beat=rng.choice([[], [1, 4]]), via=rng.randint(0, 1))
        return dict(base, op=k, note=note(rng), via=rng.randint(0, 1))
    if k in ('bar', 'velocity'):
        return dict(base, op=k, tempo=tempo(rng))
    if k in ('frequency', 'period'):
        return {'op': k, 'tempo': tempo(rng)}
    if k == 'pass':
        return dict(base, op=k, via=rng.randint(0, 1), type=rng.choice(['int', 'float', 'np', 'arr']), value=rng.choice([0, 1, 3, 440, .25, .1, 1e-9, -2]))
    if k in ('dot', 'dedot'):
        return {'op': k, 'note': note(rng), 'n': rng.choice([0, 1, 1, 2, 3, 4, 6, -1, -2, -3]), 'pos': rng.random() < .5, 'omit': rng.random() < .5}
    if k == 'tuplet':
        n = rng.randint(2, 11)
        return {'op': k, 'num': n, 'notes': [note(rng) for _ in range(rng.randint(1, 6))], 'den': rng.choice([0, 0, 1, 2, n - 1, n + 1])}
    if k == 'fill':
        return fill(rng)
    if k == 'beats':
        return {'op': k, 'metre': m, 'beat': plain(rng)}
    if k == 'class':
        return {'op': k, 'm': m}
    return {'op': k, 'm': m, 'string': rng.random() < .3}


def run(ctx):
    ctx.design('TempoDesign', DESIGN % ((', 77', ', 5, 8, 15, 24', ', 16, 6', 8) if ctx.thorough else ('', '', '', 4)), label='bars', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('TempoGen', GEN % (64 if ctx.thorough else 24), label='metres')
    rng.shuffle(found)
    scns = []
    for i in range(0, len(found), 6):
        ops = []
        for m in found[i:i + 6]:
            # the same metre, and the one it reduces or expands to
            for f in rng.sample([1, 2, 3, 4], 2):
                w = [m[0] * f, m[1] * f]
                ops += [{'op': 'class', 'm': w}, op(rng, w)]
            ops += [{'op': 'metre', 'm': m, 'string': rng.random() < .3}, op(rng, m), op(rng, m), op(rng, m), {'op': 'class', 'm': m}]
        scns.append({'cfg': {}, 'ops': ops})
    for _ in range(600 if ctx.thorough else 100):
        scns.append({'cfg': {}, 'ops': [op(rng) for _ in range(12)]})
    for b in BASES:
        scns.append({'cfg': {}, 'ops': [{'op': 'const', 'base': b, 'dots': d} for d in range(4)]})
    ctx.conform('d_tempo', 'TempoTrace', scns)
