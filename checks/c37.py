"""C37: a sequenced piece sounds exactly its notes, buffer by buffer."""
from fractions import Fraction

PROPERTY = 'C37'
LEVEL = 'model_checking'
ASSUMPTIONS = ['voices with immediate envelopes and a constant of its own for every pitch (the assembly is checked, not oscillators and envelopes: C08, C09)',
               'five pitches, velocity 1, up to three channels and synthesizers, echoes by whole buffers without feedback',
               'no step or note end falls exactly onto an update (floating point ties), except the start']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Lengths = %s
 MaxK = %d
INVARIANTS AsWritten Bounded LimitKeeps Echoes
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxChannels = 3
ACTION_CONSTRAINT Emit
'''
TURNS = [4993, 4999]     # primes, more than the number of updates


def cell(rng):
    n = rng.choice([0, 0, 1, 1, 1, 2, 3])
    return [rng.randint(60, 64) for _ in range(n)] if rng.random() < .3 else rng.sample(range(60, 65), n)


def piece(rng, wiring, n):
    chs = len(wiring['route'])
    b = rng.choice(TURNS)
    a = int(b * rng.choice([.04, .08, .11, .19, .23, .31, .42]) * rng.uniform(.9, 1.1))
    rate = Fraction(a, b)
    patterns = [[cell(rng) for _ in range(rng.choice([2, 3, 4, 5, 8]))] for _ in range(chs)]
    if rng.random() < .5:
        absolute, rel = 2 * rng.choice([0, 1, 2, 5, 10, 30]) + 1, [1, 2]
    else:
        absolute, rel = 0, rng.choice([[1, 2], [1, 3], [1, 1], [2, 1], [7, 10], [3, 1]])
    if (Fraction(*rel) / rate).denominator == 1:
        absolute = 5
    grooves = [{'ws': [1], 'n': 0, 'beat': [1, 1], 'xn': 0, 'xd': 1} for _ in range(chs)]
    for i in range(chs):
        if rng.random() < .3 and rate < Fraction(len(patterns[i]), 8):
            xd = rng.choice([1, 2, 4])
            grooves[i] = {'ws': rng.choice([[2, 1], [1, 2], [2, 1, 1, 2]]), 'n': 1, 'beat': [1, 1], 'xn': rng.randint(0, xd), 'xd': xd}
    cfg = {'mode': 'turn', 'a': a, 'b': b, 'grid': rng.choice([[1, 16], [1, 8], [3, 16]]), 'beat': rng.choice([[1, 4], [3, 8]]), 'tempo': [120, 1],
           'abs': absolute, 'rel': rel, 'patterns': patterns, 'grooves': grooves, 'split': wiring['split'], 'mix': wiring['mix'], 'tap': rng.random() < .4,
           'n': n, 'from': rng.choice(['dac', 'seq', 'all']), 'wiring': rng.randint(0, 10 ** 6),
           'synths': [{'kind': k, 'max': rng.choice([0, 0, 0, 1, 2, 3]), 'gain': rng.choice([4, 4, 2, 1, 3, 6]),
                       'echo': rng.choice([0, 0, 1, 2, 5, 9]), 'pipe': rng.random() < .3} for k in wiring['kinds']]}
    for s, conf in enumerate(cfg['synths'], 1):
        # with one output everybody hears everything
        conf['hears'] = [i for i in range(1, chs + 1) if not cfg['split'] or wiring['route'][i - 1] == s or rng.random() < .2]
    return {'cfg': cfg}


def run(ctx):
    ctx.design('PieceDesign', DESIGN % (('{1, 2, 3, 5}', 24) if ctx.thorough else ('{1, 2, 3}', 13)), label='piece', min_states=300, timeout=1500)
    rng = ctx.rng
    found = ctx.generate('PieceGen', GEN, label='wirings')
    scns = [piece(rng, w, rng.choice([20, 50, 100])) for w in found for _ in range(20 if ctx.thorough else 2)]
    for _ in range(60 if ctx.thorough else 8):
        scns.append(piece(rng, rng.choice(found), 600))
    ctx.conform('d_piece', 'PieceTrace', scns, native=False)
