"""C08: comb and echo filters follow their difference equation."""
PROPERTY = 'C08'
LEVEL = 'model_checking'
ASSUMPTIONS = ['delays of at least one sample', 'the Python fallback is given chunks up to its delay and 256 samples']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 MaxK = 3
 MaxLen = %d
 Inputs = {0, 1, 2}
INVARIANTS SameState Equation EchoFeeds
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxK = %d
 Total = %d
ACTION_CONSTRAINT Emit
'''
U = 1024
FORMS = ['', '', 'list', 'f4', 'int', 'strided', 'reversed', 'readonly']
# gains and how often a value may pass through the line exactly
GAINS = [(0, 1, 10 ** 6), (1, 1, 10 ** 6), (-1, 1, 10 ** 6), (1, 2, 9), (-1, 2, 9), (2, 1, 8), (-2, 1, 8), (1, 4, 4)]


def samples(rng, n):
    r = rng.random()
    if r < .2:
        return [0] * n
    if r < .4:
        return [rng.choice([0, 0, 0, 1, -2]) * U for _ in range(n)]
    return [rng.randint(-4, 4) * U for _ in range(n)]


def growth(gain, k, total):
    """May a history of total samples be processed exactly?"""
    num, den, passes = gain
    if abs(num) == den == 1:
        return total // k < 200      # values grow linearly
    return total // k < passes


def enumerated(rng, found):
    for s in found:
        total = sum(s['chunks'])
        gain = rng.choice([g for g in GAINS if growth(g, s['k'], total)])
        for impl in ('c', 'py'):
            if impl == 'py' and max(s['chunks']) > s['k']:
                continue
            yield {'cfg': {'filters': [{'kind': s['kind'], 'k': s['k'], 'num': gain[0], 'den': gain[1], 'impl': impl}]},
                   'ops': [{'op': 'filter', 'f': 1, 'x': samples(rng, n), 'form': rng.choice(FORMS)} for n in s['chunks']]}


def interleaved(rng, count, total, big):
    for _ in range(count):
        fs, room = [], []
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(1, 12) if not big else rng.choice([1, 2, 100, 255, 256, 257, 300, 511, 513, 700])
            gain = rng.choice([g for g in GAINS if growth(g, k, total)])
            fs.append({'kind': rng.choice(['forward', 'backward', 'echo']), 'k': k, 'num': gain[0], 'den': gain[1],
                       'impl': rng.choice(['c', 'c', 'py', 'main'])})
            room.append(total)
        ops = []
        while any(room):
            i = rng.randrange(len(fs))
            if not room[i]:
                continue
            lim = min(room[i], 300 if big else 20)
            if fs[i]['impl'] == 'py':
                lim = min(lim, fs[i]['k'], 256)
            n = rng.choice([lim, rng.randint(1, lim), min(lim, 256)])
            if rng.random() < .05:
                ops.append({'op': 'filter', 'f': i + 1, 'x': [], 'form': ''})
            ops.append({'op': 'filter', 'f': i + 1, 'x': samples(rng, n), 'form': rng.choice(FORMS)})
            room[i] -= n
            if abs(fs[i]['num']) <= 1 == fs[i]['den'] and rng.random() < .05:
                ops.append({'op': 'alpha', 'f': i + 1, 'num': rng.choice([0, 1, -1]), 'den': 1})
        yield {'cfg': {'filters': fs}, 'ops': ops}


def run(ctx):
    ctx.design('FilterDesign', DESIGN % (7 if ctx.thorough else 5), label='three formulations', min_states=1000, timeout=800, workers=6)
    found = ctx.generate('FilterGen', GEN % ((6, 9) if ctx.thorough else (5, 7)), label='chunkings')
    scns = list(enumerated(ctx.rng, found))
    scns += list(interleaved(ctx.rng, 1500 if ctx.thorough else 200, 60, False))
    scns += list(interleaved(ctx.rng, 60 if ctx.thorough else 10, 1600, True))
    ctx.conform('d_filter', 'FilterTrace', scns)
