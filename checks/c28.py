"""C28: the reverb is the mean of combs with consecutive prime delays."""
PROPERTY = 'C28'
LEVEL = 'model_checking'
ASSUMPTIONS = ['gains other than 0 and 1 are modelled with 15 bits, outputs are then compared with a tolerance of about 0.002 of a pulse']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 N = 2
 MaxEchos = %d
 Starts = {1, 3%s}
 Values = {0, 1%s}
 MaxBuffers = %d
INVARIANTS Equations Consecutive Damped Halves NoTail
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxBuffers = %d
ACTION_CONSTRAINT Emit
'''


def signal(rng, kind, unit):
    if kind == 'silence':
        return {'full': False, 'v': []}
    if kind == 'pulse' or unit > 1:
        ks = sorted({rng.choice([1, 2, 128, 255, 256, rng.randint(1, 256)]) for _ in range(rng.randint(1, 3))})
        return {'full': False, 'v': [[k, rng.choice([-2, -1, 1, 1, 2])] for k in ks]}
    return {'full': True, 'v': [rng.randint(-3, 3) for _ in range(256)]}


def reverb(rng, echos, start, H, mix, kind='backward'):
    return {'op': 'make', 'echos': echos, 'start': start, 'H': H, 'mix': mix, 'kind': kind, 'explicit': rng.random() < .3}


def unit_of(H):
    return (1, 0) if H in (0, -1) else (1024, None)


def update(rng, r, i, kind):
    unit, tol = unit_of(r['H'])
    if tol is None:
        tol = 24 * r['echos']
    return {'op': 'update', 'i': i, 'x': signal(rng, kind, unit), 'unit': unit, 'tol': tol, 'echos': r['echos'], 'reuse': rng.random() < .3}


def random_reverb(rng):
    echos = rng.choice([1, 1, 2, 3, 4, 5, 8, 10])
    H = rng.choice([0, -1, -1, 1, 2, 4, 8, 64, 256, 512, 1024])
    start = rng.choice([0, 2, 3, 13, 14, 250, 256, 257, 258, 509, 1000, rng.randint(1, 1500)])
    if H > 0 and rng.random() < .6:
        start = rng.randint(1, max(2, 3 * H))
    if H > start + 30:
        H = 256 if start > 30 else 8       # keep the tail within the numbers
    kind = rng.choice(['backward', 'backward', 'forward', 'echo'])
    return reverb(rng, echos, start, H, rng.choice([0, 1, 2, 3, 4, 4, 5, -1]), kind)


def run(ctx):
    ctx.design('ReverbDesign', DESIGN % ((3, ', 6', ', 2', 3) if ctx.thorough else (2, '', '', 3)), label='combs', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('ReverbGen', GEN % (4 if ctx.thorough else 3), label='reverbs')
    rng.shuffle(found)
    scns = []
    for s in found[:1500 if ctx.thorough else 90]:
        c = s['conf']
        start = {'none': 0, 'short': rng.randint(5, 60), 'buffer': rng.choice([240, 251, 256, 257]), 'long': rng.randint(300, 1400)}[c['delay']]
        H = {'none': 0, 'endless': -1, 'fast': rng.choice([1, 2, 8, 32, 64]), 'slow': rng.choice([128, 256, 512])}[c['decay']]
        if H > start + 30:
            H = 8
        r = reverb(rng, c['echos'], start, H, c['mix'])
        bufs = s['bufs'] + ['silence'] * rng.randint(0, 3)
        scns.append({'cfg': {}, 'ops': [r] + [update(rng, r, 1, b) for b in bufs]})
    for _ in range(400 if ctx.thorough else 45):
        rs = [random_reverb(rng) for _ in range(rng.choice([1, 2, 2]))]
        ops = list(rs)
        for _ in range(rng.randint(3, 10)):
            i = rng.randint(1, len(rs))
            if rng.random() < .1:
                ops.append({'op': 'mix', 'i': i, 'mix': rng.randint(0, 4)})
            ops.append(update(rng, rs[i - 1], i, rng.choice(['silence', 'silence', 'pulse', 'dense'])))
        scns.append({'cfg': {}, 'ops': ops})
    # a multitude of echos
    for _ in range(40 if ctx.thorough else 6):
        r = reverb(rng, rng.choice([17, 33, 50, 64, 100]), rng.choice([0, 3, 100]), rng.choice([0, -1]), rng.choice([2, 4]))
        scns.append({'cfg': {}, 'ops': [r] + [update(rng, r, 1, rng.choice(['pulse', 'dense'])) for _ in range(2)]})
    # primes, in any order of asking and beyond the tabulated ones
    for _ in range(120 if ctx.thorough else 30):
        ops = []
        for _ in range(8):
            start = rng.choice([1, 2, 3, 4, rng.randint(1, 200), rng.randint(1, 60000), rng.randint(1, 440000), rng.randint(1, 440000)])
            ops.append({'op': 'primes', 'n': rng.choice([1, 2, 5, 10]), 'start': start, 'one': rng.random() < .5})
            ops.append({'op': 'prime', 'n': rng.choice([0, 1, 2, 9, 25, 49, 121, 169, rng.randint(0, 500), rng.randint(0, 10 ** 6), rng.choice([7, 11, 13, 101, 211, 661]) ** 2, 7919 * 7907])})
        scns.append({'cfg': {}, 'ops': ops})
    for start in (440990, 441000, 441100, 442000):
        scns.append({'cfg': {}, 'ops': [{'op': 'primes', 'n': 6, 'start': start}, {'op': 'primes', 'n': 3, 'start': 440900}, {'op': 'primes', 'n': 12, 'start': start + 50}]})
    ctx.conform('d_reverb', 'ReverbTrace', scns, constants='CONSTANT N = 256')
