"""C24: delay effects repeat the input after exactly the delay time."""
PROPERTY = 'C24'
LEVEL = 'model_checking'
ASSUMPTIONS = ['inputs and feedbacks are dyadic, so that the floating point results are exact']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 N = %d
 MaxL = %d
 Values = {0, 1%s}
 MaxBuffers = %d
INVARIANTS Exact Bounded Shifted
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxBuffers = %d
ACTION_CONSTRAINT Emit
'''


def feedback(rng, L, samples):
    """Feedback and scale which keep everything exact and within 31 bits."""
    rounds = samples // L
    ways = [([0, 1], 1), ([0, 1], 1)]
    if rounds <= 200:
        ways += [([1, 1], 1), ([-1, 1], 1)]
    if rounds <= 14:
        ways += [([1, 2], 2 ** rounds)] * 3 + [([-1, 2], 2 ** rounds)]
    if rounds <= 7:
        ways += [([3, 4], 4 ** rounds), ([1, 4], 4 ** rounds), ([-3, 4], 4 ** rounds)]
    return rng.choice(ways)


def signal(rng, kind):
    if kind == 'silence':
        return {'full': False, 'v': []}
    if kind == 'pulse':
        return {'full': False, 'v': [[k, rng.choice([-8, -1, 1, 4, 8])] for k in sorted({rng.choice([1, 2, 100, 128, 255, 256, rng.randint(1, 256)]) for _ in range(rng.randint(1, 3))})]}
    return {'full': True, 'v': [rng.randint(-4, 4) * 2 for _ in range(256)]}


def seconds(rng, L):
    return (L + rng.choice([.25, .125, .03])) / 44100


def config(rng, kind, Ls, samples):
    fbs = [feedback(rng, L, samples) for L in Ls]
    scale = max(s for _, s in fbs)
    return {'kind': kind, 'L': Ls, 'times': [seconds(rng, L) for L in Ls], 'fb': [f for f, _ in fbs], 'scale': scale,
            'mix': rng.choice([0, 1, 2, 2, 3, 4, 4]), 'outs': rng.randint(0, 4), 'readonly': rng.random() < .3, 'unit': rng.choice([1, 1, 2 ** -10, 1 / 8])}


def update(rng, kind, k):
    n = 1
    if k == 'both' or rng.random() < .15:
        n = 2
    sigs = [signal(rng, rng.choice(['pulse', 'noise']) if k == 'both' else k) for _ in range(n)]
    if kind == 'mono' and rng.random() < .05:
        # the mean of four channels stays exact
        sigs = [signal(rng, 'pulse') for _ in range(4)]
        for s in sigs:
            s['v'] = [[a, 4 * b] for a, b in s['v']]
    return {'op': 'update', 'ins': sigs, 'flat': kind == 'stereo' or rng.random() < .8, 'reuse': rng.random() < .3}


def even(op):
    """Two channels with even values, so that their mean is exact."""
    if len(op['ins']) == 2:
        for s in op['ins']:
            s['v'] = [2 * v if not isinstance(v, list) else [v[0], 2 * v[1]] for v in s['v']]
    return op


def make(rng, L, kind, ops):
    Ls = [L] if kind == 'mono' else rng.sample([L, rng.choice([1, 77, 256, 300, 1000, L, L + 1])], 2)
    cfg = config(rng, kind, Ls, 256 * (len(ops) + 1))
    return {'cfg': cfg, 'ops': [even(update(rng, kind, k)) for k in ops + ['silence']]}


def history(rng, n):
    kind = rng.choice(['mono', 'mono', 'stereo'])
    Ls = [rng.choice([rng.randint(1, 60), rng.randint(60, 300), rng.randint(200, 1500), 256, 512]) for _ in range(2)]
    Ls = Ls[:1] if kind == 'mono' else Ls
    cfg = config(rng, kind, Ls, 256 * n)
    ops = []
    for _ in range(n):
        ops.append(even(update(rng, kind, rng.choice(['silence', 'pulse', 'noise', 'both']))))
        if kind == 'mono' and rng.random() < .1:
            ops.append({'op': 'mix', 'mix': rng.randint(0, 4)})
        if kind == 'mono' and rng.random() < .1 and cfg['fb'][0][1] == 1:
            ops.append({'op': 'feedback', 'fb': [0, 1]})
    return {'cfg': cfg, 'ops': ops}


def far(rng):
    """A delay of up to the maximum, pulses only."""
    note = rng.choice([None, None, [1, 4], [1, 8], [1, 2], [1, 16], [1, 1]])
    L = 22050 * 4 * note[0] // note[1] if note else rng.choice([88200, 44100, 30000, 88199, rng.randint(5000, 88000)])
    n = L // 256 + 3
    cfg = config(rng, 'mono', [L], 256 * n)
    if note:
        cfg['times'] = [note]
    elif L == 88200:
        cfg['times'] = [2.]
    ops = [update(rng, 'mono', 'pulse') for _ in range(2)]
    ops = [dict(o, ins=o['ins'][:1]) for o in ops]
    ops += [{'op': 'update', 'ins': [signal(rng, 'silence')], 'flat': True} for _ in range(n)]
    return {'cfg': cfg, 'ops': ops}


def misc(rng):
    cfg = config(rng, 'none', [1], 256)
    cfg['outs'] = rng.randint(1, 5)
    ops = []
    for _ in range(12):
        x = rng.random()
        ids = [rng.randint(0, 40) for _ in range(rng.randint(1, 5))]
        if x < .4:
            ops.append({'op': 'split', 'ids': ids})
        elif x < .7:
            ops.append({'op': 'combine', 'ids': ids})
        else:
            times, ms = [], []
            for _ in range(rng.randint(1, 2)):
                if rng.random() < .5:
                    m = rng.choice([1, 500, 1999, 2000, 2001, 2500, 10000, 60000])
                    times.append(m / 1000)
                else:
                    a, b = rng.choice([(1, 4), (1, 1), (2, 1), (3, 2), (9, 8), (1, 8), (5, 4), (7, 8)])
                    m = 2000 * a // b
                    times.append([a, b])
                ms.append(m)
            ops.append({'op': 'range', 'times': times, 'ms': ms})
    return {'cfg': cfg, 'ops': ops}


def run(ctx):
    ctx.design('DelayDesign', DESIGN % ((3, 7, '', 4) if ctx.thorough else (2, 5, '', 4)), label='delay line', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('DelayGen', GEN % (4 if ctx.thorough else 3), label='buffers')
    limit = 6000 if ctx.thorough else 500
    if len(found) > limit:
        found = rng.sample(found, limit)
    scns = [make(rng, s['L'], s['kind'], s['ops']) for s in found]
    for _ in range(1000 if ctx.thorough else 150):
        scns.append(history(rng, rng.randint(3, 12)))
    scns += [far(rng) for _ in range(40 if ctx.thorough else 8)]
    scns += [misc(rng) for _ in range(300 if ctx.thorough else 80)]
    ctx.conform('d_delay', 'DelayTrace', scns, native=True, constants='CONSTANT N = 256')
