"""C29: filters and modulators run on over buffers and changes of their settings."""
PROPERTY = 'C29'
LEVEL = 'model_checking'
ASSUMPTIONS = ['filters are given integer coefficients of order one or two, modulators phases on a grid of 1/48 turn; '
               'responses of real filter designs are numerical mathematics and not judged']
TURN = 44100 * 48

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Turn = 7
 B = %d
 MaxBuffers = %d
INVARIANTS Equation OneRun Within NoDepth Sharp Towards
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''
TRACE = 'CONSTANTS N = 256 Turn = %d' % TURN
SETS1 = [([1, 0, 0], [0, 0]), ([1, 1, 0], [0, 0]), ([1, -1, 0], [0, 0]), ([1, 0, 0], [-1, 0]), ([1, 0, 0], [1, 0]), ([2, 3, 0], [0, 0]), ([0, 1, 0], [0, 0]), ([1, 2, 0], [-1, 0])]
SETS2 = SETS1 + [([1, 2, 1], [0, 0]), ([1, 0, -1], [0, 0]), ([0, 0, 1], [0, 0]), ([1, 0, 0], [0, -1]), ([1, 0, 0], [0, 1]), ([1, 2, 1], [-1, 1]), ([1, -2, 1], [1, 1]), ([3, 1, 2], [-1, 0])]
FREQS = {'low': [20, 25, 60, 5, 118, 118], 'middle': [123, 123, 300, 440, 1980, 1980], 'high': [2020, 2020, 3000, 10000, 19000, 20000, 22050, 30000]}


def bands(rng, n):
    sets = rng.sample(SETS1 if n == 1 else SETS2, 3)
    return [{'to': to, 'c': {'b': b, 'a': a}} for to, (b, a) in zip((120, 2000, 100000), sets)]


def settings(rng, kind, level):
    if kind == 'filter':
        return {'f': rng.choice(FREQS[level])}
    if kind == 'ring':
        f = {'low': [0, 1, 2, 3], 'middle': [5, 7, 8, 12], 'high': [16, 23, 24, 30, 47]}[level]
        return {'f': rng.choice(f), 'r': coprime(rng, {'low': 200, 'middle': 3000, 'high': 30000}[level]), 'amount': rng.choice([0, 1, 1, 2, 5, -3, 12, 24]), 'mix': rng.randint(0, 4)}
    duty = rng.choice([.5, .5, .1, .9, .25, .75, .3, .01])
    return {'r': coprime(rng, {'low': 200, 'middle': 3000, 'high': 30000}[level]), 'depth': rng.choice([0, 1, 2, 3, 4, 4]),
            'a': rng.choice([[0, 1], [0, 1], [1, 2], [3, 4], [1, 4], [15, 16], [63, 64], [255, 256], [1, 16]]), 'duty': int(duty * TURN) | 1}


def coprime(rng, top):
    """A rate whose square wave never switches exactly on a sample."""
    from math import gcd
    while True:
        r = rng.choice([rng.randint(1, top), rng.randint(top // 2, top)])
        if gcd(r, TURN) == 1:
            return r


def edges(cfg, ops):
    """Would the pulse switch exactly on a sample?"""
    if cfg['kind'] != 'tremolo':
        return False
    own, far, linked, p = cfg['set'], cfg['far'], False, 0
    for o in ops:
        if o['op'] == 'set':
            own = o['set']
        elif o['op'] == 'far':
            far = o['set']
        elif o['op'] in ('link', 'unlink'):
            linked = o['op'] == 'link'
        else:
            s = far if linked else own
            for k in range(256):
                q = (p + s['r'] * k) % TURN
                if q == s['duty'] or (q == 0 and (k or p or o is not ops[0])) and p != 0:
                    return True
            p = (p + s['r'] * 256) % TURN
    return False


def update(rng, kind, channels):
    return {'op': 'update', 'seed': rng.randint(0, 10 ** 6), 'max': rng.choice([1, 1, 3, 8] if kind == 'filter' else [1, 4, 20]), 'channels': channels, 'flat': channels == 1,
            'sparse': rng.random() < .4, 'same': rng.random() < .1, 'readonly': rng.random() < .3}


def config(rng, kind):
    c = {'kind': kind, 'N': rng.choice([1, 2, 2]), 'btype': rng.choice(['lowpass', 'highpass', 'bandpass']), 'bands': []}
    c['set'] = settings(rng, kind, rng.choice(['low', 'middle', 'high']))
    c['far'] = settings(rng, kind, rng.choice(['low', 'middle', 'high']))
    if kind == 'filter':
        c['bands'] = bands(rng, c['N'])
    return c


def history(rng, kind, hist):
    while True:
        c = config(rng, kind)
        ops = []
        for h in hist:
            if h in ('mono', 'stereo'):
                ops.append(update(rng, kind, 1 + (h == 'stereo')))
            elif h in ('low', 'middle', 'high'):
                ops.append({'op': rng.choice(['set', 'set', 'far']), 'set': settings(rng, kind, h)})
            elif h == 'mix':
                ops.append({'op': rng.choice(['set', 'far']), 'set': settings(rng, kind, rng.choice(['low', 'middle', 'high']))})
            else:
                ops.append({'op': h})
        if not edges(c, ops):
            return {'cfg': c, 'ops': ops}


def sweep(rng, n):
    """A filter whose frequency moves slowly over the limit of a band."""
    c = config(rng, 'filter')
    limit, step = 2000, rng.choice([2, 4, 9])
    up, width = (1 if n % 2 else -1), rng.choice([30, 60])
    linked = rng.random() < .3
    ops = [{'op': 'link'}] if linked else []
    for k, f in enumerate(range(limit - width * up, limit + width * up + 1, step * up)):
        ops.append({'op': 'far' if linked else 'set', 'set': {'f': f}})
        if k % 3 == 0:
            ops.append(update(rng, 'filter', 1))
    ops.append(update(rng, 'filter', 2))
    return {'cfg': c, 'ops': ops}


def run(ctx):
    ctx.design('EffectsDesign', DESIGN % ((2, 3) if ctx.thorough else (2, 2)), label='filters', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('EffectsGen', GEN % (5 if ctx.thorough else 4), label='histories')
    rng.shuffle(found)
    scns = []
    for h in found[:1200 if ctx.thorough else 200]:
        scns.append(history(rng, rng.choice(['filter', 'filter', 'ring', 'tremolo']), h))
    for _ in range(400 if ctx.thorough else 90):
        h = []
        linked = False
        for _ in range(rng.randint(4, 10)):
            o = rng.choice(['mono', 'mono', 'mono', 'stereo', 'stereo', 'low', 'middle', 'high', 'link'])
            if o == 'link':
                o, linked = ('unlink', False) if linked else ('link', True)
            h.append(o)
        scns.append(history(rng, rng.choice(['filter', 'ring', 'tremolo']), h + ['mono']))
    for n in range(160 if ctx.thorough else 30):
        scns.append(sweep(rng, n))
    ctx.conform('d_effects', 'EffectsTrace', scns, constants=TRACE)
