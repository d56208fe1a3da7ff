"""C16: sample playback delivers the trimmed region in order, and loops seamlessly."""
PROPERTY = 'C16'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the interpolating resamplers of the samplerate library are one frame late (first frame twice); sinc resamplers are not compared']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 MaxLen = %d
 MaxHeard = %d
INVARIANTS InBounds InRegion InOrder Once
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
VIEW GView
ACTION_CONSTRAINT Emit
'''


def source(rng, s):
    """Histories of the sample as source of the resampler."""
    n = rng.choice([1, 1, 2, 3]) if s['len'] > 3 else 1
    ops = s['ops'] + [{'op': 'callback', 'n': rng.randint(0, 2 * s['len'])} for _ in range(2)]
    return {'cfg': {'len': s['len'], 'start': 0, 'stop': s['len'], 'loop': s['loop'], 'channels': n, 'flat': rng.random() < .5,
                    'mode': rng.choice(['linear', 'crude', 'very_crude']), 'p': 1, 'q': 1, 'defaults': rng.random() < .5}, 'ops': ops}


def region(rng, even=False):
    length = rng.choice([4, 10, 100, 256, 300, 512, 513, 1000, 2000])
    if rng.random() < .4:
        start, stop = 0, length
    else:
        start = rng.randrange(length)
        stop = rng.randint(start + 1, length)
    if even:
        length, start, stop = 2 * length, 2 * start, 2 * stop
    return length, start, stop


def far(cfg, rng, even=False):
    """A region behind more than a second of frames."""
    start = 2 * rng.randint(32000, 32700)
    return dict(cfg, len=70000, start=start, stop=70000 if rng.random() < .3 else start + 2 * rng.randint(20, 800))


def base(rng, even=False):
    length, start, stop = region(rng, even)
    return {'len': length, 'start': start, 'stop': stop, 'loop': rng.random() < .5, 'channels': rng.choice([1, 2, 2, 3]), 'flat': rng.random() < .5,
            'p': 1, 'q': 1, 'defaults': rng.random() < .5, 'mode': 'linear'}


def long(rng):
    cfg = base(rng)
    ops = []
    for _ in range(rng.randint(3, 25)):
        x = rng.random()
        if x < .75:
            ops.append({'op': 'callback', 'n': rng.choice([256, 256, 1, 7, 100, 255, 257, 600])})
        elif x < .85:
            ops.append({'op': 'rewind'})
        else:
            a = rng.randint(-1, cfg['len'])
            b = rng.choice([99999, 0, rng.randint(0, cfg['len'] + 1)])
            ops.append({'op': 'trim', 'start': a, 'stop': b})
    return {'cfg': cfg, 'ops': ops}


def resampled(rng):
    p, q = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1)])
    cfg = base(rng, (p, q) != (1, 1))
    # the samplerate library reads past the end of single frames
    while cfg['stop'] - cfg['start'] < 8 or (cfg['stop'] - cfg['start']) % 256 == 1:
        cfg = base(rng, (p, q) != (1, 1))
    cfg.update(p=p, q=q, byrate=rng.random() < .5)
    cfg['mode'] = rng.choice(['linear', 'linear', 'zero_order_hold']) if p == q else 'linear'
    if cfg['mode'] == 'zero_order_hold':
        cfg['loop'] = True      # it repeats the last frame
    ops = []
    for _ in range(rng.randint(1, 12)):
        if rng.random() < .85:
            n = 256 if rng.random() < .6 else 2 * rng.choice([1, 5, 50, 128, 200, 300])
            ops.append({'op': 'read', 'n': n})
        else:
            ops.append({'op': 'restart'})
    return cfg, ops


def crude(rng):
    """Crude resamplers: every read by itself, at a speed which may change."""
    cfg = base(rng)
    cfg['mode'] = rng.choice(['crude', 'very_crude', 'very_crude'])
    speeds = [(1, 1), (1, 2)] if cfg['mode'] == 'crude' else [(1, 1), (1, 1), (1, 2), (2, 1), (4, 1), (3, 1), (3, 2), (3, 4), (1, 4), (5, 3)]
    cfg['p'], cfg['q'] = p, q = rng.choice(speeds)
    cfg['byrate'] = rng.random() < .4
    by = (p, q) if cfg['byrate'] else (1, 1)
    ops = []
    for _ in range(rng.randint(1, 14)):
        x = rng.random()
        if x < .65:
            n = 256 if rng.random() < .5 else rng.choice([2, 8, 50, 101, 128, 199, 300, 401])
            if cfg['mode'] == 'crude':
                n += n % 2
            # reads of which it is plain how many frames they take
            if n * p >= q and (n * p % q or (p & (p - 1), q & (q - 1)) == (0, 0)) and n * p // q == int(n / (q / p)):
                ops.append({'op': 'read', 'n': n})
        elif x < .85:
            sp = rng.choice(speeds if by == (1, 1) else [(1, 1)])
            ops.append({'op': 'speed', 'p': sp[0], 'q': sp[1]})
            p, q = sp[0] * by[0], sp[1] * by[1]
        elif x < .9:
            ops.append({'op': 'rewind'})
        elif x < .95:
            ops.append({'op': 'callback', 'n': rng.randint(0, 300)})
        else:
            ops.append({'op': 'trim', 'start': rng.randint(-1, cfg['len']), 'stop': rng.choice([99999, rng.randint(0, cfg['len'] + 1)])})
    return {'cfg': cfg, 'ops': ops}


def run(ctx):
    ctx.design('SampleDesign', DESIGN % ((5, 9) if ctx.thorough else (4, 6)), label='sample', min_states=500, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('SampleGen', GEN % (6 if ctx.thorough else 5), label='operations in every state')
    scns = [source(rng, s) for s in found]
    for _ in range(2000 if ctx.thorough else 300):
        scns.append(long(rng))
    for _ in range(3000 if ctx.thorough else 400):
        cfg, ops = resampled(rng)
        scns.append({'cfg': cfg, 'ops': ops})
    for _ in range(3000 if ctx.thorough else 500):
        scns.append(crude(rng))
    for _ in range(100 if ctx.thorough else 12):
        s = rng.choice([long, lambda r: dict(zip(('cfg', 'ops'), resampled(r))), crude])(rng)
        s['cfg'] = far(s['cfg'], rng)
        s['ops'] = [o for o in s['ops'] if o['op'] != 'trim']
        scns.append(s)
    ctx.conform('d_sample', 'SampleTrace', scns, native=False)
