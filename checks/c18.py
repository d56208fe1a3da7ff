"""C18: an offline bounce renders exactly the requested time and writes every buffer."""
PROPERTY = 'C18'
LEVEL = 'model_checking'
ASSUMPTIONS = ['at least one buffer is rendered', 'live runs use a recording stand-in for the sound card']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 B = %d
 MaxD = %d
INVARIANTS Contiguous Clock Whole Faded
'''
# whole numbers of buffers that are one short when counted with floating point numbers
HARD = [15, 23, 30, 46, 53, 60]


def plain(n):
    """n buffers are n / 44100 seconds without any rounding error, however one adds them up"""
    t = 0.
    for _ in range(n):
        t += 256 / 44100
    return t == n * (256 / 44100) == 256 * n / 44100


WHOLE = [n for n in range(1, 17) if plain(n)]


def scenario(rng):
    live = rng.random() < .35
    x = rng.random()
    if x < .35:
        D = 256 * rng.choice([1, 1, 2, 3, 4, 5, 8, 15, 15])
    elif x < .7:
        D = 256 * rng.randint(1, 6) + rng.choice([1, 2, 100, 128, 255])
    else:
        D = rng.randint(256, 2500)
    if live and rng.random() < .2:
        D = 256 * rng.choice(WHOLE)
    elif live and D % 256 == 0:
        D += rng.choice([-1, 1, 100])
    F = rng.choice([0, 0, 256, 512, 1, 50, 100, 300, 700, 1000, D, min(4000, D + 300), D // 2])
    buffers = -(-D // 256) if live else D // 256
    cfg = {'D': D, 'F': F, 'channels': rng.choice([1, 1, 2, 2, 2, 3, 4]), 'live': live, 'file': rng.random() < .85, 'seed': rng.randint(0, 30),
           'silent': rng.random() < .06, 'through': rng.random() < .5, 'source': rng.choice(['multi', 'mono'] + (['adc'] if live else [])),
           'stray': rng.choice([0, 0, 0, 50, .001, 1e6]), 'mismatch': -1, 'interrupt': -1}
    if rng.random() < .2 and cfg['source'] != 'adc':
        cfg['mismatch'] = rng.randrange(buffers)
        if live and cfg['mismatch'] == 0:
            cfg['file'] = False
    if live and rng.random() < .2:
        cfg['interrupt'] = rng.randint(1, buffers)
    if cfg['mismatch'] >= 0 and cfg['source'] == 'multi' and cfg['channels'] == 1:
        cfg['source'] = 'mono'
    return {'cfg': cfg, 'ops': []}


def run(ctx):
    ctx.design('BounceDesign', DESIGN % ((4, 16) if ctx.thorough else (3, 10)), label='audio engine', min_states=500, timeout=900, workers=6)
    rng = ctx.rng
    scns = [scenario(rng) for _ in range(4000 if ctx.thorough else 500)]
    for n in HARD if ctx.thorough else HARD[:2] + HARD[3:4]:
        s = scenario(rng)
        s['cfg'].update(D=256 * n, live=False, F=0, channels=1, source='mono', mismatch=-1, interrupt=-1, file=n < 30)
        scns.append(s)
    for n in range(16 if ctx.thorough else 4):                       # seconds of music
        s = scenario(rng)
        s['cfg'].update(D=256 * (rng.randint(60, 300) if n % 4 else rng.randint(1030, 1100)) + rng.choice([1, 100, 128, 255]), live=n % 4 == 3, F=rng.choice([0, 1000, 4000]),
                        channels=2 if n % 4 == 1 else 1, source='multi' if n % 4 == 1 else 'mono', mismatch=-1, interrupt=-1, file=True)
        scns.append(s)
    ctx.conform('d_bounce', 'BounceTrace', scns, native=False)
