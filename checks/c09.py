"""C09: the envelope walks its stages in order and its level follows."""
import math

PROPERTY = 'C09'
LEVEL = 'model_checking'
ASSUMPTIONS = ['levels are compared up to 1/20000, the length of a stage up to 2 % and two samples',
               'parameters of a native envelope may change at any time, those of the Python envelope before it starts',
               'the Python envelope is asked for whole buffers and may hold the first level of a stage for one sample']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Unit = %d
 Rates = %s
 Overshoots = %s
INVARIANTS Bounded SilentWhenOff Held Admitted
PROPERTIES Order NoJump Loops Ends
'''
GEN = '''SPECIFICATION GSpec
CONSTANT Depth = %d
ACTION_CONSTRAINT Emit
'''
U = CS = 20000
RATE = 44100


def factor(rate, o):
    return 0. if rate <= 0 else math.exp(-math.log((1 + o) / o) / rate)


def needed(rate, o, span):
    """Samples of a curve over a part of the full range."""
    if rate <= 0:
        return 1
    return max(1, math.ceil(rate * math.log((span + o) / o) / math.log((1 + o) / o) - 1e-6))


def params(a, d, s, r, o, loop, retrigger, lag):
    """Stage lengths in samples -> parameters of the specification."""
    o = max(o, 1e-9)    # none at all counts as very little
    return {'U': U, 'CS': CS, 'o': round(o * U), 's': round(s * U),
            'ca': round(factor(a, o) * CS), 'cd': round(factor(d, o) * CS), 'cr': round(factor(r, o) * CS),
            'na': needed(a, o, 1), 'nd': needed(d, o, 1 - s), 'nr': needed(r, o, s),
            'ma': needed(a, o, 1), 'md': needed(d, o, 1), 'mr': needed(r, o, 1),
            'loop': loop, 'retrigger': retrigger, 'tol': 3, 'lag': lag}


def length(rng, scale):
    return rng.choice([0, 0, .4, 1, 2, 3, 5, rng.randint(1, scale), rng.randint(1, scale), rng.uniform(1, scale), scale])


def config(rng, impl, scale):
    dt = rng.choice([1., .5, 1 / 44100, .001]) if impl == 'c' else 1 / RATE
    a, d, r = (length(rng, scale) for _ in range(3))
    if impl != 'c' and scale >= 256 and rng.random() < .4:
        # stages which end exactly with a buffer
        a, d, r = (rng.choice([x, 256, 512]) for x in (a, d, r))
    s = rng.choice([0., 1., .5, .25, .8, rng.randint(0, 100) / 100])
    if impl == 'AR':
        d, s = 0, 1.
    elif impl == 'D':
        a, s, r = 0, 0., d
    elif impl == 'R':
        a, d, s = 0, 0, 1.
    o = rng.choice([1e-3, 1e-3, .01, .1, 1., 1e-5, 1e-5 if impl == 'py' else 0.])
    loop, retrigger = rng.random() < .35, rng.random() < .35
    return {'impl': impl, 'attack': a * dt, 'decay': d * dt, 'sustain': s, 'release': r * dt, 'dt': dt, 'overshoot': o,
            'copied': rng.random() < .3, 'p': params(a, d, s, r, o, loop, retrigger, impl == 'py'), 'lens': (a, d, s, r)}


def scenario(rng, word, impl, scale):
    cfg = config(rng, impl, scale)
    ops, notes = [], []
    now = dict(zip(('attack', 'decay', 'sustain', 'release'), cfg['lens']), overshoot=cfg['overshoot'],
               loop=cfg['p']['loop'], retrigger=cfg['p']['retrigger'])

    def change():
        """Another value for a parameter."""
        what = rng.choice(list(now) + ['attack', 'decay', 'release', 'release'])
        value = (not now[what] if what in ('loop', 'retrigger') else rng.choice([1e-3, .01, .1, 1., 1e-5, 1e-5 if impl == 'py' else 0.]) if what == 'overshoot'
                 else rng.choice([0., 1., rng.randint(0, 100) / 100]) if what == 'sustain' else length(rng, scale))
        now[what] = value
        ops.append({'op': 'times', 'what': what, 'value': value * cfg['dt'] if what in ('attack', 'decay', 'release') else value,
                    'p': params(now['attack'], now['decay'], now['sustain'], now['release'], now['overshoot'],
                                now['loop'], now['retrigger'], impl == 'py')})

    if rng.random() < .2:
        for _ in range(rng.randint(1, 3)):
            change()
    for w in word:
        if w in ('on', 'off'):
            if impl in ('c', 'py'):
                ops.append({'op': 'gate', 'on': w == 'on'})
            else:
                notes.append(w == 'on')
            continue
        if impl == 'c':
            n = {'short': rng.randint(0, 3), 'mid': rng.randint(1, scale + 2), 'long': 2 * scale + 3}[w]
            while n > 0 or w == 'short':
                m = rng.choice([n, rng.randint(0, n)])
                ops.append({'op': 'sample', 'n': m})
                n -= m
                if w == 'short':
                    break
            if rng.random() < .3:
                change()
                ops.append({'op': 'sample', 'n': rng.choice([1, 3, scale + 2])})
        else:
            for _ in range({'short': 1, 'mid': 1 + scale // 300, 'long': 2 + 2 * scale // 256}[w]):
                if impl == 'py':
                    ops.append({'op': 'sample', 'n': 256})
                else:
                    ops.append({'op': 'update', 'notes': notes})
                    notes = []
    return {'cfg': cfg, 'ops': ops}


def run(ctx):
    if ctx.thorough:
        ctx.design('EnvelopeDesign', DESIGN % (6, '{0, 2, 3}', '{1, 3, 6}'), label='state machine', min_states=1000, timeout=3000, workers=8)
    else:
        ctx.design('EnvelopeDesign', DESIGN % (4, '{0, 3}', '{1, 4}'), label='state machine', min_states=500, workers=6)
    words = [s['ops'] for s in ctx.generate('EnvelopeGen', GEN % (6 if ctx.thorough else 5), label='gates and requests')]
    rng = ctx.rng
    scns = []
    k = 1 if ctx.thorough else 1
    for i, w in enumerate(words):
        if i % k == 0 or ctx.thorough:
            scns.append(scenario(rng, w, 'c', rng.choice([4, 12, 40])))
    for w in rng.sample(words, 600 if ctx.thorough else 60):
        scns.append(scenario(rng, w, 'c', 400))
    for w in rng.sample(words, 1500 if ctx.thorough else 120):
        scns.append(scenario(rng, w, 'py', rng.choice([10, 256, 300, 800])))
    for w in rng.sample(words, 800 if ctx.thorough else 80):
        scns.append(scenario(rng, w, rng.choice(['ADSR', 'ADSR', 'AR', 'D', 'R']), rng.choice([10, 256, 300, 800])))
    for i in range(16 if ctx.thorough else 3):
        scns.append(scenario(rng, ['on', 'long', 'off', 'long'], ['c', 'py', 'ADSR'][i % 3], 4000))
    for i in range(12 if ctx.thorough else 4):                        # sounds for seconds
        scns.append(scenario(rng, ['on', 'long', 'off', 'long'], ['c', 'py', 'ADSR', 'AR'][i % 4], 25000))
    rng.shuffle(scns)
    ctx.conform('d_envelope', 'EnvelopeTrace', scns, vshards=4)
