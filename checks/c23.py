"""C23: oscillator phase is continuous across buffers, copies are independent."""
PROPERTY = 'C23'
LEVEL = 'model_checking'
ASSUMPTIONS = ['frequencies are multiples of 1/48 Hz, floating point phases are rounded to 1/2116800 of a turn',
               'values of samples exactly on a jump of the wave form are free']

U = 44100 * 48
DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 U = %d
 N = 2
 Freqs = {0, 1, 5%s}
 MaxUpdates = %d
INVARIANTS InTurn Exact ScalarAgrees SameForms SquareMean
PROPERTIES Continuous
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxOps = %d
ACTION_CONSTRAINT Emit
'''
TRACE = 'CONSTANTS U = %d N = 256' % U
NOTES = [(1, 4), (1, 8), (1, 16), (3, 8), (1, 1), (1, 12), (1, 3), (2, 1)]


def const(rng):
    if rng.random() < .12:
        n, d = rng.choice(NOTES)
        return {'f': [24 * d // n], 'note': [n, d]}
    return {'f': [rng.choice([0, 1, 48 * 440, 48 * 10000, 48 * 44, -48 * 100, rng.randint(1, 4800), rng.randint(48, 48 * 3000), U // 256, U // 1024])]}


def vary(rng):
    a, b = rng.randint(0, 48 * 5000), rng.randint(0, 48 * 5000)
    x = rng.random()
    if x < .2:
        return {'f': [a + (b - a) * min(k, 255 - k) // 128 for k in range(256)]}
    if x < .5:
        return {'f': [a + (b - a) * k // 255 for k in range(256)]}
    if x < .8:
        return {'f': [a if k < 128 else b for k in range(256)]}
    if x < .9:
        m = rng.randint(0, 255)
        return {'f': [b if k == m else a for k in range(256)]}
    if x < .95:
        return {'f': [a] * 256}
    return {'f': [rng.randint(-48000, 48 * 5000) for k in range(256)]}


def duty(rng):
    return rng.randint(1, U // 2 - 2) * 2 + 1


def config(rng, kind):
    wave, form = 'phase', 'plain'
    if kind == 'osc':
        wave, form = rng.choice([('phase', 'plain'), ('phase', 'plain'), ('phase', 'sawtooth'), ('square', 'plain'), ('triangle', 'plain')])
    elif kind == 'pwm':
        wave = 'pulse'
    elif kind == 'clock':
        wave = rng.choice(['pulse', 'falling'])
    a = rng.randint(-5, 5)
    cfg = dict(const(rng), kind=kind, wave=wave, form=form, p=rng.choice([0, 0, U // 4, U // 2, U - 1, rng.randint(0, U - 1)]), duty=duty(rng),
               mf=[rng.randint(0, 48 * 1000)], intensity=rng.choice([0, 1, 2, 3, -1, -2]), range=[a, a + rng.choice([1, 2, 5, -3])], explicit=rng.random() < .5)
    if kind == 'clock':
        cfg['p'] = 0
        cfg.pop('note', None)
    return cfg


def make(rng, cfg, ops):
    out = []
    for o in ops:
        k, i = o['op'], o['i']
        if k == 'const':
            x = const(rng)
            if cfg['kind'] == 'clock':
                x.pop('note', None)
            out.append(dict(x, op='freq', i=i))
        elif k == 'vary':
            out.append(dict(vary(rng), op='freq', i=i))
        elif k == 'update':
            out.append({'op': 'update', 'i': i, 'sample': rng.random() < .2})
        else:
            out.append({'op': k, 'i': i})
        if cfg['kind'] == 'fm' and rng.random() < .1:
            out.append({'op': 'mod', 'i': i, 'f': [rng.randint(0, 48 * 500)]})
        if cfg['kind'] == 'pwm' and rng.random() < .1:
            out.append({'op': 'duty', 'i': i, 'duty': duty(rng)})
        if rng.random() < .3:
            out.append({'op': 'peek'})
    out.append({'op': 'peek'})
    return {'cfg': cfg, 'ops': out}


def history(rng, n):
    kind = rng.choice(['phasor', 'osc', 'osc', 'fm', 'fm', 'pwm', 'lfo1', 'lfoN', 'clock'])
    cfg = config(rng, kind)
    ops = []
    nr = 1
    for _ in range(n):
        x = rng.random()
        i = rng.randint(1, nr)
        if x < .6:
            ops.append({'op': 'update', 'i': i})
        elif x < .75:
            ops.append({'op': 'const', 'i': i})
        elif x < .9:
            ops.append({'op': 'const' if kind in ('phasor', 'lfo1', 'clock') else 'vary', 'i': i})
        elif nr < 4 and kind != 'clock':
            nr += 1
            ops.append({'op': 'clone', 'i': i})
    ops += [{'op': 'update', 'i': i + 1} for i in range(nr)]
    return make(rng, cfg, ops)


def chirps(rng):
    ops = []
    for method in ('linear', 'quadratic', 'logarithmic', 'hyperbolic'):
        f0, f1 = rng.choice([(100, 800), (800, 100), (50, 60), (1000, 5000), (440, 440), (440.5, 440.5), (rng.randint(20, 5000) + .25, rng.randint(20, 5000) + .75), (rng.randint(20, 5000), rng.randint(20, 5000))])
        k = rng.choice([256, 512, 128, 700, 257, rng.randint(60, 1200)])
        ops.append({'op': 'chirp', 'f0': f0, 'f1': f1, 'duration': (k + rng.choice([0, 0, .5, .25])) / 44100, 'method': method, 'buffers': rng.randint(3, 6), 'late': rng.choice([0, 0, 10, 200, 600])})
    return {'cfg': config(rng, 'phasor'), 'ops': ops}


def run(ctx):
    ctx.design('OscillatorDesign', DESIGN % (12 if ctx.thorough else 6, ', 11' if ctx.thorough else '', 4), label='oscillator and copy', min_states=5000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('OscillatorGen', GEN % (5 if ctx.thorough else 4), label='histories')
    if not ctx.thorough and len(found) > 1200:
        found = rng.sample(found, 1200)
    scns = [make(rng, config(rng, s['kind']), s['ops']) for s in found]
    for _ in range(1500 if ctx.thorough else 150):
        scns.append(history(rng, rng.choice([6, 12, 25])))
    for _ in range(200 if ctx.thorough else 30):
        scns.append(chirps(rng))
    ctx.conform('d_oscillator', 'OscillatorTrace', scns, native=False, constants=TRACE)
