"""C33: drums restart with every hit and decay evenly."""
PROPERTY = 'C33'
LEVEL = 'model_checking'
ASSUMPTIONS = ['what a kick drum plays before its first hit is free',
               'the decay envelope of the hi hat is that of C09']

DESIGN = '''SPECIFICATION Spec
CONSTANT MaxTime = %d
INVARIANTS SinceHit Together
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''


def notes(rng, what):
    on = lambda: {'p': rng.randint(1, 127), 'v': rng.choice([1, 64, 128]), 'f': 0}
    off = lambda: {'p': rng.randint(1, 127), 'v': 0, 'f': 0}
    return {'rest': [], 'on': [on()], 'off': [off()], 'onoff': [on(), off()], 'onon': [on(), on()], 'zero': [{'p': 0, 'v': 128, 'f': 0}]}[what]


def run(ctx):
    t = ctx.thorough
    ctx.design('DrumsDesign', DESIGN % (8 if t else 6), label='drums', min_states=60)
    rng = ctx.rng
    found = ctx.generate('DrumsGen', GEN % (4 if t else 3), label='hits')
    rng.shuffle(found)
    scns = []
    for n, h in enumerate(found[:1200 if t else 300]):
        r = n % 3
        if r == 2:
            cfg = {'kind': 'hat', 'decay': rng.choice([.05, .02, .006, .3]), 'looped': n % 2 == 0, 'seed': n}
            ops = []
            for o in h:
                # a hi hat knows no pitches
                ops += [{'op': 'hat', 'notes': notes(rng, o['o'])}] + [{'op': 'hat', 'notes': []} for _ in range(rng.choice([0, 1, 4]))]
        else:
            cfg = {'kind': 'kick', 'halves': r == 0, 'seed': n}
            if r == 0:
                cfg['periods'] = rng.choice([1, 1, 2, 4])
            else:
                cfg['args'] = rng.choice([{}, {}, {'frequency': 55.}, {'decay': .1}, {'intensity': 5}, {'pitchDecay': .05, 'intensity': 1}])
            ops = [{'op': 'kick', 'd': 1, 'notes': notes(rng, 'on')}] if rng.random() < .7 else []
            for o in h:
                ops += [{'op': 'kick', 'd': o['d'], 'notes': notes(rng, o['o'])}] + [{'op': 'kick', 'd': rng.randint(1, 2), 'notes': []} for _ in range(rng.choice([0, 1, 2, 6]))]
        scns.append({'cfg': cfg, 'ops': ops})
    for n in range(200 if t else 40):
        ops = [{'op': 'decay', 'half': 2 * rng.randint(20, 400), 'buffers': rng.randint(4, 6), 'f': rng.randint(1, 200), 'intensity': rng.choice([0, 1, 2, 5]), 'late': [rng.randint(0, 8), rng.randint(8, 40), rng.randint(40, 200)]}]
        for _ in range(6):
            a, b = rng.randint(1, 4000), rng.randint(1, 4000)
            f = rng.choice([a, [a + (b - a) * k // 255 for k in range(256)], [rng.randint(0, 4000) for _ in range(256)]])
            ops.append({'op': 'wave', 'f': f, 'start': rng.choice([0, .5, 3., -2.])})
        scns.append({'cfg': {'kind': 'laws', 'halves': False, 'looped': False, 'seed': n}, 'ops': ops})
    ctx.conform('d_drums', 'DrumsTrace', scns)
