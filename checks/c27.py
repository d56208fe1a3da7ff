"""C27: micro rhythms bend the phase to equal parts without losing a step."""
PROPERTY = 'C27'
LEVEL = 'model_checking'
ASSUMPTIONS = ['phases and weights are fractions with small denominators, or one to three floating point steps away from one; outputs are compared to 3e-8 of a turn']

DESIGN = '''SPECIFICATION Spec
CONSTANTS
 Weights = {%s}
 MaxNotes = %d
 MaxRepeats = %d
 Grid = %d
INVARIANTS InCycle StartsAtZero StraightWithout Nodes Repetition Even
PROPERTIES MovesOn Continuous
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''
PHRASINGS = [[0, 1], [1, 1], [1, 2], [1, 4], [3, 4]]
BEATS = [[1, 4], [1, 4], [1, 8], [1, 2], [1, 1], [3, 8], [1, 16], [1, 32], [3, 16], [2, 3], [1, 12], [1, 24]]
N = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 18, 24]


def pattern(rng):
    k = rng.random()
    if k < .3:
        return [[a, 1] for a in rng.choice([[2, 1], [3, 1], [1, 2], [1, 3], [3, 3, 2], [1, 2, 1], [5, 3], [1, 1], [7], [4, 3, 2, 1], [12, 1], [1, 12], [2, 2, 2, 1, 1]])]
    if k < .5:
        return [rng.choice([[1, 4], [1, 8], [3, 16], [1, 16], [3, 8]]) for _ in range(rng.randint(1, 6))]
    if k < .6:
        return [[[1, 8]] * 3, [1, 4], [1, 8]]
    if k < .65:
        return [[[1, 8]] * 5, [1, 4]]
    return [[rng.randint(1, 6), 16] for _ in range(rng.randint(1, 5))]


def weights(notes):
    from fractions import Fraction as F
    from math import lcm, gcd
    ws = [sum(F(*y) for y in n) * F(len(n) - 1, len(n)) if isinstance(n[0], list) else F(*n) for n in notes]
    den = lcm(*[w.denominator for w in ws])
    ws = [int(w * den) for w in ws]
    g = gcd(*ws)
    return [w // g for w in ws]


def phase(rng, ws, n, nodes=False):
    """num, den, floating point steps beside it, way of computing the angle."""
    W = sum(ws)
    k = rng.random()
    form = rng.randint(0, 1)
    if nodes or k < .35:      # a node of a repetition
        j = rng.randint(0, len(ws) - 1)
        return [(rng.randint(0, n - 1) * W) + sum(ws[:j]), W * n, rng.choice([0, 0, 1, -1, 2, -2, 3]), form]
    if k < .5:
        return [rng.randint(0, n), n, rng.choice([0, 0, 1, -1, -2]), form]
    if k < .6:
        return [rng.randint(0, 3) * 64 + rng.randint(0, 63), 64, rng.choice([0, 0, 1, -1]), form]
    d = rng.choice([64, 100, 48, 60, 97, 128, 160])
    return [rng.randint(0, d - 1), d, rng.choice([0, 0, 0, 1, -1]), form]


def run(ctx):
    ctx.design('GrooveDesign', DESIGN % (('1, 2, 3, 5', 3, 4, 3) if ctx.thorough else ('1, 2, 3', 3, 3, 2)), label='bending', min_states=2000, timeout=800, workers=6)
    rng = ctx.rng
    found = ctx.generate('GrooveGen', GEN % (5 if ctx.thorough else 4), label='histories')
    rng.shuffle(found)
    found = found[:1500 if ctx.thorough else 300]
    scns = []

    def config(**kw):
        c = {'notes': pattern(rng), 'phrasing': rng.choice(PHRASINGS), 'beat': rng.choice(BEATS), 'kind': rng.choice(['linear', 'linear', 'slinear'])}
        c.update(kw)
        return c

    def ask(c, n=0):
        ws = weights(c['notes'])
        reps = n or (4 if c.get('default') else c['beat'][1] // c['beat'][0])
        nodes = c.get('kind') in ('quadratic', 'cubic') and not c.get('default')
        k = rng.random()
        if n == 0 and k < .45:
            return {'op': 'update', 'p': phase(rng, ws, reps, nodes)}
        return {'op': 'warp', 'p': phase(rng, ws, reps, nodes), 'n': n}

    for h in found:
        c = config(default=rng.random() < .2)
        ops = []
        three = rng.sample(PHRASINGS, 3)
        for o in h:
            if o[:3] == 'own':
                ops.append({'op': 'own', 'x': three[int(o[3])]})
            elif o[:4] == 'knob':
                ops.append({'op': 'knob', 'x': three[int(o[4])]})
            elif o in ('update', 'warp'):
                a = ask(c)
                ops.append(a)
            else:
                ops.append({'op': o})
            if rng.random() < .5:
                ops.append(ask(c, rng.choice([0, 0] + N)))
        ops.append(ask(c))
        if rng.random() < .4:   # the phase stands still while the settings change
            still = {'op': 'update', 'p': phase(rng, weights(c['notes']), 2)}
            ops = [dict(still) if o['op'] == 'update' else o for o in ops]
            ops = [dict(still)] + [x for o in ops for x in ([o, dict(still)] if o['op'] in ('own', 'knob', 'connect', 'disconnect') else [o])]
        scns.append({'cfg': c, 'ops': ops})
    for _ in range(600 if ctx.thorough else 150):
        c = config()
        scns.append({'cfg': c, 'ops': [ask(c, rng.choice([0, 0, 0] + N)) for _ in range(25)]})
    # curves pass the same nodes
    for kind in ('quadratic', 'cubic'):
        for _ in range(20 if ctx.thorough else 6):
            c = config(kind=kind, notes=[[rng.randint(2, 4), 16] for _ in range(rng.randint(3, 5))])
            scns.append({'cfg': c, 'ops': [ask(c, rng.choice([0, 1, 2, 3])) for _ in range(12)]})
    # around every end of a repetition, and going round more than once
    for n in (range(1, 65) if ctx.thorough else N + [23, 32, 48]):
        c = config(phrasing=[1, 1])
        for form in (0, 1):
            for u in (-2, -1, 0, 1):
                scns.append({'cfg': c, 'ops': [{'op': 'warp', 'n': n, 'p': [k, n, u, form]} for k in range(n + 2)]})
    c = config(notes=[[2, 1], [1, 1]])
    scns.append({'cfg': c, 'ops': [{'op': 'update', 'p': [k, 60, 0, 0]} for k in range(130)]})
    ctx.conform('d_groove', 'GrooveTrace', scns, native=False)
