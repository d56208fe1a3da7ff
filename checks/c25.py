"""C25: Euclidean rhythms are maximally even."""
PROPERTY = 'C25'
LEVEL = 'model_checking'

DESIGN = '''SPECIFICATION Spec
CONSTANTS
 MaxSlots = %d
 MaxAll = %d
INVARIANTS Conserved MaximallyEven Agree
PROPERTY Terminates
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxSlots = %d
ACTION_CONSTRAINT Emit
'''
THEN = ['keep', 'keep', 'clear', 'reverse', 'extend', 'set']


def op(rng, p, n):
    return {'p': p, 'n': n, 'then': rng.choice(THEN), 'kw': rng.random() < .2}


def run(ctx):
    ctx.design('EuclidDesign', DESIGN % ((28, 12) if ctx.thorough else (18, 9)), label='algorithm', min_states=300, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('EuclidGen', GEN % (80 if ctx.thorough else 40), label='sizes')
    rng.shuffle(found)
    scns = []
    # every size once, in changing company, with repetitions after the result has been changed
    for i in range(0, len(found), 4):
        ops = [op(rng, s['p'], s['n']) for s in found[i:i + 4]]
        ops += [op(rng, o['p'], o['n']) for o in rng.sample(ops, min(2, len(ops)))]
        scns.append({'cfg': {}, 'ops': ops})
    for _ in range(200 if ctx.thorough else 60):
        ops = []
        for _ in range(2):
            n = rng.choice([64, 96, 128, rng.randint(41, 128), rng.randint(41, 128)])
            if ctx.thorough:
                n = rng.choice([n, n, rng.randint(128, 256)])
            p = rng.choice([1, 2, n - 1, n, n // 2, n // 3, rng.randint(1, n), rng.randint(1, n)])
            ops.append(op(rng, p, n))
        ops.append(op(rng, ops[0]['p'], ops[0]['n']))
        scns.append({'cfg': {}, 'ops': ops})
    # the deepest recursions
    for p, n in [(34, 55), (55, 89), (89, 144), (144, 233), (233, 377), (55, 144), (144, 377), (233, 610), (377, 610), (169, 408)]:
        scns.append({'cfg': {}, 'ops': [op(rng, p, n), op(rng, p, n)]})
    for _ in range(60 if ctx.thorough else 10):
        n = rng.choice([500, 512, 377, 610, rng.randint(200, 700)])
        scns.append({'cfg': {}, 'ops': [op(rng, rng.choice([233, 100, rng.randint(1, min(n, 300))]), n)]})
    ctx.conform('d_euclid', 'EuclidTrace', scns)
