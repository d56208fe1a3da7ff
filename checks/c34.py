"""C34: notes, primes and elementary functions obey their laws."""
PROPERTY = 'C34'
LEVEL = 'model_checking'
ASSUMPTIONS = ['numbers are below 2^31', 'the star in which a bar is about to fill may be shown late (rounding), except the last']

DESIGN = '''SPECIFICATION Spec
CONSTANT Top = %d
INVARIANTS NoneLeftOut Multiples Phases Ranges Full
PROPERTY Grows
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''


def note(rng, valid=True):
    n = {'p': rng.choice([0, 127, 69, 60, rng.randint(0, 127)]), 'v': rng.choice([0, 1, 1000, 500, rng.randint(0, 1000)]), 'f': rng.choice([0, 440000, rng.randint(1, 9000000)])}
    if not valid:
        n[rng.choice('pvf')] = rng.choice([-1, -1000, 128, 1001, 2000])
    return n


def pure(rng):
    r = rng.randint(0, 11)
    near = lambda: rng.choice([rng.randint(-4, 40), rng.randint(-300, 300), 2 ** rng.randint(0, 14), rng.randint(1, 12) * 12])
    if r == 0:
        return dict(note(rng, rng.random() < .6), op='note', default=rng.random() < .4)
    if r == 1:
        notes = [note(rng) for _ in range(rng.randint(0, 6))]
        a = note(rng)
        b = dict(a, **{rng.choice('pvf'): rng.randint(0, 127)}) if rng.random() < .6 else rng.choice([note(rng), dict(a)])
        return {'op': 'order', 'notes': notes + ([dict(notes[0], v=rng.randint(0, 1000))] if notes else []), 'a': a, 'b': b}
    if r == 2:
        m = rng.choice([0, 0, 100, 1000, 12345, 440000, 10 ** 6, rng.randint(2, 40) ** 2 - 2])
        return {'op': 'prime', 'numbers': [n + m for n in range(-3, 40)] + [p * q for p in (5, 7, 11, 13, 23, 31) for q in (5, 7, 11, 13, 29, 37)]}
    if r == 3:
        return {'op': 'search', 'array': sorted(rng.sample(range(-20, 60), rng.randint(1, 9))), 'x': rng.randint(-25, 65)}
    if r == 4:
        u = 2 * rng.choice([1, 2, 6, 50, 180, 500])
        return {'op': 'wrap', 'u': u, 'x': [rng.choice([rng.randint(-3 * u, 3 * u), u // 2, -u // 2, u, 0]) for _ in range(rng.randint(1, 8))], 'array': rng.random() < .5}
    if r == 5:
        lower, upper = sorted([near(), near()])
        return {'op': 'clip', 'x': near(), 'lower': lower, 'upper': upper}
    if r in (6, 7):
        return {'op': 'number', 'a': near(), 'b': near()}
    if r == 8:
        n = rng.choice([1, 4, 9])
        return {'op': 'blend', 'a': [near() for _ in range(n)], 'b': [near() for _ in range(n)], 'x': rng.choice([0, 16, 8, rng.randint(0, 16)])}
    if r == 9:
        return {'op': 'normalize', 'x': [rng.choice([0, near()]) for _ in range(rng.randint(1, 9))] if rng.random() < .8 else [0] * rng.randint(1, 4), 'shape': rng.random() < .3}
    if r == 10:
        a = near()
        return {'op': 'map', 'x': [a, a + rng.choice([-40, -3, 1, 2, 7, 1000])], 'y': [near(), near()]}
    return {'op': 'sieve', 'limit': rng.choice([rng.randint(-2, 12), rng.randint(10, 400)])}


def used(rng, o, last):
    if o == 'near':
        start = rng.choice([rng.randint(-2, 8), rng.randint(-5, 60), rng.randint(1, 30000), rng.randint(430000, 441000)])
        return rng.choice([{'op': 'next', 'start': start}, {'op': 'nexts', 'n': rng.choice([0, 1, 2, 9]), 'start': start}])
    if o == 'far':
        # beyond the primes known beforehand
        start = rng.choice([440990, 441000, rng.randint(441000, 443000)])
        return rng.choice([{'op': 'next', 'start': start}, {'op': 'nexts', 'n': rng.randint(1, 9), 'start': start}])
    if o == 'again' and last:
        return dict(rng.choice(last))
    if o == 'time':
        return {'op': 'time', 'n': rng.choice([0, 1, 5, 256]), 'step': rng.choice([0, 0, 1, 3])}
    return {'op': 'silence', 'asked': rng.choice([[256], [1], [2, 256], [2, 3], [0], [3, 2]]), 'scalar': rng.random() < .5, 'dtype': rng.choice(['default', 'float', 'int', 'bool', 'single'])}


def run(ctx):
    t = ctx.thorough
    rng = ctx.rng
    ctx.design('HelpersDesign', DESIGN % (24 if t else 8), label='laws', min_states=1000, timeout=900, workers=6)
    found = ctx.generate('HelpersGen', GEN % (5 if t else 3), label='shared tables')
    rng.shuffle(found)
    scns = []
    for h in found[:1500 if t else 150]:
        ops = []
        for o in h:
            ops.append(used(rng, o, ops))
        scns.append({'ops': ops})
    scns.append({'ops': [{'op': 'nexts', 'n': 12, 'start': s} for s in range(-3, 30)]})
    for _ in range(1500 if t else 250):
        scns.append({'ops': [pure(rng) for _ in range(25)]})
    for _ in range(300 if t else 60):
        ops = []
        for _ in range(3):
            again = bool(ops) and rng.random() < .4   # the same bar for another run
            if not again:
                n, w, text = rng.choice([0, 1, 2, 3, 5, 8, 21, 100]), rng.choice([20, 10, 7, 1, 0]), rng.choice(['', 'Bounce', 'a b'])
            now = rng.randint(0, 50000)
            for i in range(max(1, n) + rng.choice([0, 0, 1])):
                if i and i < n - 1 and rng.random() < (.8 if n > 30 else .2):
                    continue
                ops.append({'op': 'bar', 'i': i, 'n': n, 'w': w, 'now': now, 'text': text, 'again': again})
                now += rng.choice([0, 1, 7, 1024, 900])
        ops.append({'op': 'range', 'n': rng.choice([0, 1, 2, 9]), 'w': 5})
        scns.append({'ops': ops})
    ctx.conform('d_helpers', 'HelpersTrace', scns, native=False)
