"""C11: the note limiter never lets more than its maximum of notes sound."""
from checks.c10 import make_notes

PROPERTY = 'C11'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the maximum is at least one', 'at most 50 notes per update (the size of a message queue)']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 MaxMax = %d
 MaxNotes = %d
 Pitches = {1, 2}
 MaxChanges = %d
INVARIANTS NotEarlier NeverMore AllOnes Complete AsManyAsPossible OldestFirst JustBefore
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 Depth = %d
 Steps = {0}
 Pitches = {1, 2}
ACTION_CONSTRAINT Emit
'''


def random_histories(rng, count):
    for _ in range(count):
        ms = [rng.choice([1, 1, 2, 3, 5, 16, 24, 60]) for _ in range(rng.randint(1, 3))]
        ids, ops = [0], []
        dense = rng.random() < .3
        change = rng.choice([0, 0, .1, .4])
        pitches = rng.choice([[60], [60, 61], [0, 60, 127], list(range(128))])
        for _ in range(rng.randint(3, 30)):
            n = rng.randint(0, 50) if dense else rng.choice([0, 1, 1, 2, 3])
            if rng.random() < change:
                ops.append({'op': 'max', 'b': rng.randint(1, len(ms)), 'v': rng.choice([1, 2, 3, 5, 24])})
            ops.append({'op': 'update', 'b': rng.randint(1, len(ms)), 'ins': make_notes(rng, ids, pitches, n)})
        yield {'cfg': {'kind': 'limiter', 'max': ms}, 'ops': ops}


def run(ctx):
    ctx.design('LimiterDesign', DESIGN % ((4, 8, 2) if ctx.thorough else (3, 5, 2)), label='limiter', min_states=500, timeout=900, workers=6)
    rng = ctx.rng
    scns = []
    for s in ctx.generate('LengthenerGen', GEN % (5 if ctx.thorough else 4), label='received notes'):
        ids, same = [0], rng.random() < .4
        ops = []
        for u in s['h']:
            ns = []
            for p in u['notes']:
                ids[0] += not same
                ns.append({'p': 60 + p, 'v': 64 if p else 0, 'f': ids[0]})
            ops.append({'op': 'update', 'b': 1, 'ins': ns})
        scns.append({'cfg': {'kind': 'limiter', 'max': [rng.choice([1, 2, 3, 4])]}, 'ops': ops})
    scns += list(random_histories(rng, 3000 if ctx.thorough else 400))
    ctx.conform('d_notefx', 'LimiterTrace', scns, native=False)
