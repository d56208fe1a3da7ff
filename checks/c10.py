"""C10: a lengthened note gets exactly one note-off, at its due time."""
PROPERTY = 'C10'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the clock does not go back', 'at most 50 notes per update (the size of a message queue)']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Durations = {%s}
 MaxTime = %d
 MaxNotes = %d
 Pitches = {1, 2}
 Steps = {0, 1, 2, 5}
 MaxUpdates = %d
 MaxChanges = %d
INVARIANTS Passed OncePunctual NothingElse OffsFirst OffsInOrder
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 Depth = %d
 Steps = {0, 1, 2, 3}
 Pitches = {1, 2}
ACTION_CONSTRAINT Emit
'''


def make_notes(rng, ids, pitches, n, off=.25):
    out = []
    for _ in range(n):
        if out and rng.random() < .2:
            # the very same note again
            out.append(dict(out[-1]))
            continue
        ids[0] += 1
        out.append({'p': rng.choice(pitches), 'v': 0 if rng.random() < off else rng.choice([1, 64, 128, rng.randint(1, 128)]), 'f': ids[0]})
    return out


def from_history(rng, h, duration):
    # notes that differ in pitch only, or each one of its own
    now, ids, ops, same = 0, [0], [], rng.random() < .4
    for u in h:
        now += u['d']
        ns = []
        for p in u['notes']:
            ids[0] += not same
            ns.append({'p': 60 + p, 'v': (64 if same else rng.choice([64, 128])) if p else 0, 'f': ids[0]})
        ops.append({'op': 'update', 'b': 1, 'now': now, 'ins': ns})
    for d in (duration - 1, 1, 1, 0):
        now += max(0, d)
        ops.append({'op': 'update', 'b': 1, 'now': now, 'ins': []})
    return {'cfg': {'kind': 'lengthener', 'durations': [duration], 'tick': 64}, 'ops': ops}


def random_histories(rng, count):
    for _ in range(count):
        k = rng.randint(1, 3)
        ds = [rng.choice([0, 1, 3, 17, 100]) for _ in range(k)]
        now, ids, ops = rng.choice([0, 0, 1000]), [0], []
        dense = rng.random() < .2
        change = rng.choice([0, 0, .1, .4])
        for _ in range(rng.randint(5, 60)):
            b = rng.randint(1, k)
            if rng.random() < change:
                ops.append({'op': 'duration', 'b': b, 'v': rng.choice([0, 1, 3, 17, 100, rng.randint(0, 60)])})
            now += rng.choice([0, 0, 1, 2, rng.randint(0, 40), ds[b - 1], max(0, ds[b - 1] - 1)])
            n = rng.choice([0, 0, 1, 1, 2, 5]) if not dense else rng.randint(0, 50)
            pitches = rng.choice([[60], [0, 60, 127], list(range(128))])
            ops.append({'op': 'update', 'b': b, 'now': now, 'ins': make_notes(rng, ids, pitches, n)})
        for _ in range(3):
            now += max(ds + [100 * (change > 0)])
            ops += [{'op': 'update', 'b': b, 'now': now, 'ins': []} for b in range(1, k + 1)]
        yield {'cfg': {'kind': 'lengthener', 'durations': ds, 'tick': rng.choice([1, 64, 1024, 2**20])}, 'ops': ops}


def run(ctx):
    for d, changes in (('0', 0), ('1', 0), ('3', 0), ('0, 1, 3', 2)):
        ctx.design('LengthenerDesign', DESIGN % ((d, 6, 4, 4, changes) if ctx.thorough else (d, 6, 3, 4, changes)), label='duration ' + d, min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    scns = []
    for s in ctx.generate('LengthenerGen', GEN % 3, label='update histories', limit=None if ctx.thorough else 6000):
        scns.append(from_history(rng, s['h'], rng.choice([0, 1, 2, 3, 4])))
    scns += list(random_histories(rng, 3000 if ctx.thorough else 400))
    ctx.conform('d_notefx', 'LengthenerTrace', scns, native=False)
