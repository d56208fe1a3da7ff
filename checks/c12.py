"""C12: the arpeggiator cycles the held notes in its order, one at a time."""
PROPERTY = 'C12'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the phase advances by less than a turn per update', 'at most 50 notes per update (the size of a message queue)']

ORDERS = ['up', 'down', 'upDown', 'downUp', 'alternating', 'random']
DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Pitches = %s
 MaxLog = %d
VIEW View
INVARIANTS InRange Sorted Paired SoundingLast Cycle Periodic Upwards
'''
GEN = '''SPECIFICATION GSpec
CONSTANT Pitches = %s
VIEW GView
ACTION_CONSTRAINT Emit
'''
TURN = 99991    # prime: the phase never comes back exactly


def noter(rng):
    """Same pitches with different velocities and frequencies."""
    ids = [0]

    def make(p, on=True):
        ids[0] += 1
        return {'p': p, 'v': rng.choice([1, 64, 128]) if on else 0, 'f': ids[0]}
    return make


def container(rng, s):
    make = noter(rng)
    ops = []
    for o in s['ops']:
        ops.append({'op': o['op'], **({'note': make(60 + o['p'], rng.random() < .5 if o['op'] == 'remove' else True)} if o['op'] != 'next' else {})})
    n = rng.choice([0, 3, 10])
    ops += [{'op': 'next'} for _ in range(n)]
    ops.append({'op': 'contains', 'note': make(60 + rng.randint(0, 4))})
    initial = 0
    while initial < len(ops) and ops[initial]['op'] == 'add':
        initial += 1
    if rng.random() < .7:
        initial = 0
    return {'cfg': {'kind': 'arpeggio', 'order': s['order'], 'initial': initial, 'step': 1, 'turn': 2}, 'ops': ops}


def block(rng, ops_or_none, order):
    make = noter(rng)
    ops = []
    step = rng.choice([TURN // 3 + 1, TURN // 2 + 5, TURN - 7, TURN // 10, rng.randint(TURN // 50, TURN - 1)])
    pitches = rng.choice([[60], [60, 61], [0, 60, 127], list(range(50, 62)), list(range(128))])
    if ops_or_none is not None:
        pending = []
        for o in ops_or_none:
            if o['op'] == 'next':
                ops += [{'op': 'update', 'ins': pending}] + [{'op': 'update', 'ins': []} for _ in range(rng.randint(0, 3))]
                pending = []
            else:
                pending.append(make(60 + o['p'], o['op'] == 'add'))
        ops.append({'op': 'update', 'ins': pending})
    else:
        held = []
        for _ in range(rng.randint(5, 120)):
            ins = []
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 6, 40 if rng.random() < .1 else 0])):
                if held and rng.random() < .45:
                    p = rng.choice(held)
                    held.remove(p)
                    ins.append(make(p, False))
                else:
                    p = rng.choice(pitches)
                    ins.append(make(p, rng.random() < .85))
                    if ins[-1]['v']:
                        held.append(p)
            ops.append({'op': 'update', 'ins': ins})
            if rng.random() < .04:
                ops.append({'op': 'rate', 'step': rng.randint(TURN // 50, TURN - 1)})
    ops += [{'op': 'update', 'ins': []} for _ in range(rng.choice([0, 8, 20]))]
    if rng.random() < .4:
        ops.append({'op': 'update', 'ins': [make(p, False) for p in sorted(set(pitches) | set(range(60, 66)))[:50]]})
        ops += [{'op': 'update', 'ins': []} for _ in range(12)]
    return {'cfg': {'kind': 'block', 'order': order, 'step': step, 'turn': TURN, 'value': rng.random() < .3}, 'ops': ops}


def run(ctx):
    ctx.design('ArpeggioDesign', DESIGN % (('{1, 2, 3, 4}', 12) if ctx.thorough else ('{1, 2, 3}', 9)), label='arpeggiator', min_states=300, timeout=1500, workers=6)
    rng = ctx.rng
    found = ctx.generate('ArpeggioGen', GEN % ('{0, 1, 2, 3, 4, 5}' if ctx.thorough else '{0, 1, 2, 3, 4}'), label='held notes and operations')
    scns = []
    for s in found:
        scns.append(container(rng, s))
        scns.append(block(rng, s['ops'], s['order']))
    if not ctx.thorough and len(scns) > 8000:
        scns = rng.sample(scns, 8000)
    for _ in range(2500 if ctx.thorough else 350):
        scns.append(block(rng, None, rng.choice(ORDERS)))
    ctx.conform('d_arpeggio', 'ArpeggioTrace', scns, native=False)
