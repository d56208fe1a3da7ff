"""C22: the MIDI output sends one correct message per note on its channel."""
PROPERTY = 'C22'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the MIDI port is a stand-in which records the bytes', 'not more than 50 notes between two updates (capacity of a message queue)']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Channels = {%s}
 Pitches = {0, 127}
 Velocities = {0, 1, 500, 64000, 127000}
INVARIANTS SameSound OncePerNote CanSend
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxOps = %d
ACTION_CONSTRAINT Emit
'''


def note(rng, kind=None):
    kind = kind or rng.choice(['on', 'on', 'quiet', 'off'])
    v = {'on': rng.choice([1., .5, 1 / 127, 2 / 127, 126 / 127, .999, rng.uniform(.01, 1.)]),
         'quiet': rng.choice([1e-9, 1 / 128, .5 / 127, .00787, .001, rng.uniform(1e-6, 1 / 127)]), 'off': 0.}[kind]
    return {'pitch': rng.choice([0, 1, 60, 127, rng.randint(0, 127)]), 'velocity': v}


def small(rng, channel, kinds):
    ops = []
    for k in kinds:
        ops.append({'op': 'update', 'b': 1} if k == 'update' else dict(note(rng, k), op='note', b=1))
    return {'cfg': {'channels': [channel], 'explicit': rng.random() < .5}, 'ops': ops + [{'op': 'update', 'b': 1}] * 2}


def history(rng, n):
    channels = [rng.randint(0, 15) for _ in range(rng.randint(1, 4))]
    ops = []
    wait = [0] * 5
    for _ in range(n):
        x = rng.random()
        b = rng.randint(1, len(channels))
        if x < .6 and wait[b] < 49:
            wait[b] += 1
            ops.append(dict(note(rng), op='note', b=b))
        elif x < .9:
            wait[b] = 0
            ops.append({'op': 'update', 'b': b})
        else:
            ops.append(dict(note(rng), op='message', channel=rng.randint(0, 15)))
    return {'cfg': {'channels': channels, 'explicit': rng.random() < .5}, 'ops': ops + [{'op': 'update', 'b': b + 1} for b in range(len(channels))]}


def tables(rng):
    """All channels, pitches and many velocities one by one."""
    scns = []
    for c in range(16):
        ops = [{'op': 'message', 'channel': c, 'pitch': p, 'velocity': rng.choice([0., 1., rng.random()])} for p in range(128)]
        scns.append({'cfg': {'channels': [c], 'explicit': True}, 'ops': ops})
    for n in (127, 128, 254, 1000):
        ops = [{'op': 'message', 'channel': rng.randint(0, 15), 'pitch': rng.randint(0, 127), 'velocity': i / n} for i in range(n + 1)]
        scns.append({'cfg': {'channels': [0], 'explicit': True}, 'ops': ops})
    return scns


def run(ctx):
    ctx.design('MidiDesign', DESIGN % ('0, 9, 15' if ctx.thorough else '0, 15'), label='MIDI', min_states=500, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('MidiGen', GEN % (5 if ctx.thorough else 3), label='notes')
    scns = [small(rng, s['channel'], s['ops']) for s in found] + tables(rng)
    for _ in range(2000 if ctx.thorough else 300):
        scns.append(history(rng, rng.choice([10, 60, 200])))
    ctx.conform('d_midi', 'MidiTrace', scns, native=False)
