"""C21: every key press makes one note-on, its release the matching note-off."""
PROPERTY = 'C21'
LEVEL = 'model_checking'
ASSUMPTIONS = ['key events come one after the other (the listener of pynput is one thread)']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Keys = {%s}
 MaxChanges = %d
INVARIANTS ValidPitch NoHanging AtMostOne Quiet SettingsValid
PROPERTIES Once
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxEvents = %d
ACTION_CONSTRAINT Emit
'''
NOTES = 'awsedftgzhujkolp'
OTHERS = ['b', 'm', 'n', 'r', 'K', 'X', 'V', 'q', 'A', 'Y', 'ä', 'shift', 'vk300', 'vk12', '.', ' ', 'i', '²']


def config(rng, musical=None):
    musical = rng.random() < .85 if musical is None else musical
    return {'musical': musical, 'others': musical and rng.random() < .5, 'temper': rng.choice([-1, -1, 0, 1, 3, 9, 12])}


def small(rng, ev):
    names = {'n1': rng.choice(NOTES), 'octave': rng.choice('xy'), 'velocity': rng.choice('cv'), 'temper': rng.choice('0123456789'), 'other': rng.choice(OTHERS)}
    names['n2'] = rng.choice([n for n in NOTES if n != names['n1']])
    return {'cfg': config(rng), 'ops': [{'key': names[e['k']], 'down': e['d']} for e in ev]}


def history(rng, n):
    keys = rng.sample(NOTES, rng.randint(1, 5)) + rng.sample('xyxycv0123456789', rng.randint(1, 6)) + rng.sample(OTHERS, rng.randint(0, 2))
    p = rng.choice([.5, .6, .8])
    held = set()
    ops = []
    for _ in range(n):
        k = rng.choice(keys)
        down = rng.random() < p if rng.random() < .4 else k not in held
        (held.add if down else held.discard)(k)
        ops.append({'key': k, 'down': down})
        if k != 'shift' and rng.random() < .1:  # shift: see the known finding
            ops[-1]['pair'] = True
            held.discard(k)
    for k in keys:
        ops.append({'key': k, 'down': False})
    return {'cfg': config(rng), 'ops': ops}


def sweep(rng, key):
    """A control key more often than its range, a note after each."""
    ops = []
    for _ in range(rng.randint(9, 16)):
        ops += [{'key': key, 'down': True}, {'key': key, 'down': False}]
        n = rng.choice(NOTES)
        ops += [{'key': n, 'down': True}, {'key': n, 'down': False}]
    back = {'x': 'y', 'y': 'x', 'c': 'v', 'v': 'c'}.get(key, key)
    for _ in range(rng.randint(3, 16)):
        ops += [{'key': back, 'down': True}, {'key': back, 'down': False}]
        n = rng.choice(NOTES)
        ops += [{'key': n, 'down': True}, {'key': n, 'down': False}]
    return {'cfg': config(rng, True), 'ops': ops}


def run(ctx):
    keys = ['"a"', '"k"', '"x"', '"y"', '"c"', '"1"', '"q"'] + (['"v"', '"p"'] if ctx.thorough else [])
    ctx.design('KeyboardDesign', DESIGN % (', '.join(keys), 5 if ctx.thorough else 3), label='keyboard', min_states=5000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('KeyboardGen', GEN % (5 if ctx.thorough else 4), label='key events')
    scns = [small(rng, s['ev']) for s in found]
    for key in 'xycv' + '0123456789':
        scns += [sweep(rng, key) for _ in range(20 if ctx.thorough else 4)]
    for _ in range(3000 if ctx.thorough else 500):
        scns.append(history(rng, rng.choice([10, 30, 80])))
    def late():
        ops = [{'key': 'shift', 'down': True, 'pair': True}]
        ctx.conform('d_keyboard', 'KeyboardTrace', [{'cfg': {'musical': False, 'others': False, 'temper': -1}, 'ops': ops}], native=False)
    ctx.known_finding('special-key-read-late', late)
    ctx.conform('d_keyboard', 'KeyboardTrace', scns, native=False)
