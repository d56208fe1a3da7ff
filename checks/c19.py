"""C19: the audio output takes its channels from its inputs in order, unaltered."""
PROPERTY = 'C19'
LEVEL = 'model_checking'
ASSUMPTIONS = ['signals are arrays of one buffer per channel']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 MaxInputs = %d
 MaxWidth = 3
INVARIANTS RefusedRight InOrder Complete NoGap
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxInputs = %d
 MaxWidth = %d
ACTION_CONSTRAINT Emit
'''
HOW = ['plain', 'plain', 'f32', 'f32', 'strided', 'list', 'readonly']


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self, k):
        self.n += k
        return [self.n - i for i in reversed(range(k))]


def put(rng, ids, i, w):
    flat = w == -2
    return {'op': 'set', 'i': i, 'ids': ids(1 if flat else w), 'flat': flat, 'how': rng.choice(HOW), 'relay': rng.random() < .2}


def widths(rng, ws):
    ids = Ids()
    order = list(range(len(ws)))
    rng.shuffle(order)
    ops = [put(rng, ids, i + 1, ws[i]) for i in order if ws[i] != -1]
    return {'cfg': {'n': len(ws), 'outputs': 0, 'default': rng.random() < .5}, 'ops': ops + [{'op': 'collect'}]}


def history(rng):
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 18])
    outputs = rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randint(0, 6), 16, 24])
    recorded = rng.choice([outputs, rng.randint(0, 7), outputs + 2])
    ids = Ids()
    ops = []
    for _ in range(rng.randint(2, 12)):
        x = rng.random()
        if x < .5:
            ops.append(put(rng, ids, rng.randint(1, n), rng.choice([-2, -2, 0, 1, 2, 2, 3, 5, outputs])))
        elif x < .8:
            ops.append({'op': 'collect', 'fade': rng.random() < .5})
        elif x < .92:
            ops.append({'op': 'inject', 'ids': ids(recorded)})
        elif x < .95:
            ops.append({'op': 'mute'})
        else:
            ops.append({'op': 'card', 'ins': rng.randint(0, 3), 'outs': rng.randint(0, 3), 'maxins': rng.randint(0, 3), 'maxouts': rng.randint(0, 3)})
    ops.append({'op': 'collect', 'fade': rng.random() < .5})
    return {'cfg': {'n': n, 'outputs': outputs, 'default': rng.random() < .5}, 'ops': ops}


def run(ctx):
    ctx.design('DacDesign', DESIGN % (5 if ctx.thorough else 4), label='audio output', min_states=300, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('DacGen', GEN % ((5, 3) if ctx.thorough else (4, 3)), label='widths of signals')
    scns = [widths(rng, s['ws']) for s in found]
    for _ in range(3000 if ctx.thorough else 400):
        scns.append(history(rng))
    ctx.conform('d_dac', 'DacTrace', scns, native=False)
