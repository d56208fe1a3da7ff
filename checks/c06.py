"""C06: mixers contain what was added, scaled by gain and averaged."""
PROPERTY = 'C06'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a mono mixer is given mono signals',
               'pannings other than hard left/right are only judged in linear mode (pan laws: N02)']

DESIGN = '''SPECIFICATION DSpec
CONSTANT MaxChannels = %d
INVARIANTS Exactly Created
'''
GEN = '''SPECIFICATION GSpec
CONSTANT Depth = %d
ACTION_CONSTRAINT Emit
'''
U = 1024


def mono_only(stereo, m):
    return not stereo[m]


class World:
    """Mirrors shapes only, to keep stereo signals out of mono mixers."""

    def __init__(self, n, kinds):
        self.n = n
        self.stereo = [bool(k['stereo']) for k in kinds]
        self.chans = [[0] * k['inputs'] for k in kinds]
        self.two = [False] * n      # source currently carries two channels

    def is_mixer(self, x):
        return x > self.n

    def wide(self, x):
        return self.stereo[x - self.n - 1] if self.is_mixer(x) else self.two[x - 1]

    def fed_to_mono(self, x):
        return any(x in c for c, s in zip(self.chans, self.stereo) if not s)

    def plus(self, a, b):
        """Applies a + b; False if it would put a stereo signal in a mono mixer."""
        if self.is_mixer(a):
            t, new = a, [b]
        elif self.is_mixer(b):
            t, new = b, [a]
        else:
            if self.wide(a) or self.wide(b):
                return False
            self.stereo.append(False)
            self.chans.append([a, b])
            return True
        m = t - self.n - 1
        if not self.stereo[m] and self.wide(new[0]):
            return False
        self.chans[m] += new
        return True


def rnd_signal(rng, two):
    return [[rng.choice([-8, -3, -1, 0, 1, 2, 5, 8]) * U, rng.choice([-7, -2, 0, 1, 4]) * U]
            for _ in range(2 if two else 1)]


def setup_signals(rng, w, ops, stereo_sources=True):
    for x in range(1, w.n + 1):
        two = stereo_sources and not w.fed_to_mono(x) and rng.random() < .4
        w.two[x - 1] = two
        ops.append({'op': 'sig', 'x': x, 's': rnd_signal(rng, two)})


def tweak(rng, w, ops, hard):
    for m, cs in enumerate(w.chans):
        for k in range(1, len(cs) + 1):
            if rng.random() < .7:
                ops.append({'op': 'gain', 'x': w.n + 1 + m, 'k': k, 'g': rng.choice([0, 1, 2, 3, 4, 4, 6])})
            if w.stereo[m] and (hard or rng.random() < .7):
                ops.append({'op': 'pan', 'x': w.n + 1 + m, 'k': k,
                            'p': rng.choice([-2, 2] if hard else [-2, -1, 0, 1, 2])})


def updates(rng, w, ops, rounds):
    for _ in range(rounds):
        ms = list(range(len(w.chans)))
        rng.shuffle(ms)
        ops += [{'op': 'update', 'x': w.n + 1 + m} for m in ms]


def finish(rng, scn):
    """Adds signals, gains and updates to an enumerated sequence of additions."""
    w = World(scn['cfg']['n'], scn['cfg']['kinds'])
    ops = scn['ops']
    if not all(w.plus(o['a'], o['b']) for o in ops):
        return None
    # a mixer feeding itself adds up: bounded by few rounds and gains
    hard = rng.random() < .3
    scn['cfg']['mode'] = 'constant_power' if hard else 'linear'
    setup_signals(rng, w, ops)
    tweak(rng, w, ops, hard)
    updates(rng, w, ops, 1)
    setup_signals(rng, w, ops)
    updates(rng, w, ops, 1)
    return scn


def random_mixing(rng, count, steps):
    for _ in range(count):
        n = rng.randint(1, 6)
        kinds = [{'stereo': rng.random() < .5, 'inputs': rng.choice([0, 0, 1, 2, 3])} for _ in range(rng.randint(0, 3))]
        w = World(n, kinds)
        hard = rng.random() < .3
        ops = []
        for _ in range(steps):
            r = rng.random()
            total = n + len(w.chans)
            if r < .4:
                a, b = rng.randint(1, total), rng.randint(1, total)
                if a == b and a > n:
                    continue
                if sum(map(len, w.chans)) < 24 and w.plus(a, b):
                    ops.append({'op': 'plus', 'a': a, 'b': b})
            elif r < .5 and w.chans:
                m = rng.randrange(len(w.chans))
                ops.append({'op': 'refused', 'x': n + 1 + m, 'what': rng.choice(['none', 'input', 'text', 'msg']), 'side': rng.randint(0, 2)})
            elif r < .6 and w.chans:
                m = rng.randrange(len(w.chans))
                if len(w.chans[m]) < 8:
                    ops.append({'op': 'new', 'x': n + 1 + m})
                    w.chans[m].append(0)
            elif r < .7:
                free = [(m, k) for m, c in enumerate(w.chans) for k, s in enumerate(c) if s == 0]
                if free:
                    m, k = rng.choice(free)
                    y = rng.randint(1, n)
                    if w.stereo[m] or not w.wide(y):
                        w.chans[m][k] = y
                        ops.append({'op': 'connect', 'x': n + 1 + m, 'k': k + 1, 'y': y})
            elif r < .8:
                free = [(m, k) for m, c in enumerate(w.chans) for k, s in enumerate(c) if s == 0]
                if free:
                    m, k = rng.choice(free)
                    ops.append({'op': 'own', 'x': n + 1 + m, 'k': k + 1, 's': rnd_signal(rng, w.stereo[m] and rng.random() < .5)})
            else:
                setup_signals(rng, w, ops)
                tweak(rng, w, ops, hard)
                updates(rng, w, ops, 1)
        yield {'cfg': {'n': n, 'kinds': kinds, 'mode': 'constant_power' if hard else 'linear'}, 'ops': ops}


def large_mixers(rng, count):
    """Dozens of channels, most of them connected."""
    for _ in range(count):
        n, k = rng.randint(2, 6), rng.choice([9, 16, 17, 24, 33, 40])
        w = World(n, [{'stereo': rng.random() < .7, 'inputs': k}])
        hard = rng.random() < .3
        ops = []
        for c in range(1, k + 1):
            if rng.random() < .8:
                y = rng.randint(1, n)
                w.chans[0][c - 1] = y
                ops.append({'op': 'connect', 'x': n + 1, 'k': c, 'y': y})
        for _ in range(2):
            setup_signals(rng, w, ops)
            tweak(rng, w, ops, hard)
            updates(rng, w, ops, 1)
        yield {'cfg': {'n': n, 'kinds': [{'stereo': w.stereo[0], 'inputs': k}], 'mode': 'constant_power' if hard else 'linear'}, 'ops': ops}


def run(ctx):
    ctx.design('MixerDesign', DESIGN % (5 if ctx.thorough else 4), label='additions', min_states=500)
    scns = ctx.generate('MixerGen', GEN % 3, label='all sequences of three additions')
    if not ctx.thorough:
        scns = ctx.rng.sample(scns, 2500)
    scns = [s for s in (finish(ctx.rng, s) for s in scns) if s]
    scns += list(large_mixers(ctx.rng, 200 if ctx.thorough else 30))
    scns += list(random_mixing(ctx.rng, 3000 if ctx.thorough else 300, 30))
    ctx.conform('d_mixer', 'MixerTrace', scns, native=False)
