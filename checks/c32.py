"""C32: values and messages travel through a whole patch, cycle by cycle."""
PROPERTY = 'C32'
LEVEL = 'model_checking'
ASSUMPTIONS = ['blocks take all their messages before they send their own',
               'the stand-in for the time goes on between any two cycles of the main loop']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 N = %d
 M = %d
 Q = 3
 MaxConns = %d
 MaxMsgs = %d
INVARIANTS Settled Taken Still DiesOut
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 N = %d
 M = 5
 Q = 50
 MaxLen = %d
ACTION_CONSTRAINT Emit
'''
KINDS = ['', '', '', 'p', 's', 'pp', 'ps', 'sp', 'ss']


class Filler:
    """Settings, names and times for a history of a patch."""

    def __init__(self, rng, n):
        self.rng, self.n, self.last = rng, n, 0
        self.kinds = [rng.choice(KINDS) for _ in range(n)]

    def message(self, b):
        self.last += 1
        return {'op': self.rng.choice(['send', 'push']), 'b': b, 'm': [self.last, self.rng.randint(0, 6)]}

    def starts(self, b):
        return [b] + (self.rng.choices(range(1, self.n + 1), k=self.rng.randint(0, 3)) if self.rng.random() < .6 else [])

    def fill(self, o):
        rng = self.rng
        k = o['op']
        if k in ('connect', 'disconnect'):
            return dict(o, end='out' if self.kinds[o['a'] - 1] else rng.choice(['out', 'in']))     # a relay is the source of a relay
        if k == 'rebuild':
            if not self.kinds[o['b'] - 1]:
                return {'op': 'own', 'b': o['b'], 'v': rng.randint(1, 3000)}
            return {'op': k, 'b': o['b'], 'level': rng.randint(1, len(self.kinds[o['b'] - 1])), 'v': rng.randint(1, 3000)}
        if k in ('own', 'inown'):
            return dict(o, v=rng.randint(1, 3000))
        if k in ('send', 'push'):
            return dict(self.message(o['b']), op=k)
        if k == 'order':
            return {'op': k, 'starts': self.starts(o['b'])}
        if k == 'run':
            c = rng.randint(1, 4)
            return {'op': k, 'starts': self.starts(o['b']), 'cycles': c, 'now': 8 * rng.randint(0, 100000) + rng.randint(1, 7),
                    'late': [rng.randint(1, 3) for _ in range(c)], 'times': [rng.choice([0, 0, 1, 2, 5, 20]) for _ in range(6)],
                    'between': [[self.message(rng.randint(1, self.n)) for _ in range(rng.choice([0, 0, 1, 3]))] for _ in range(c)]}
        return dict(o)


def patch(rng):
    """A larger patch, changed and run for a while."""
    n = rng.randint(3, 14)
    f = Filler(rng, n)
    free = {(b, i) for b in range(1, n + 1) for i in range(3)}
    conns, ops = [], []

    def wire(loops):
        b, i = rng.choice(sorted(free)) if free else (0, 0)
        if not b:
            return
        a = rng.randint(1, n) if loops or b == 1 else rng.randint(1, b - 1)
        o = 2 if i == 2 else 0
        if not loops and a >= b:
            return
        free.discard((b, i))
        conns.append((a, o, b, i))
        ops.append({'op': 'connect', 'a': a, 'o': o, 'b': b, 'i': i})

    loops = rng.random() < .4
    for _ in range(rng.randint(n // 2, 3 * n)):
        wire(loops)
    for _ in range(rng.randint(1, 4)):
        ops.append({'op': rng.choice(['order', 'order', 'run']), 'b': rng.randint(1, n)})
        for _ in range(rng.randint(2, 6)):
            ops.append({'op': rng.choice(['own', 'inown', 'rebuild', 'send', 'push', 'send', 'push']), 'b': rng.randint(1, n), 'i': rng.randint(0, 1)})
            if rng.random() < .6:
                ops.append({'op': 'cycle'})
        for _ in range(rng.randint(0, 3)):
            if conns and rng.random() < .5:
                a, o, b, i = conns.pop(rng.randrange(len(conns)))
                free.add((b, i))
                ops.append({'op': 'disconnect', 'a': a, 'o': o, 'b': b, 'i': i})
            else:
                wire(loops)
            if rng.random() < .3:
                ops.append({'op': 'cycle'})
    return {'cfg': {'n': n, 'kinds': f.kinds, 'plain': rng.random() < .5}, 'ops': [f.fill(o) for o in ops]}


def run(ctx):
    t = ctx.thorough
    ctx.design('FlowDesign', DESIGN % ((3, 3, 3, 1) if t else (3, 2, 2, 1)), label='whole patch', min_states=2000, timeout=900, workers=8, heap='8g')
    rng = ctx.rng
    found = ctx.generate('FlowGen', GEN % (3, 18), label='small patches', simulate=1500 if t else 250, depth=20, limit=3000 if t else 400)
    found += ctx.generate('FlowGen', GEN % (5, 30), label='patches', simulate=800 if t else 120, depth=32, limit=2000 if t else 250)
    scns = []
    for h in found:
        n = max(max(o.get('a', 1), o.get('b', 1)) for o in h)
        f = Filler(rng, n)
        # a cycle to see the end of it
        scns.append({'cfg': {'n': n, 'kinds': f.kinds, 'plain': rng.random() < .5}, 'ops': [f.fill(o) for o in h + [{'op': 'order', 'b': 1}, {'op': 'cycle'}, {'op': 'cycle'}]]})
    scns += [patch(rng) for _ in range(1500 if t else 250)]
    ctx.conform('d_flow', 'FlowTrace', scns, native=False, constants='CONSTANTS\n M = 9973\n Q = 50')
