"""C03: messages reach every connected input exactly once, in order, bounded."""
from checks import patchlib as pl

PROPERTY = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['no relay loops']


def drain(es, ops):
    for i, e in enumerate(es, 1):
        if e['role'] == 'in':
            ops.append({'op': 'recv', 'i': i, 'k': 1000})
            ops.append({'op': 'latest', 'i': i})


def random_histories(rng, count, length, burst):
    for _ in range(count):
        no, nr, ni = rng.randint(1, 3), rng.randint(0, 4), rng.randint(1, 4)
        mix = rng.random() < .4
        names = ['mo'] * no + ['mr'] * nr + ['mi'] * ni
        es = pl.ends(' '.join(names))
        n = len(es)
        ins = [i for i, e in enumerate(es, 1) if e['role'] == 'in']
        mixers = []
        if mix:     # a mixer reads some inputs and feeds a fresh output
            k = rng.sample(ins, rng.randint(1, len(ins)))
            es = es + pl.ends('mo mi mi')
            mixers = [(k, n + 1)]
        total = len(es)
        ops = []
        linked = []
        m = 0
        newest = rng.random() < .5   # whether the latest message is asked for
        again = rng.random() < .4   # the same message is also sent again
        if mix:
            ops.append({'op': 'connect', 'a': n + 1, 'b': n + 2})
            if rng.random() < .5:
                ops.append({'op': 'connect', 'a': n + 3, 'b': n + 1})
        while len(ops) < length:
            r = rng.random()
            if r < .35:
                m += 0 if again and rng.random() < .5 else 1
                ops.append({'op': 'send', 'i': rng.randint(1, total), 'm': m})
            elif r < .35 + burst:
                i = rng.randint(1, total)
                for _ in range(rng.choice([10, 49, 50, 51, 60, 105])):
                    m += 1
                    ops.append({'op': 'send', 'i': i, 'm': m})
            elif r < .5:
                i = rng.choice(ins)
                ops.append({'op': 'recv', 'i': i, 'k': rng.choice([0, 1, 1, 2, 3, 1000])})
            elif r < .56:
                ops.append({'op': 'latest', 'i': rng.choice(ins)} if newest else {'op': 'recv', 'i': rng.choice(ins), 'k': 1})
            elif r < .6 and mixers:
                k, o = rng.choice(mixers)
                ops.append({'op': 'mix', 'ins': k, 'o': o})
            elif r < .85 or not linked:
                a, b = sorted(rng.sample(range(1, n + 1), 2))
                if es[a - 1]['role'] == 'in' or es[b - 1]['role'] == 'out':
                    continue
                linked.append((a, b))
                ops.append({'op': 'connect', 'a': a, 'b': b})
            else:
                a, b = linked.pop(rng.randrange(len(linked)))
                ops.append({'op': 'disconnect', 'a': a, 'b': b})
        none = rng.random() < .6 and not any(op['op'] == 'latest' for op in ops)
        drain(es, ops)
        yield {'cfg': {'ends': es, 'none': none}, 'ops': ops}


def deep_and_wide(rng):
    """A chain of many relays which ends in many inputs."""
    for depth, width in ((rng.randint(8, 40), 3), (1, rng.randint(15, 40)), (6, 8)):
        es = pl.ends(' '.join(['mo'] + ['mr'] * depth + ['mi'] * width))
        pairs = [(i, i + 1) for i in range(1, depth + 1)] + [(depth + 1, depth + 1 + i) for i in range(1, width + 1)]
        rng.shuffle(pairs)
        ops = [{'op': 'connect', 'a': a, 'b': b} for a, b in pairs]
        m = 0
        for _ in range(3):
            for _ in range(rng.randint(1, 4)):
                m += 1
                ops.append({'op': 'send', 'i': rng.choice([1, 1, 1, rng.randint(1, depth + 1)]), 'm': m})
            a, b = rng.choice(pairs)
            ops.append({'op': 'disconnect', 'a': a, 'b': b})
            m += 1
            ops.append({'op': 'send', 'i': 1, 'm': m})
            ops.append({'op': 'connect', 'a': a, 'b': b})
        drain(es, ops)
        yield {'cfg': {'ends': es, 'none': False}, 'ops': ops}


def run(ctx):
    ctx.design('PatchDesign', pl.DESIGN % dict(q=2, part='messages', m=3), label='Patch messages', min_states=1000)
    scns = ctx.generate('PatchGen', pl.GEN % dict(v='{1}', q=50, part='messages', m=3), label='Patch messages',
                        limit=40000 if ctx.thorough else 6000)
    for i, s in enumerate(scns):
        # None is a message like any other, except that the latest message being None looks like no message
        s['cfg']['none'] = i % 3 > 0 and not any(op['op'] == 'latest' for op in s['ops'])
        drain(s['cfg']['ends'], s['ops'])
    scns += list(random_histories(ctx.rng, 1500 if ctx.thorough else 200, 60, 0.0))
    scns += list(random_histories(ctx.rng, 300 if ctx.thorough else 40, 120, 0.04))
    for _ in range(20 if ctx.thorough else 3):
        scns += list(deep_and_wide(ctx.rng))
    for s in scns:
        s['cfg']['observe'] = 'none'
    ctx.conform('d_patch', 'PatchTrace', scns, native=False, constants=pl.TRACE)
