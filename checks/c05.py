"""C05: composites, unpatching and the warning about duplicates."""
PROPERTY = 'C05'
LEVEL = 'model_checking'
ASSUMPTIONS = ['composites are properly nested: an internal block is connected to its siblings and the relays of its composite only',
               'update() of a block does not change the wiring']

DESIGN = '''SPECIFICATION DSpec
CONSTANT MaxLinks = %d
INVARIANTS InteriorIsInside AnOrderExists UnpatchedIsInside OnlyOwnLinks NoDepsOnSelf
'''
ALGO = '''SPECIFICATION ASpec
CONSTANTS
 N = 4
 AnyChild = FALSE
INVARIANTS Correct FirstCanBeLeftOut
'''
GEN = 'SPECIFICATION GSpec\nACTION_CONSTRAINT Emit\n'


def finish(rng, scn, deep):
    """Orders and updates an enumerated interior, unpatched or patched."""
    ops = scn['ops']
    rng.shuffle(ops)
    if rng.random() < .3:
        ops.append({'op': 'link', 's': [5, 'out', 2], 'd': [1, 'in', 1]})
        ops.append({'op': 'link', 's': [1, 'out', 1], 'd': [5, 'in', 4]})
    ops.append({'op': 'reorder', 'c': 1, 'starts': []})
    ops.append({'op': 'update', 'c': 1})
    if deep:
        ops.append({'op': 'unpatch', 'b': rng.randint(1, 5), 'boom': rng.randint(0, 1)})
        ops.append({'op': 'update', 'c': 1})
    return scn


def random_nested(rng, count, steps):
    for _ in range(count):
        n = rng.randint(3, 10)
        comps = sorted(rng.sample(range(1, n + 1), rng.randint(1, min(4, n - 1))))
        parent = [0] * (n + 1)
        for b in range(1, n + 1):
            choices = [0] + [c for c in comps if c < b]
            parent[b] = rng.choice(choices)
        tops = [b for b in range(1, n + 1) if not parent[b]]
        leaves = [b for b in tops if b not in comps]
        dac = rng.choice(leaves) if leaves and rng.random() < .6 else 0
        ops, links = [], []

        def candidate():
            b = rng.randint(1, n)
            form = rng.random()
            if form < .6:       # siblings
                sib = [x for x in range(1, n + 1) if parent[x] == parent[b]]
                s, d = [b, 'out'], [rng.choice(sib), 'in']
            elif parent[b] and form < .8:
                s, d = [parent[b], 'in'], [b, 'in']
            elif parent[b] and form < .97:
                s, d = [b, 'out'], [parent[b], 'out']
            elif b in comps:
                s, d = [b, 'in'], [b, 'out']
            else:
                return None
            if rng.random() < .25:
                ks, kd = rng.choice([3, 6]), rng.choice([3, 6])
            else:
                ks, kd = rng.choice([1, 2, 4, 5]), rng.choice([1, 2, 4, 5])
            d, s = d + [kd], s + [ks]
            if d == [dac, 'in', 1] or any(x[1] == d for x in links):
                return None
            return s, d

        for k in range(steps):
            for _ in range(rng.randint(n, 2 * n) if k == 0 else rng.randint(1, 3)):
                if links and k and rng.random() < .4:
                    s, d = links.pop(rng.randrange(len(links)))
                    ops.append({'op': 'unlink', 's': s, 'd': d})
                    continue
                c = candidate()
                if c:
                    links.append(c)
                    ops.append({'op': 'link', 's': c[0], 'd': c[1]})
            for c in comps:
                if rng.random() < .8:
                    kids = [b for b in range(1, n + 1) if parent[b] == c]
                    starts = rng.sample(kids, rng.randint(1, len(kids))) if kids and rng.random() < .3 else []
                    ops.append({'op': 'reorder', 'c': c, 'starts': starts})
                if rng.random() < .7:
                    ops.append({'op': 'update', 'c': c})
            for c in rng.sample(comps, len(comps)):
                ops.append({'op': 'update', 'c': c})
            ops.append({'op': 'unpatch', 'b': rng.randint(1, n), 'boom': rng.randint(0, 1)})
            if dac and rng.random() < .7:
                starts = [dac] + [b for b in range(1, n + 1) if b != dac and rng.random() < .25]
                rng.shuffle(starts)
                ops.append({'op': 'start', 'starts': starts, 'audio': 1})
        if not dac and rng.random() < .3:
            c = [c for c in comps if not parent[c]]
            if c:
                ops.append({'op': 'start', 'starts': [rng.choice(c)], 'audio': 0})
        label = list(range(1, n + 1))
        if rng.random() < .5:
            label = [100 + b if b in comps else rng.randint(1, 3) for b in label]
        yield {'cfg': {'n': n, 'parent': parent[1:], 'comp': comps, 'dac': dac, 'label': label}, 'ops': ops}


def empty_composites():
    for n, parent, comps, ops in (
            (1, [0], [1], []),
            (2, [0, 1], [1, 2], [{'op': 'link', 's': [2, 'out', 1], 'd': [1, 'out', 1]},
                                 {'op': 'reorder', 'c': 1, 'starts': []}]),
            (1, [0], [1], [{'op': 'link', 's': [1, 'in', 1], 'd': [1, 'out', 1]},
                           {'op': 'reorder', 'c': 1, 'starts': []}, {'op': 'update', 'c': 1}])):
        yield {'cfg': {'n': n, 'parent': parent, 'comp': comps, 'dac': 0},
               'ops': ops + [{'op': 'start', 'starts': [1], 'audio': 0}]}


def run(ctx):
    ctx.design('CompositeDesign', DESIGN % (4 if ctx.thorough else 3), label='nested composites', min_states=1000, timeout=800, workers=6)
    ctx.design('ExecDesign', ALGO, label='leaving the composite out of the order', min_states=10000, deadlock=True)
    scns = [finish(ctx.rng, s, i % 4 == 0) for i, s in enumerate(ctx.generate('CompositeGen', GEN, label='all interiors of 3 blocks'))]
    scns += list(empty_composites())
    scns += list(random_nested(ctx.rng, 3000 if ctx.thorough else 400, 4))
    ctx.conform('d_composite', 'CompositeTrace', scns, native=False)
