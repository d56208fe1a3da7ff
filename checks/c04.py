"""C04: every block once per cycle, after everything it depends on."""
PROPERTY = 'C04'
LEVEL = 'model_checking'
ASSUMPTIONS = ['no chain of more than a thousand blocks (the search for loops is recursive)', 'update() of a block does not change the wiring']

DESIGN = '''SPECIFICATION ASpec
CONSTANTS
 N = %d
 AnyChild = %s
INVARIANTS Correct RestIsAcyclic OnlyLoopsCut FirstCanBeLeftOut
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 N = %d
 Mode = "%s"
VIEW GView
ACTION_CONSTRAINT Emit
'''


def network(edges, starts):
    seen, todo = set(), list(starts)
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo += [v for u, v in edges if u == b] + [u for u, v in edges if v == b]
    return seen


def orders(rng, n, ops, edges, dac=0):
    """order / execute / run requests for the current wiring."""
    ids = list(range(1, n + 1))
    starts = rng.sample(ids, rng.randint(1, min(3, n)))
    if rng.random() < .15:
        starts += rng.choices(starts, k=2)
    ops.append({'op': 'order', 'starts': starts})
    ops.append({'op': 'execute', 'order': rng.sample(ids, rng.randint(1, n))})
    if rng.random() < .3:
        net = network(edges, starts)
        ops.append({'op': 'run', 'starts': starts, 'cycles': rng.choice([2, 3, 4]), 'size': len(net),
                    'audio': int(dac in net)})


def permuted(rng, scn):
    """Wires the same graph in another order with other names and starts."""
    n = scn['cfg']['n']
    name = dict(zip(range(1, n + 1), rng.sample(range(1, n + 1), n)))
    ops = []
    edges = []
    free = {b: rng.sample(range(12), 12) for b in name.values()}
    cons = [o for o in scn['ops'] if o['op'] == 'connect']
    rng.shuffle(cons)
    for o in cons:
        a, b = name[o['a']], name[o['b']]
        ops.append({'op': 'connect', 'a': a, 'o': rng.randint(1, 2), 'b': b, 'i': free[b].pop()})
        edges.append((a, b))
        if rng.random() < .1 and free[b]:
            ops.append({'op': 'connect', 'a': a, 'o': rng.randint(1, 2), 'b': b, 'i': free[b].pop()})
    ops.append({'op': 'order', 'starts': [rng.randint(1, n)]})
    return {'cfg': {'n': n}, 'ops': ops}


def random_networks(rng, count, nmax, steps):
    for _ in range(count):
        n = rng.randint(2, nmax)
        dac = rng.randint(0, n) if rng.random() < .5 else 0
        ops, conns = [], []
        taken = set()
        forward = rng.choice([.5, .8, 1.])      # share of connections along a hidden order
        rank = dict(zip(range(1, n + 1), rng.sample(range(n), n)))
        dense = rng.choice([.8, 1.5, 3])
        for k in range(steps):
            for _ in range(int(n * dense) if k == 0 else rng.randint(1, 4)):
                if conns and k and rng.random() < .5:
                    a, o, b, i = c = rng.choice(conns)
                    conns.remove(c)
                    taken.discard((b, i))
                    ops.append({'op': 'disconnect', 'a': a, 'o': o, 'b': b, 'i': i})
                    continue
                a, b = rng.randint(1, n), rng.randint(1, n)
                if rank[a] > rank[b] and rng.random() < forward:
                    a, b = b, a
                if a == b and rng.random() < .7:
                    continue
                # a Dac renders what arrives at input 0
                i, o = rng.randrange(12), rng.randint(1, 2)
                if (b, i) in taken:
                    continue
                taken.add((b, i))
                conns.append((a, o, b, i))
                ops.append({'op': 'connect', 'a': a, 'o': o, 'b': b, 'i': i})
            orders(rng, n, ops, [(a, b) for a, _, b, _ in conns if a != b], dac)
        yield {'cfg': {'n': n, 'dac': dac}, 'ops': ops}


def wide_networks(rng, sizes):
    """Many blocks in front of one, and one in front of many."""
    for m in sizes:
        name = rng.sample(range(1, m + 4), m + 3)
        first, sink, last, rest = name[0], name[1], name[2], name[3:]
        cons = [(b, i, sink) for i, b in enumerate(rest)] + [(sink, 0, last)] + [(first, 0, b) for b in rest if rng.random() < .9]
        rng.shuffle(cons)
        ops = [{'op': 'connect', 'a': a, 'o': 1, 'b': b, 'i': i} for a, i, b in cons]
        for starts in ([last], [sink, last], [last, rest[0]], [first]):
            ops.append({'op': 'order', 'starts': starts})
        yield {'cfg': {'n': m + 3, 'dac': 0, 'inputs': m + 1}, 'ops': ops}


def run(ctx):
    ctx.design('ExecDesign', DESIGN % (3, 'TRUE'), label='order algorithm, 3 blocks, every choice', min_states=1000, deadlock=True)
    ctx.design('ExecDesign', DESIGN % (4, 'TRUE' if ctx.thorough else 'FALSE'), label='order algorithm, 4 blocks',
               min_states=10000, deadlock=True, workers=6, timeout=800)
    graphs = ctx.generate('ExecGen', GEN % (4, 'graphs'), label='all digraphs on 4 blocks')
    assert len(graphs) == 4096
    scns = list(graphs)
    for s in graphs:
        for _ in range(4 if ctx.thorough else 1):
            scns.append(permuted(ctx.rng, s))
    hists = ctx.generate('ExecGen', GEN % (3 if ctx.thorough else 2, 'histories'), label='histories',
                         limit=20000 if ctx.thorough else 3000)
    for s in hists:
        edges = set()
        n = s['cfg']['n']
        s['ops'].append({'op': 'order', 'starts': [ctx.rng.randint(1, n)]})
    scns += hists
    scns += list(random_networks(ctx.rng, 3000 if ctx.thorough else 300, 9, 4))
    scns += list(random_networks(ctx.rng, 400 if ctx.thorough else 40, 40, 3))
    scns += list(wide_networks(ctx.rng, [100, 127, 128, 129, 200, 255, 256, 257, 300] if ctx.thorough else [128, 256]))
    for s in scns:
        if ctx.rng.random() < .2:
            s['cfg'] = dict(s['cfg'], strays=1)
    for _ in range(2000 if ctx.thorough else 200):
        n = ctx.rng.randint(1, 8)
        edges = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if ctx.rng.random() < ctx.rng.choice([.1, .3]) and (a != b or ctx.rng.random() < .2)]
        scns.append({'cfg': {'n': n}, 'ops': [{'op': 'sort', 'n': n, 'edges': edges + edges[:ctx.rng.randint(0, 1)]}]})
    ctx.conform('d_exec', 'ExecTrace', scns, native=False)
