"""C01: both ends of every connection agree; refusals change nothing."""
from checks import patchlib as pl

PROPERTY = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['endpoints are instances of the nine public connectable classes',
               'connections are only changed through connect/disconnect/pipe']


def kinds_table():
    """All ordered pairs of the nine classes, fresh and with a taken input."""
    names = 'bo br bi vo vr vi mo mr mi'.split()
    for a in names:
        for b in names:
            for op in ('connect', 'disconnect', 'pipe'):
                for first in (None, (3, 2), (2, 3)):
                    es = pl.ends(' '.join([a, b, b[0] + 'o', b[0] + 'i']))
                    ops = []
                    if first:
                        ops.append({'op': 'connect', 'a': first[0], 'b': first[1]})
                    ops.append({'op': op, 'a': 1, 'b': 2})
                    ops.append({'op': 'connect', 'a': 1, 'b': 4})
                    ops.append({'op': op, 'a': 2, 'b': 1})
                    ops.append({'op': 'disconnect', 'a': 2, 'b': 1})
                    ops.append({'op': 'disconnect', 'a': 3, 'b': 2})
                    ops.append({'op': op, 'a': 1, 'b': 2})
                    yield {'cfg': {'ends': es}, 'ops': ops}


def random_histories(rng, count, length):
    names = 'vo vo vr vr vi vi mo mr mr mi mi bo br bi'.split()
    for _ in range(count):
        es = pl.ends(' '.join(rng.sample(names, rng.randint(4, 9))))
        n = len(es)
        ops = []
        for _ in range(length):
            op = rng.choices(['connect', 'disconnect', 'pipe'], [6, 4, 2])[0]
            if rng.random() < .75:      # mostly sensible pairs
                fam = rng.choice([e['fam'] for e in es])
                o = [i for i, e in enumerate(es, 1) if e['fam'] == fam and e['role'] != 'in']
                d = [i for i, e in enumerate(es, 1) if e['fam'] == fam and e['role'] != 'out']
                if not o or not d:
                    continue
                a, b = rng.choice(o), rng.choice(d)
                if op != 'pipe' and rng.random() < .5:
                    a, b = b, a
            else:
                a, b = rng.randint(1, n), rng.randint(1, n)
            ops.append({'op': op, 'a': a, 'b': b})
        yield {'cfg': {'ends': es}, 'ops': ops}


def run(ctx):
    ctx.design('PatchDesign', pl.DESIGN % dict(q=2, part='graph', m=0), label='Patch graph', min_states=100)
    scns = list(kinds_table())
    scns += ctx.generate('PatchGen', pl.GEN % dict(v='{1}', q=2, part='graph', m=0), label='Patch graph',
                         limit=None if ctx.thorough else 6000)
    scns += list(random_histories(ctx.rng, 2000 if ctx.thorough else 150, 60 if ctx.thorough else 40))
    for s in scns:
        s['cfg']['observe'] = 'graph'
        if ctx.rng.random() < .5:       # blocks of more than one endpoint
            k = ctx.rng.randint(1, 3)
            s['cfg']['blocks'] = [ctx.rng.randint(1, k) for _ in s['cfg']['ends']]
    ctx.conform('d_patch', 'PatchTrace', scns, native=False, constants=pl.TRACE)
