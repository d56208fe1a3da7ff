"""C02: a value input always reads its current source, through any relay chain."""
from checks import patchlib as pl

PROPERTY = 'C02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['no relay loops (reading one is outside of the property)']


def random_histories(rng, count, length):
    """Endpoints are ordered sources first and connected from lower to higher
    index only, so that no relay loop comes up."""
    for _ in range(count):
        no, nr, ni = rng.randint(1, 3), rng.randint(0, 5), rng.randint(1, 3)
        es = pl.ends(' '.join(['vo'] * no + ['vr'] * nr + ['vi'] * ni))
        n = len(es)
        ops = []
        linked = []
        for _ in range(length):
            r = rng.random()
            if r < .4:
                ops.append({'op': 'set', 'i': rng.randint(1, n), 'v': rng.randint(0, 7)})
            elif r < .8 or not linked:
                a, b = sorted(rng.sample(range(1, n + 1), 2))
                if es[a - 1]['role'] == 'in' or es[b - 1]['role'] == 'out':
                    continue
                linked.append((a, b))
                if rng.random() < .4 and not (es[a - 1]['role'] == es[b - 1]['role'] == 'relay'):
                    a, b = b, a
                ops.append({'op': rng.choice(['connect', 'connect', 'pipe']) if a < b else 'connect', 'a': a, 'b': b})
            else:
                a, b = linked.pop(rng.randrange(len(linked)))
                if rng.random() < .4 and es[b - 1]['role'] == 'in':
                    a, b = b, a
                ops.append({'op': 'disconnect', 'a': a, 'b': b})
        yield {'cfg': {'ends': es}, 'ops': ops}


def deep_chains(rng):
    for depth in (5, 12, rng.randint(20, 50)):
        es = pl.ends(' '.join(['vo'] + ['vr'] * depth + ['vi']))
        n = len(es)
        pairs = [(i, i + 1) for i in range(1, n)]
        rng.shuffle(pairs)
        ops = []
        for a, b in pairs:
            ops.append({'op': 'connect', 'a': a, 'b': b})
            ops.append({'op': 'set', 'i': rng.randint(1, n), 'v': rng.randint(1, 7)})
        rng.shuffle(pairs)
        for a, b in pairs:
            ops.append({'op': 'set', 'i': 1, 'v': rng.randint(1, 7)})
            ops.append({'op': 'disconnect', 'a': a, 'b': b})
        yield {'cfg': {'ends': es}, 'ops': ops}


def run(ctx):
    ctx.design('PatchDesign', pl.DESIGN % dict(q=2, part='values', m=0), label='Patch values', min_states=1000)
    scns = ctx.generate('PatchGen', pl.GEN % dict(v='{1, 2}' if ctx.thorough else '{1}', q=2, part='values', m=0), label='Patch values',
                        limit=60000 if ctx.thorough else 7000)
    scns += list(random_histories(ctx.rng, 2500 if ctx.thorough else 250, 60))
    for _ in range(5):
        scns += list(deep_chains(ctx.rng))
    for s in scns:
        s['cfg']['observe'] = 'values'
    ctx.conform('d_patch', 'PatchTrace', scns, native=False, constants=pl.TRACE)
