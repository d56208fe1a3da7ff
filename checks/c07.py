"""C07: the ring buffer is an exact delay line."""
PROPERTY = 'C07'
LEVEL = 'model_checking'
ASSUMPTIONS = ['lengths are at least one', 'after a change of the length only values written since then are determined']

CONST = '''
CONSTANTS
 MaxLen = %d
 MaxBuf = %d
'''
DESIGN = 'SPECIFICATION DSpec' + CONST + 'INVARIANTS InBounds DelayLine\n'
GEN = 'SPECIFICATION GSpec' + CONST + 'VIEW GView\nACTION_CONSTRAINT Emit\n'


def finish(rng, s):
    """Peeks after the last write, sometimes in between."""
    ops = []
    B = s['cfg']['bufsize']
    for i, o in enumerate(s['ops']):
        ops.append(o)
        if i == len(s['ops']) - 1:
            ops += [{'op': 'peek', 'k': 0}, {'op': 'peek', 'k': rng.randint(1, B)}]
    s['ops'] = ops
    s['cfg']['channels'] = rng.choice([1, 1, 2, 3])
    return s


def random_histories(rng, count, steps, big):
    for _ in range(count):
        B = rng.choice([1, 2, 3, 4, 7, 16] if not big else [64, 256])
        cap = rng.randint(1, 20) if not big else rng.choice([1, 63, 64, 255, 256, 257, 300, 600])
        L = cap if rng.random() < .5 else rng.randint(1, cap)
        ops = []
        for _ in range(steps):
            r = rng.random()
            if r < .25:
                ops += [{'op': 'append'} for _ in range(rng.choice([1, 1, 2, 5]))]
            elif r < .5:
                ops.append({'op': 'extend', 'n': rng.choice([0, 1, B, B, rng.randint(0, B)])})
            elif r < .7:
                ops.append({'op': 'peek_extend', 'n': rng.choice([0, 1, B, rng.randint(0, B)]), 'again': rng.random() < .3})
            elif r < .74:
                ops.append({'op': rng.choice(['extend', 'peek_extend']), 'n': B + rng.randint(1, 3)})
            elif r < .78:
                ops.append({'op': 'length', 'n': cap + rng.randint(1, 3)})
            elif r < .81:
                ops.append({'op': 'length', 'n': rng.randint(1, cap)})
            else:
                ops.append({'op': 'peek', 'k': rng.choice([0, rng.randint(1, B)])})
        yield {'cfg': {'length': L, 'capacity': cap, 'bufsize': B, 'channels': rng.choice([1, 1, 2, 3])}, 'ops': ops}


def run(ctx):
    n = (9, 9) if ctx.thorough else (6, 6)
    ctx.design('RingDesign', DESIGN % n, label='storage scheme', min_states=500, timeout=800, workers=6)
    scns = [finish(ctx.rng, s) for s in ctx.generate('RingGen', GEN % n, label='write histories')]
    if not ctx.thorough and len(scns) > 5000:
        scns = ctx.rng.sample(scns, 5000)
    scns += list(random_histories(ctx.rng, 3000 if ctx.thorough else 300, 60, False))
    scns += list(random_histories(ctx.rng, 100 if ctx.thorough else 20, 15, True))
    ctx.conform('d_ring', 'RingTrace', scns, native=False)
