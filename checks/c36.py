"""C36: the message mixer passes on every message of every input once."""
PROPERTY = 'C36'
LEVEL = 'model_checking'
ASSUMPTIONS = ['message queues hold 50 messages']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Cap = 2
 MaxInputs = %d
 MaxMessages = %d
INVARIANTS Once Order Bounded Lost
PROPERTIES Now
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 Depth = %d
 MaxInputs = 3
ACTION_CONSTRAINT Emit
'''


def kinds(rng, n):
    return [rng.randint(-4, 8) for _ in range(n)]


def config(rng, k):
    return {'inputs': k, 'default': k == 2 and rng.random() < .5, 'ears': rng.choice([1, 1, 2]), 'feed': rng.choice(['push', 'output', 'output', 'relay'])}


def random_history(rng):
    k0 = k = rng.choice([0, 1, 2, 2, 3, 5, 12, 40])
    cfg = config(rng, k)
    ops, waiting = [], {}
    for _ in range(rng.randint(2, 40)):
        x = rng.random()
        if x < .1:
            ops.append({'op': 'widen'})
            k += 1
        elif x < .65 and k:
            i = rng.randint(1, k)
            n = rng.choice([1, 1, 1, 2, 3, 7])
            if rng.random() < .05:
                n = rng.choice([49, 50, 51, 60])
            # what is heard has to fit into one queue
            total = sum(min(50, waiting.get(j, 0) + (n if j == i else 0)) for j in set(waiting) | {i})
            if total > 50:
                ops.append({'op': 'update'})
                waiting = {}
            waiting[i] = waiting.get(i, 0) + n
            ops.append({'op': 'arrive', 'i': i, 'kinds': kinds(rng, n)})
        else:
            ops.append({'op': 'update'})
            waiting = {}
    ops += [{'op': 'update'}] * 2
    return {'cfg': cfg, 'ops': ops}


def run(ctx):
    ctx.design('MergeDesign', DESIGN % ((3, 6) if ctx.thorough else (3, 5)), label='message mixer', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    scns = []
    for s in ctx.generate('MergeGen', GEN % (7 if ctx.thorough else 6), label='histories', limit=40000 if ctx.thorough else 4000):
        ops = [dict(o, kinds=kinds(rng, rng.choice([1, 1, 2]))) if o['op'] == 'arrive' else {'op': o['op']} for o in s['ops']] + [{'op': 'update'}]
        scns.append({'cfg': config(rng, s['k']), 'ops': ops})
    for _ in range(4000 if ctx.thorough else 600):
        scns.append(random_history(rng))
    ctx.conform('d_merge', 'MergeTrace', scns, native=False, constants='CONSTANT Cap = 50')
