"""C13: the monophonic synthesizer plays the held note its policy prefers."""
PROPERTY = 'C13'
LEVEL = 'model_checking'
ASSUMPTIONS = ['among several presses of the same pitch any may be taken back by a release, and any may be preferred by pitch',
               'at most 50 notes per update (the size of a message queue)']

POLICIES = ['newest', 'oldest', 'highest', 'lowest']
DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Pitches = {1, 2, 3}
 MaxPresses = %d
INVARIANTS Agrees SameNotes Counted
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 Pitches = {1, 2, 3}
 Depth = %d
ACTION_CONSTRAINT Emit
'''


def press(rng, keys, pitches=None):
    return [{'p': pitches[k['p']] if pitches else 60 + k['p'], 'v': rng.choice([1, 64, 128, rng.randint(1, 128)]) if k['on'] else 0,
             'f': i + 1} for i, k in enumerate(keys)]


def split(rng, ns, p=.5):
    """Notes -> updates."""
    ops, ins = [], []
    for n in ns:
        ins.append(n)
        if rng.random() < p or len(ins) >= 50:
            ops.append({'op': 'update', 'ins': ins})
            ins = []
            if rng.random() < .15:
                ops.append({'op': 'update', 'ins': []})
    ops += [{'op': 'update', 'ins': ins}, {'op': 'update', 'ins': []}]
    return ops


def random_keys(rng, pitches, n, off=.5):
    keys, held = [], []
    for _ in range(n):
        if held and rng.random() < off:
            p = rng.choice(held)
            held.remove(p)
            keys.append({'p': p, 'on': 0})
        elif rng.random() < .1:
            keys.append({'p': rng.choice(pitches), 'on': 0})
        else:
            # few repeated presses keep the possibilities few
            p = rng.choice(pitches)
            if held.count(p) >= 2:
                continue
            held.append(p)
            keys.append({'p': p, 'on': 1})
    return [{'p': k['p'] - 60, 'on': k['on']} for k in keys], held


def run(ctx):
    ctx.design('MonoDesign', DESIGN % (6 if ctx.thorough else 4), label='scheduling', min_states=500, timeout=1500, workers=6)
    rng = ctx.rng
    found = ctx.generate('MonoGen', GEN % (6 if ctx.thorough else 5), label='key events')
    scns = []
    for s in found:
        for policy in (POLICIES if ctx.thorough else rng.sample(POLICIES, 1)):
            ns = press(rng, s['keys'])
            if rng.random() < .4:
                scns.append({'cfg': {'kind': 'scheduler', 'policy': policy}, 'ops': [{'op': 'key', 'note': n} for n in ns]})
            else:
                scns.append({'cfg': {'kind': 'mono', 'policy': policy, 'retrigger': rng.random() < .5}, 'ops': split(rng, ns)})
    if not ctx.thorough and len(scns) > 4000:
        scns = rng.sample(scns, 4000)
    for _ in range(1500 if ctx.thorough else 250):
        pitches = rng.choice([[60, 61, 62, 63], list(range(50, 70)), list(range(0, 128, 7))])
        keys, held = random_keys(rng, pitches, rng.randint(5, 60), rng.choice([.3, .5, .6]))
        if rng.random() < .5:
            keys += [{'p': p - 60, 'on': 0} for p in held]
        ns = press(rng, keys)
        policy = rng.choice(POLICIES)
        if rng.random() < .3:
            scns.append({'cfg': {'kind': 'scheduler', 'policy': policy}, 'ops': [{'op': 'key', 'note': n} for n in ns]})
        else:
            scns.append({'cfg': {'kind': 'mono', 'policy': policy, 'retrigger': rng.random() < .5}, 'ops': split(rng, ns, rng.choice([.1, .5, .9]))})
    for _ in range(3000 if ctx.thorough else 300):
        # many keys held at once, released in any order
        pitches = rng.sample(range(20, 100), rng.randint(7, 16))
        keys = [{'p': p - 60, 'on': 1} for p in pitches]
        rng.shuffle(pitches)
        back = pitches[:rng.randint(1, len(pitches))]
        keys += [{'p': p - 60, 'on': 0} for p in back]
        keys += [{'p': p - 60, 'on': 1} for p in rng.sample(back, rng.randint(0, len(back)))]
        tail = [k['p'] for k in keys if k['on'] and keys.count(k) % 2]
        keys += [{'p': p, 'on': 0} for p in rng.sample(tail, len(tail))]
        policy = rng.choice(POLICIES)
        ns = press(rng, keys)
        if rng.random() < .6:
            scns.append({'cfg': {'kind': 'scheduler', 'policy': policy}, 'ops': [{'op': 'key', 'note': n} for n in ns]})
        else:
            scns.append({'cfg': {'kind': 'mono', 'policy': policy, 'retrigger': rng.random() < .5}, 'ops': split(rng, ns, .9)})
    for _ in range(2000 if ctx.thorough else 200):
        # the best key always comes last, then all are released
        pitches = rng.sample(range(10, 120), rng.choice([7, 16, 24, 32, 44]))
        policy = rng.choice(['newest', 'highest', 'lowest'])
        if policy != 'newest':
            pitches.sort(reverse=policy == 'lowest')
        keys = [{'p': p - 60, 'on': 1} for p in pitches] + [{'p': p - 60, 'on': 0} for p in rng.sample(pitches, len(pitches))]
        scns.append({'cfg': {'kind': 'scheduler', 'policy': policy}, 'ops': [{'op': 'key', 'note': n} for n in press(rng, keys)]})
    rng.shuffle(scns)
    ctx.conform('d_synth', 'MonoTrace', scns)
