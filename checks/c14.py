"""C14: every held note of the polyphonic synthesizer has its own voice."""
from checks.c13 import GEN, press, split, random_keys

PROPERTY = 'C14'
LEVEL = 'model_checking'
ASSUMPTIONS = ['at most 50 notes per update (the size of a message queue)',
               'the exhaustive part runs on a subclass with three voices, random histories also on 24']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 K = %d
 Pitches = {1, 2}
 MaxEvents = %d
INVARIANTS OwnVoice EachOnce AllReleasedSilent
'''


def scenario(rng, ns, voices, p):
    slow = rng.random() < .3
    ops = []
    for op in split(rng, ns, p):
        if rng.random() < .15 and op['ins']:
            ops.append({'op': 'play', 'ins': op['ins']})
        else:
            ops.append(op)
    ops += [{'op': 'update', 'ins': []}, {'op': 'settle', 'n': 6}]
    return {'cfg': {'kind': 'poly', 'voices': voices, 'slow': slow, 'retrigger': rng.random() < .3, 'used': rng.random() < .2}, 'ops': ops}


def run(ctx):
    ctx.design('PolyDesign', DESIGN % ((3, 9) if ctx.thorough else (3, 7)), label='voices', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    scns = []
    found = ctx.generate('MonoGen', GEN % (6 if ctx.thorough else 5), label='key events', limit=None if ctx.thorough else 2500)
    for s in found:
        scns.append(scenario(rng, press(rng, s['keys']), 3, rng.choice([.2, .5, 1])))
    for _ in range(800 if ctx.thorough else 110):
        pitches = rng.choice([[60, 61], [0, 1, 60, 127], list(range(40, 80)), list(range(128))])
        n = rng.choice([10, 30, 80])
        keys, held = random_keys(rng, pitches, n, rng.choice([.1, .3, .5]))
        if rng.random() < .6:
            keys += [{'p': p - 60, 'on': 0} for p in held]
        scns.append(scenario(rng, press(rng, keys), rng.choice([3, 24, 24]), rng.choice([.1, .5, .9])))
    rng.shuffle(scns)
    ctx.conform('d_synth', 'PolyTrace', scns)
