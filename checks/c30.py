"""C30: effects without memory compute their function of the current signal."""
PROPERTY = 'C30'
LEVEL = 'model_checking'
ASSUMPTIONS = ['signals are integers or fractions for which the results are exact; tanh and lines are compared to 1e-6 and 1e-4',
               'signals into the bit crusher stay within full scale']

DESIGN = '''SPECIFICATION Spec
CONSTANTS
 Len0 = %d
 MaxFx = %d
INVARIANTS HoldTwice CrushTwice CrushNear Commute PanSum PanMirror OctaveEven
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''


def signal(rng, top, channels=None, scalar=False):
    if scalar and rng.random() < .3:
        return {'scalar': rng.randint(-top, top)}
    c = channels or rng.choice([1, 1, 2])
    return {'seed': rng.randint(0, 10 ** 6), 'max': top, 'channels': c, 'flat': c > 1 or rng.random() < .9, 'readonly': rng.random() < .3}


def gains(rng, many):
    return [rng.randint(-8, 8) for _ in range(256)] if many else [rng.choice([0, 1, 2, 3, 4, 4, 8, -4, 12])]


def op(rng):
    k = rng.choice(['hold', 'hold', 'crush', 'crush', 'octave', 'tanh', 'line', 'line', 'line', 'pan', 'pan', 'amps', 'amps', 'factor', 'dry', 'refused'])
    if k == 'hold':
        return dict(signal(rng, 100), op=k, f=2 ** rng.randint(1, 7))
    if k == 'factor':
        return {'op': k, 'f': rng.choice([0, 1, 2, 3, 4, 6, 8, 16, 32, 48, 64, 100, 128, 256, 512, -2])}
    if k == 'crush':
        return dict(signal(rng, rng.choice([3, 100, 32766, 32766])), op=k, n=rng.randint(0, 15))
    if k == 'octave':
        return dict(signal(rng, rng.choice([64, 64, 130])), op=k, u=64)
    if k == 'tanh':
        return dict(signal(rng, rng.choice([3, 40])), op=k, drive=rng.choice([1, 1, .5, 2, 10, 3]))
    if k == 'line':
        how = rng.choice(['limits', 'limits2', 'ranges', 'direct'])
        y0 = rng.randint(-50, 50)
        p = {'x0': 0, 'x1': 1, 'y0': y0, 'y1': y0 + rng.choice([1, 2, 7, 20, 100])}
        if how == 'limits2':
            p['x0'] = -1
        elif how == 'ranges':
            p['x0'] = rng.randint(-20, 20)
            p['x1'] = p['x0'] + rng.choice([1, 2, 3, 7, 10, 64])
            if rng.random() < .4:
                p['y0'], p['y1'] = p['y1'], p['y0']
        return dict(signal(rng, 40, scalar=True), op=k, how=how, p=p)
    if k == 'dry':
        return dict(signal(rng, 100, 1), op=k, shift=2., flat=True)
    if k == 'pan':
        return dict(signal(rng, 50), op=k, v=rng.randint(-6, 6))
    if k == 'amps':
        return {'op': k, 'v': rng.randint(-6, 6), 'mode': rng.choice(['constant_power', 'mixture', 'linear']), 'explicit': rng.random() < .5}
    return {'op': 'refused', 'args': rng.choice([['circular'], ['linear', 3.], ['constant_power', 1.], ['']])}


def run(ctx):
    ctx.design('MemorylessDesign', DESIGN % ((4, 3) if ctx.thorough else (3, 2)), label='rack', min_states=1000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('MemorylessGen', GEN % (5 if ctx.thorough else 4), label='gains')
    rng.shuffle(found)
    scns = []
    for h in found[:1500 if ctx.thorough else 300]:
        ops = []
        for o in h:
            if o in ('mono', 'stereo'):
                ops.append(dict(signal(rng, 30, 1 + (o == 'stereo'), scalar=o == 'mono'), op='gain'))
            elif o[:3] in ('own', 'far'):
                ops.append({'op': o[:3], 'g': gains(rng, o.endswith('N'))})
            else:
                ops.append({'op': o})
        # signal-rate gains need signals
        if any(len(x.get('g', [])) > 1 for x in ops):
            for x in ops:
                if 'scalar' in x:
                    x.pop('scalar')
                    x.update(signal(rng, 30, 1))
        scns.append({'cfg': {'gain': gains(rng, rng.random() < .1 and not any('scalar' in x for x in ops))}, 'ops': ops})
    for _ in range(800 if ctx.thorough else 200):
        scns.append({'cfg': {'gain': [4]}, 'ops': [op(rng) for _ in range(10)]})
    for mode in ('constant_power', 'mixture', 'linear'):
        scns.append({'cfg': {'gain': [4]}, 'ops': [{'op': 'amps', 'v': v, 'mode': mode, 'explicit': True} for v in list(range(-6, 7)) + [0, -4, 4, 1]]})
        scns.append({'cfg': {'gain': [4]}, 'ops': [{'op': 'law', 'mode': mode, 'k': k, 'via': k % 3 if k % 2 else 0} for k in range(-1, 8)]})
        for via in range(3):
            for _ in range(20 if ctx.thorough else 4):
                vs = rng.sample(range(-70, 71), 30) + [rng.randint(-3, 3)]
                scns.append({'cfg': {'gain': [4]}, 'ops': [{'op': 'fine', 'mode': mode, 'via': via, 'v': vs}]})
    ctx.conform('d_memoryless', 'MemorylessTrace', scns)
