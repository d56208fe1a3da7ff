"""Delay effects, splitter and combiner."""
from fractions import Fraction

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.effects import AudioCombiner, AudioSplitter, Delay, StereoDelay
from klang.connections import MessageInput, Output

RATE = 44100


def dense(sig):
    x = np.zeros(256)
    if sig['full']:
        x[:] = sig['v']
    else:
        for k, v in sig['v']:
            x[k - 1] = v
    return x


def sparse(vals):
    pairs = [[k + 1, v] for k, v in enumerate(vals) if v]
    if len(pairs) < 40:
        return {'full': False, 'v': pairs}
    return {'full': True, 'v': vals}


def seconds(t):
    return Fraction(*t) if isinstance(t, list) else t


def identity(i):
    return np.sin(np.arange(256) * (i + 1)) * i if i else np.zeros(256)


def which(arr, n):
    arr = np.asarray(arr)
    if arr.shape != (256,):
        raise Bad('shape %r' % (arr.shape,))
    for i in range(n + 1):
        if np.array_equal(arr, identity(i)):
            return i
    raise Bad('unknown signal')


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    src = Output(owner=None)
    scale = cfg['scale']
    fbs = [a / b for a, b in cfg['fb']]
    if cfg['kind'] == 'mono':
        fx = Delay(seconds(cfg['times'][0]), fbs[0], cfg['mix'] / 4)
    elif cfg['kind'] == 'stereo':
        fx = StereoDelay(seconds(cfg['times'][0]), seconds(cfg['times'][1]), fbs[0], fbs[1], cfg['mix'] / 4)
    else:
        fx = None
    split = AudioSplitter(cfg['outs'])
    held = np.zeros((8, 256))
    if fx is not None:
        src.connect(fx.input)
    if cfg['outs']:
        for o in split.outputs:
            o.set_value(np.zeros(256))
    ssrc = Output(owner=None)
    ssrc.connect(split.input)

    for op in scn['ops']:
        def step():
            k = op['op']
            if k == 'update':
                arr = np.array([dense(s) for s in op['ins']]) * cfg['unit']
                if len(op['ins']) == 1 and op.get('flat', True):
                    arr = arr[0]
                if op.get('reuse') and arr.ndim == 2:
                    buf = held[:len(arr)]
                    buf[:] = arr
                    arr = buf
                elif op.get('reuse'):
                    held[7] = arr
                    arr = held[7]
                elif cfg['readonly']:
                    arr.setflags(write=False)
                before = arr.copy()
                src.set_value(arr)
                fx.update()
                unchanged = np.array_equal(arr, before) and src.value is arr
                out = np.asarray(fx.output.value)
                if cfg['kind'] == 'mono' and out.shape != (256,) or cfg['kind'] == 'stereo' and out.shape != (2, 256):
                    raise Bad('shape %r' % (out.shape,))
                out = np.atleast_2d(out) / cfg['unit']
                return {'op': k, 'ins': [sparse([int(v) * scale for v in dense(s).tolist()]) for s in op['ins']],
                        'out': [sparse(dlib.integers(c, 4 * scale)) for c in out], 'unchanged': unchanged}
            if k == 'mix':
                fx.drywet = op['mix'] / 4
                return dict(op)
            if k == 'feedback':
                fx.feedback = op['fb'][0] / op['fb'][1]
                return dict(op)
            if k == 'range':
                ok = True
                try:
                    if len(op['times']) == 1:
                        Delay(seconds(op['times'][0]))
                    else:
                        StereoDelay(*map(seconds, op['times']))
                except ValueError:
                    ok = False
                return {'op': k, 'ms': op['ms'], 'ok': ok}
            if k == 'split':
                arr = np.array([identity(i) for i in op['ids']])
                if len(op['ids']) == 1:
                    arr = arr[0]
                ssrc.set_value(arr)
                split.update()
                return {'op': k, 'ids': op['ids'], 'out': [which(o.value, 40) for o in split.outputs]}
            if k == 'combine':
                c = AudioCombiner(len(op['ids']))
                res = []
                for shift in (op['ids'], op['ids']):
                    for i, inp in zip(shift, c.inputs):
                        inp.set_value(identity(i))
                    c.update()
                    v = np.asarray(c.output.value)
                    if v.shape != (len(op['ids']), 256):
                        raise Bad('shape %r' % (v.shape,))
                    res = [which(r, 40) for r in v]
                return {'op': k, 'ids': op['ids'], 'out': res}
            raise ValueError(k)
        rec.step(step)
    out = {k: cfg[k] for k in ('L', 'mix', 'fb', 'kind', 'outs')}
    return {'cfg': out, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
