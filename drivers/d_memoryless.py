"""Effects without memory, and panning."""
import math

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.effects import Bitcrusher, Gain, OctaveDistortion, PitchShifter, Subsampler, TanhDistortion, Transformer
from klang.audio.panning import pan_signal, panning_amplitudes
from klang.connections import Output


def signal(op):
    if 'scalar' in op:
        return float(op['scalar'])
    x = np.random.RandomState(op['seed']).randint(-op['max'], op['max'] + 1, size=(op['channels'], 256)).astype(float)
    return x[0].copy() if op['channels'] == 1 and op['flat'] else x


def rows(x):
    return [[int(v) for v in c] for c in np.atleast_2d(np.atleast_1d(x)).tolist()]


def apply(fx, src, arr, readonly=False):
    """Update the effect; output as rows and whether the input stayed."""
    keep = np.array(arr, copy=True)
    if readonly and isinstance(arr, np.ndarray):
        arr.setflags(write=False)
    src.set_value(arr)
    fx.update()
    out = fx.output.value
    if np.shape(out) != np.shape(arr):
        raise Bad('shape %r for %r' % (np.shape(out), np.shape(arr)))
    return np.atleast_2d(np.atleast_1d(out)), bool(np.array_equal(keep, arr) and src.value is arr)


def exact(out, scale=1):
    return [dlib.integers(c, scale) for c in out]


def near(out, scale):
    return [[dlib.rounded(v, scale) for v in c] for c in out.tolist()]


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    src, knob = Output(), Output(value=0.)
    g = cfg['gain']
    value = lambda v: v[0] / 4 if len(v) == 1 else np.array(v) / 4
    gain = Gain(value(g))
    src.connect(gain.input)
    kept = {}

    def effect(key, make):
        """The effect with these settings, made once and kept."""
        if key not in kept:
            fx, s = make(), Output()
            s.connect(fx.input)
            kept[key] = fx, s
        return kept[key]

    for op in scn['ops']:
        def step():
            k = op['op']
            ro = op.get('readonly', False)
            if k in ('own', 'far'):
                (gain.gain if k == 'own' else knob).set_value(value(op['g']))
                return {'op': k, 'g': op['g']}
            if k == 'link':
                knob.connect(gain.gain)
                return {'op': k}
            if k == 'unlink':
                knob.disconnect(gain.gain)
                return {'op': k}
            if k == 'gain':
                x = signal(op)
                out, same = apply(gain, src, x, ro)
                return {'op': k, 'x': rows(x), 'out': exact(out, 4), 'unchanged': same}
            if k == 'hold':
                fx, s = effect((k, op['f']), lambda: Subsampler(op['f']))
                x = signal(op)
                out, same = apply(fx, s, x, ro)
                return {'op': k, 'f': op['f'], 'x': rows(x), 'out': exact(out), 'unchanged': same}
            if k == 'factor':
                ok = True
                try:
                    Subsampler(op['f'])
                except (AssertionError, ValueError):
                    ok = False
                return {'op': k, 'f': op['f'], 'ok': ok}
            if k == 'crush':
                fx, s = effect((k, op['n']), lambda: Bitcrusher(op['n']))
                x = signal(op)
                y = (x + .3 * np.sign(x)) / 32767
                out, same = apply(fx, s, y, ro)
                return {'op': k, 'n': op['n'], 'x': rows(x), 'out': exact(out, 32768), 'unchanged': same}
            if k == 'octave':
                fx, s = effect(k, OctaveDistortion)
                x = signal(op)
                out, same = apply(fx, s, x / op['u'], ro)
                return {'op': k, 'u': op['u'], 'x': rows(x), 'out': exact(out, op['u'] ** 2), 'unchanged': same}
            if k == 'tanh':
                fx, s = effect((k, op['drive']), lambda: TanhDistortion(op['drive']) if op['drive'] != 1 else TanhDistortion())
                q = signal(op)
                q[q == 0] = 1
                y = np.sign(q) * np.log(np.abs(q)) / 2 / op['drive']
                out, same = apply(fx, s, y, ro)
                return {'op': k, 'q': rows(q), 'out': near(out, 10 ** 6), 'unchanged': same}
            if k == 'line':
                p = op['p']
                how = op['how']
                u = 1
                if how == 'limits':
                    make = lambda: Transformer.from_limits(p['y0'], p['y1'])
                elif how == 'limits2':
                    make = lambda: Transformer.from_limits_2(p['y0'], p['y1'])
                elif how == 'ranges':
                    make = lambda: Transformer.from_ranges((p['x0'], p['x1']), (p['y0'], p['y1']))
                else:
                    make = lambda: Transformer(p['y1'] - p['y0'], p['y0'])
                fx, s = effect((k, how, tuple(sorted(p.items()))), make)
                x = signal(op)
                out, same = apply(fx, s, x, ro)
                return {'op': k, 'p': p, 'x': rows(x), 'out': near(out, 10 ** 4), 'unchanged': same}
            if k == 'dry':
                fx, s = effect(k, lambda: PitchShifter(op['shift'], dryWet=0.))
                x = signal(op)
                out, same = apply(fx, s, x, ro)
                return {'op': 'hold', 'f': 1, 'x': rows(x), 'out': exact(out), 'unchanged': same}
            if k == 'pan':
                x = signal(op)
                keep = x.copy()
                out = np.asarray(pan_signal(x, op['v'] / 4, mode='linear'))
                if out.shape != (2, 256):
                    raise Bad('shape %r' % (out.shape,))
                return {'op': k, 'v': op['v'], 'x': rows(x), 'out': exact(out, 8), 'unchanged': bool(np.array_equal(keep, x))}
            if k == 'amps':
                a = np.asarray(panning_amplitudes(op['v'] / 4, op['mode']) if op['mode'] != 'constant_power' or op['explicit'] else panning_amplitudes(op['v'] / 4))
                if a.shape != (2, 1):
                    raise Bad('shape %r' % (a.shape,))
                return {'op': k, 'v': op['v'], 'mode': op['mode'], 'l': dlib.rounded(a[0, 0], 20000), 'r': dlib.rounded(a[1, 0], 20000)}
            if k == 'fine':
                table = []
                for v in op['v']:
                    if op['via']:
                        x = pan_signal(np.ones((2, 3) if op['via'] == 2 else 3), v / 64, op['mode'])
                        if x.shape != (2, 3) or (x != x[:, :1]).any():
                            raise Bad('shape')
                        table.append(x[:, 0])
                    else:
                        table.append(np.ravel(panning_amplitudes(v / 64, op['mode'])))
                return dict(op, l=[dlib.rounded(a[0], 20000) for a in table], r=[dlib.rounded(a[1], 20000) for a in table])
            if k == 'law':
                law = None if op['k'] < 0 else -10 * math.log10(2) * op['k']
                if op['k'] == 0:
                    law = 0
                def amplitudes(i):
                    if op['via']:
                        x = pan_signal(np.ones((2, 3) if op['via'] == 2 else 3), i / 4, op['mode'], law)
                        if x.shape != (2, 3) or (x != x[:, :1]).any():
                            raise Bad('shape')
                        return x[:, 0]
                    return np.asarray(panning_amplitudes(i / 4, op['mode'], panLaw=law)).ravel()
                table = [amplitudes(i) for i in range(-6, 7)]
                c = [dlib.rounded(panning_amplitudes(i / 4)[0, 0], 10000) for i in range(-6, 7)]
                # whoever gets shared amplitudes can not change those of others
                try:
                    panning_amplitudes(0., op['mode'])[0] *= 2
                    written = bool(abs(panning_amplitudes(0., op['mode'])[0, 0] - panning_amplitudes(0., op['mode'])[1, 0]) > 1e-9)
                except ValueError:
                    written = False
                return dict(op, c=c, l=[dlib.rounded(a[0], 10000) for a in table], r=[dlib.rounded(a[1], 10000) for a in table], written=written)
            if k == 'refused':
                ok = False
                try:
                    pan_signal(np.zeros(256), 0., *op['args'])
                except ValueError:
                    ok = True
                return {'op': k, 'ok': ok}
            raise ValueError(k)
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
