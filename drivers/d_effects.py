"""Filters, ring modulators and tremolos."""
import math

import numpy as np
import scipy.signal

import dlib
from dlib import Recorder, Bad
from klang.audio.effects import Filter, RingModulator, Tremolo
from klang.connections import Output

RATE = 44100
TURN = RATE * 48


def design(bands, calls):
    def design_func(N, btype='lowpass', Wn=.5, **kw):
        f = Wn * (RATE // 2)
        calls.append((N, btype))
        for b in bands:
            if f <= b['to'] * 1.0001:
                break
        n = N + 1
        return b['c']['b'][:n], [1] + b['c']['a'][:N]
    return design_func


def smoothness(s):
    num, den = s['a']
    if num == 0:
        return 0.
    decay = 2 * math.pi / (RATE * math.log(den / num))
    duty = s['duty'] / TURN
    return decay / min(duty, 1 - duty)


class Bench:
    def __init__(self, cfg):
        self.kind = k = cfg['kind']
        s = cfg['set']
        if k == 'filter':
            self.calls = []
            self.fx = Filter(frequency=s['f'], design_func=design(cfg['bands'], self.calls), N=cfg['N'], btype=cfg['btype'])
            if set(self.calls) != {(cfg['N'], cfg['btype'])}:
                raise Bad('design called with %r' % set(self.calls))
        elif k == 'ring':
            v = self.values(s)
            self.fx = RingModulator(*v[:3], dryWet=v[3])
        else:
            v = self.values(s)
            self.fx = Tremolo(*v)
        self.knobs = [Output(value=0.) for _ in self.values(s)]
        self.src = Output()
        self.src.connect(self.fx.input)
        self.set(self.knobs, cfg['far'])

    def values(self, s):
        if self.kind == 'filter':
            return [s['f']]
        if self.kind == 'ring':
            j = RATE / 48
            return [s['f'] * j, s['r'] / 48, s['amount'] * j, s['mix'] / 4]
        return [s['r'] / 48, s['depth'] / 4, smoothness(s), s['duty'] / TURN]

    def inputs(self):
        if self.kind == 'filter':
            return [self.fx.frequency]
        if self.kind == 'ring':
            return [self.fx.frequency, self.fx.rate, self.fx.amount, self.fx.dryWet]
        return [self.fx.rate, self.fx.depth, self.fx.smoothness, self.fx.dutyCycle]

    def set(self, ends, s):
        for end, v in zip(ends, self.values(s)):
            end.set_value(v)

    def link(self, on):
        for knob, i in zip(self.knobs, self.inputs()):
            if on:
                knob.connect(i)
            else:
                knob.disconnect(i)


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    bench = Bench(cfg)
    for op in scn['ops']:
        def step():
            k = op['op']
            if k == 'set':
                bench.set(bench.inputs(), op['set'])
                return dict(op)
            if k == 'far':
                bench.set(bench.knobs, op['set'])
                return dict(op)
            if k in ('link', 'unlink'):
                bench.link(k == 'link')
                return dict(op)
            r = np.random.RandomState(op['seed'])
            x = r.randint(-op['max'], op['max'] + 1, size=(op['channels'], 256)).astype(float)
            if op['sparse']:
                x *= r.random_sample(x.shape) < .02
            if op.get('same'):
                x[:] = op['max']
            arr = x[0].copy() if op['flat'] else x.copy()
            if op['readonly']:
                arr.setflags(write=False)
            bench.src.set_value(arr)
            bench.fx.update()
            out = np.asarray(bench.fx.output.value)
            if out.shape != arr.shape:
                raise Bad('shape %r for %r' % (out.shape, arr.shape))
            unchanged = bool(np.array_equal(np.atleast_2d(arr), x) and bench.src.value is arr)
            out = np.atleast_2d(out)
            scale = {'filter': 1, 'ring': 4 * 10 ** 6, 'tremolo': 8 * 2 ** 20}[cfg['kind']]
            obs = [dlib.integers(c) if scale == 1 else [dlib.rounded(v, scale) for v in c.tolist()] for c in out]
            return {'op': 'update', 'x': [[int(v) for v in c] for c in x.tolist()], 'out': obs, 'unchanged': unchanged}
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
