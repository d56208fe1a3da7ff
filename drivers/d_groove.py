"""Micro rhythm blocks: bent phases in units of 1e-8 turns."""
from fractions import Fraction as F

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.block import Block
from klang.connections import Output
from klang.constants import TAU
from klang.music.note_values import Tuplet
from klang.music.rhythm import MicroRhyhtm

U = 10 ** 8


def angle(p):
    v = TAU * p[0] / p[1] if p[3] == 0 else p[0] / p[1] * TAU
    for _ in range(abs(p[2])):
        v = float(np.nextafter(v, v + (1 if p[2] > 0 else -1)))
    return v


def turns(v, p=(1, 2, 0, 0)):
    if np.ndim(v) > 1:
        raise Bad('shape %r' % (np.shape(v),))
    out = dlib.rounded(np.asarray(v, dtype=float).reshape(-1)[0] / TAU if np.size(v) == 1 else float('nan'), U)
    if not -1 <= out <= U + 1:
        raise Bad('outside the cycle: %r' % (v,))
    # an end of the cycle may be seen from either side
    frac = F(p[0], p[1]) % 1
    if frac == 0 and (p[0] or p[2]) and out > U // 2:
        out -= U
    return out


def note(x):
    if isinstance(x[0], list):
        return Tuplet(len(x), [F(*y) for y in x])
    return F(*x)


def run(scn):
    c = scn['cfg']
    source, knob = Block(nOutputs=1), Output(value=0.)
    notes = [note(x) for x in c['notes']]
    if c.get('default'):
        m = MicroRhyhtm(notes)
    else:
        m = MicroRhyhtm(notes, phrasing=c['phrasing'][0] / c['phrasing'][1], beatValue=F(*c['beat']), kind=c.get('kind', 'linear'))
    source.output.connect(m.input)
    knob.set_value(0.)
    rec = Recorder()
    for op in scn['ops']:
        def step():
            o = op['op']
            ev = dict(op)
            if o == 'own':
                m.phrasing.set_value(op['x'][0] / op['x'][1])
            elif o == 'knob':
                knob.set_value(op['x'][0] / op['x'][1])
            elif o == 'connect':
                knob.connect(m.phrasing)
            elif o == 'disconnect':
                knob.disconnect(m.phrasing)
            elif o == 'update':
                source.output.set_value(angle(op['p']))
                m.update()
                ev['out'] = turns(m.output.value, op['p'])
                ev['p'] = op['p'][:2]
            elif o == 'warp':
                a = angle(op['p'])
                v = m.warp(a, op['n']) if op['n'] else m.warp(a)
                ev['out'] = turns(v, op['p'])
                ev['p'] = op['p'][:2]
            return ev
        rec.step(step)
    ws = [F(x) for x in (sum(F(*y) for y in n) * F(len(n) - 1, len(n)) if isinstance(n[0], list) else F(*n) for n in c['notes'])]
    den = 1
    for w in ws:
        den = den * w.denominator // np.gcd(den, w.denominator)
    ws = [int(w * int(den)) for w in ws]
    g = int(np.gcd.reduce(ws))
    phr, beat = (c['phrasing'], c['beat']) if not c.get('default') else ([1, 1], [1, 4])
    return {'cfg': {'ws': [w // g for w in ws], 'phrasing': phr, 'beat': beat}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
