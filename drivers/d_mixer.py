"""Adds real blocks and mixers together and records the mixes."""
import numpy as np

import dlib
from dlib import Recorder, Bad, integer, rounded
from klang.audio.mixer import Mixer, StereoMixer
from klang.block import Block
from klang.connections import MessageOutput

N = 256
U = 1024


class Source(Block):
    """A block class of its own, as every real source is."""

    def __init__(self):
        super().__init__(nOutputs=2)
        self.output.set_value(np.zeros(N))


def signal(s):
    """Sides of (even, odd) values in 1/U -> array."""
    rows = []
    for even, odd in s:
        row = np.empty(N)
        row[0::2] = even / U
        row[1::2] = odd / U
        rows.append(row)
    return rows[0] if len(rows) == 1 else np.array(rows)


def observe(value):
    arr = np.asarray(value, dtype=float)
    if arr.ndim not in (1, 2) or arr.shape[-1] != N:
        raise Bad('output has shape %r' % (arr.shape,))
    ret = []
    for row in np.atleast_2d(arr):
        even, odd = row[0::2], row[1::2]
        if (abs(even - even[0]) > 1e-9).any() or (abs(odd - odd[0]) > 1e-9).any():
            raise Bad('samples of one kind differ')
        ret.append([rounded(even[0], U), rounded(odd[0], U)])
    return ret


def run(scn):
    cfg = scn['cfg']
    things = []
    for i in range(cfg['n']):
        b = Block(0, 1) if i % 3 == 2 else Source()
        b.output.set_value(np.zeros(N))
        things.append(b)
    mode = cfg.get('mode', 'linear')
    for k in cfg['kinds']:
        if k['stereo']:
            things.append(StereoMixer(nInputs=k['inputs'], mode=mode))
        else:
            things.append(Mixer(nInputs=k['inputs']))
    given = []      # (array handed to klang, copy)
    rec = Recorder()

    def hand(arr):
        given.append((arr, np.array(arr, copy=True)))
        return arr

    def chans():
        ret = []
        for m in things[cfg['n']:]:
            row = []
            for i in m.inputs:
                src = i.incomingConnection
                if src is None:
                    row.append(0)
                    continue
                if i not in src.outgoingConnections:
                    raise Bad('half a connection')
                hit = [j + 1 for j, x in enumerate(things) if x.output is src]
                if len(hit) != 1:
                    raise Bad('unknown source')
                row.append(hit[0])
            ret.append(row)
        return ret

    for k, op in enumerate(scn['ops']):
        def step():
            ev = dict(op)
            kind = op['op']
            if kind == 'sig':
                things[op['x'] - 1].output.set_value(hand(signal(op['s'])))
            elif kind == 'plus':
                form = op.get('form', (op['a'] + op['b'] + k) % 4)
                a, b = things[op['a'] - 1], things[op['b'] - 1]
                if form == 1 and not isinstance(b, Mixer):
                    b = b.output
                if form == 2 and not isinstance(a, Mixer) and isinstance(b, Block):
                    a = a.output
                if form == 3:
                    r = a
                    r += b
                else:
                    r = a + b
                hit = [j + 1 for j, x in enumerate(things) if x is r]
                if not hit:
                    if not isinstance(r, Mixer):
                        raise Bad('not a mixer')
                    things.append(r)
                    hit = [len(things)]
                ev['r'] = hit[0]
            elif kind == 'refused':
                bad = {'none': Block(), 'input': Block(1, 1).input, 'text': 'signal'}.get(op['what'])
                if bad is None:
                    bad = MessageOutput(owner=Block())
                m = things[op['x'] - 1]
                try:
                    if op['side'] == 0:
                        m + bad
                    elif op['side'] == 1:
                        bad + m
                    else:
                        m += bad
                except Exception:
                    pass
                else:
                    raise Bad('accepted %s' % op['what'])
            elif kind == 'connect':
                things[op['y'] - 1].output.connect(things[op['x'] - 1].inputs[op['k'] - 1])
            elif kind == 'own':
                things[op['x'] - 1].inputs[op['k'] - 1].set_value(hand(signal(op['s'])))
            elif kind == 'gain':
                things[op['x'] - 1].gains[op['k'] - 1] = op['g'] / 4
            elif kind == 'pan':
                things[op['x'] - 1].pannings[op['k'] - 1] = op['p'] / 2
            elif kind == 'new':
                things[op['x'] - 1].add_new_channel()
            elif kind == 'update':
                m = things[op['x'] - 1]
                m.update()
                out = m.output.value
                ev['out'] = observe(out)
                given.append((out, np.array(out, copy=True)))
            else:
                raise AssertionError(kind)
            ev['chans'] = chans()
            ev['intact'] = all(np.array_equal(a, b) for a, b in given)
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
