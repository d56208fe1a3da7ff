"""Feeds chunks of samples through real filters, native and Python."""
import numpy as np

import dlib
from dlib import Recorder, Bad, integer
from klang.audio import filters as F

U = 1024
TYPES = {
    ('forward', 'py'): F.PyForwardCombFilter, ('backward', 'py'): F.PyBackwardCombFilter, ('echo', 'py'): F.PyEchoFilter,
    ('forward', 'c'): F.CForwardCombFilter, ('backward', 'c'): F.CBackwardCombFilter, ('echo', 'c'): F.CEchoFilter,
    ('forward', 'main'): F.ForwardCombFilter, ('backward', 'main'): F.BackwardCombFilter, ('echo', 'main'): F.EchoFilter,
}


def shaped(xs, form):
    """The same samples in different arrays."""
    v = np.array(xs, dtype=float) / U
    if form == 'list':
        return list(v)
    if form == 'f4':
        return v.astype(np.float32)
    if form == 'int' and (v == np.round(v)).all():
        return v.astype(int)
    if form == 'strided':
        a = np.full((len(v), 2), 77.)
        a[:, 0] = v
        return a.T[0]
    if form == 'reversed':
        return v[::-1].copy()[::-1]
    if form == 'readonly':
        v.setflags(write=False)
    return v


def run(scn):
    cfg = scn['cfg']
    fs = []
    for i, c in enumerate(cfg['filters']):
        cls = TYPES[c['kind'], c['impl']]
        alpha = c['num'] / c['den']
        fs.append(cls(c['k'], alpha) if i % 2 else cls(c['k'], alpha=alpha))
    rec = Recorder()
    returned = []

    for op in scn['ops']:
        def step():
            ev = dict(op)
            f = fs[op['f'] - 1]
            if op['op'] == 'alpha':
                f.alpha = op['num'] / op['den']
                return ev
            x = shaped(op['x'], op.get('form', ''))
            keep = np.array(x, copy=True)
            y = f.filter(x)
            if not np.array_equal(keep, np.asarray(x)):
                raise Bad('input changed')
            ev['y'] = dlib.integers(y, U)
            if isinstance(y, np.ndarray) and len(y):
                if np.shares_memory(y, np.asarray(x)):
                    raise Bad('output is the input array')
                returned.append((y, y.copy()))
            if any(not np.array_equal(a, b) for a, b in returned[-4:]):
                raise Bad('earlier output changed')
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
