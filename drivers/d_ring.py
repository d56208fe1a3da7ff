"""Write / read histories on a real ring buffer."""
import numpy as np

import dlib
from dlib import Recorder, Bad, integer
from klang.ring_buffer import RingBuffer


def run(scn):
    cfg = scn['cfg']
    ch = cfg.get('channels', 1)
    ring = RingBuffer(cfg['length'], capacity=cfg['capacity'] if cfg['capacity'] != cfg['length'] else None,
                      bufferSize=cfg['bufsize'], nChannels=ch)
    rec = Recorder()
    count = [0]

    def fresh(n):
        vs = list(range(count[0] + 1, count[0] + n + 1))
        count[0] += n
        return vs

    def encode(vs):
        if ch == 1:
            return np.array(vs, dtype=float) if count[0] % 2 else [float(v) for v in vs]
        return np.array([[v * (c + 1) for c in range(ch)] for v in vs], dtype=float).reshape((len(vs), ch))

    def decode(arr):
        arr = np.array(arr)
        if ch == 1:
            if arr.ndim != 1:
                raise Bad('shape %r' % (arr.shape,))
            return [integer(x) for x in arr]
        if arr.ndim != 2 or arr.shape[1] != ch:
            raise Bad('shape %r' % (arr.shape,))
        for c in range(ch):
            if (arr[:, c] != arr[:, 0] * (c + 1)).any():
                raise Bad('channels mixed up')
        return [integer(x) for x in arr[:, 0]]

    for op in scn['ops']:
        kind = op['op']

        def step():
            ev = dict(op)
            if kind == 'append':
                ev['vs'] = fresh(1)
                ring.append(encode(ev['vs'])[0])
            elif kind == 'extend':
                ev['vs'] = fresh(op['n'])
                data = encode(ev['vs'])
                keep = np.array(data)
                try:
                    ring.extend(data)
                    ev['ok'] = True
                except Exception:
                    ev['ok'] = False
                if not np.array_equal(keep, data):
                    raise Bad('argument changed')
            elif kind == 'peek_extend':
                ev['vs'] = fresh(op['n'])
                try:
                    ret = ring.peek_extend(encode(ev['vs']))
                    ev['ok'] = True
                except Exception:
                    ev['ok'] = False
                ev['vals'] = decode(ret) if ev['ok'] else []
                if op.get('again') and ev['ok']:
                    # the returned values stay as they are
                    more = fresh(1)
                    rec.ev.append(ev)
                    ring.append(encode(more)[0])
                    if decode(ret) != ev['vals']:
                        raise Bad('returned values changed')
                    return {'op': 'append', 'vs': more}
            elif kind == 'peek':
                # k = 0: default amount
                ev['vals'] = decode(ring.peek(op['k']) if op['k'] else ring.peek())
            elif kind == 'length':
                try:
                    ring.length = op['n']
                    ev['ok'] = True
                except Exception:
                    ev['ok'] = False
                ev['now'] = integer(ring.length)
            else:
                raise AssertionError(kind)
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
