"""Audio samples."""
import numpy as np

import dlib
import frames
from dlib import Recorder
from klang.audio.sampling import Sample
from klang.config import SAMPLING_RATE


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    data = frames.data(cfg['len'], cfg['channels']) / 32768.
    if (cfg.get('flat') or cfg['len'] == 1) and cfg['channels'] == 1:
        data = data[:, 0]
    kw = {}
    if cfg['start'] or not cfg.get('defaults'):
        kw['start'] = cfg['start']
    if cfg['stop'] != cfg['len'] or not cfg.get('defaults'):
        kw['stop'] = cfg['stop']
    if cfg['loop'] or not cfg.get('defaults'):
        kw['loop'] = cfg['loop']
    p, q = cfg['p'], cfg['q']
    rate = SAMPLING_RATE
    if cfg.get('byrate'):
        rate = SAMPLING_RATE * p // q
    elif p != q:
        kw['playbackSpeed'] = p / q
    box = []

    def create():
        box.append(Sample(rate, data, mode=cfg['mode'], **kw))
        box[0].rewind()
    try:
        create()
    except Exception as err:
        return {'cfg': cfg, 'ev': [{'op': 'BAD', 'why': dlib.text(repr(err))}]}
    s = box[0]

    def rows(chunk):
        chunk = np.asarray(chunk)
        if chunk.shape[0] == 0:
            return [[] for _ in range(cfg['channels'])]
        return frames.channels_of(chunk.T if chunk.ndim == 2 else chunk, cfg['channels'])

    speed = [p, q]
    for op in scn['ops']:
        def step():
            ev = dict(op)
            if op['op'] == 'callback':
                ev['out'] = rows(s.callback(op['n']) if op['n'] != 256 else s.callback())
            elif op['op'] == 'read':
                ev['out'] = rows(s.read(op['n']) if op['n'] != 256 else s.read())
                ev.update(p=speed[0], q=speed[1], mode=cfg['mode'])
                if cfg['mode'] in ('linear', 'zero_order_hold'):
                    return ev
            elif op['op'] == 'restart':
                s.rewind()
                return ev
            elif op['op'] == 'rewind':
                s.rewind()
            elif op['op'] == 'speed':
                s.set_playback_speed(op['p'] / op['q'])
                speed[:] = [op['p'], op['q']]
                if cfg.get('byrate'):
                    speed[:] = [p * op['p'], q * op['q']]
            elif op['op'] == 'trim':
                ev['ok'] = True
                try:
                    if op['start'] == 0:
                        s.trim(**{} if op['stop'] == 99999 else {'stop': op['stop']})
                    elif op['stop'] == 99999:
                        s.trim(op['start'])
                    else:
                        s.trim(op['start'], op['stop'])
                except (AssertionError, ValueError):
                    ev['ok'] = False
            ev['pos'] = dlib.integer(s.currentIndex)
            ev['playing'] = bool(s.playing)
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
