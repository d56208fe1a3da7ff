"""Audio file transport."""
import io
import os
import tempfile
import wave

import numpy as np

import dlib
import frames
from dlib import Recorder, Bad
from klang.audio.sampling import AudioFile
from klang.config import SAMPLING_RATE


def file(data, rate, path=None):
    f = io.BytesIO() if path is None else path
    with wave.open(f, 'wb') as w:
        w.setnchannels(data.shape[1])
        w.setsampwidth(2)
        w.setframerate(rate)
        w.writeframes(data.astype('<i2').tobytes())
    if path is None:
        f.seek(0)
    return f


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    data = frames.data(cfg['len'], cfg['channels'])
    if cfg['mono'] and cfg['channels'] > 2:
        data = data - data % cfg['channels']   # whole mean values
    # p / q: how fast the file is played, by its sampling rate and playback speed
    speed = cfg.get('speed', 1)
    rate = int(SAMPLING_RATE * cfg['p'] / cfg['q'] / speed)
    kw = {}
    if speed != 1:
        kw['playbackSpeed'] = speed
    if cfg['start'] or cfg['stop'] != cfg['len']:
        kw.update(start=cfg['start'], stop=cfg['stop'])
    if cfg['loop']:
        kw['loop'] = True
    if cfg['mono']:
        kw['mono'] = True
    if cfg['mode'] != 'linear':
        kw['mode'] = cfg['mode']
    tmp = None
    if cfg.get('path'):
        fd, tmp = tempfile.mkstemp(suffix='.wav', prefix='vf-')
        os.close(fd)
    try:
        af = AudioFile(file(data, rate, tmp), **kw)
    except Exception as err:
        return {'cfg': cfg, 'ev': [{'op': 'BAD', 'why': dlib.text(repr(err))}]}
    finally:
        if tmp:
            os.unlink(tmp)
    if cfg['start']:
        af.rewind()
    outs = 1 if cfg['mono'] else cfg['channels']
    def info():
        shape = np.shape(af.output.value)   # read by other blocks before the first update
        if shape != ((outs, 256) if outs > 1 else (256,)):
            raise Bad('initial output of shape %r for %d channels' % (shape, outs))
        return {'op': 'info', 'duration': dlib.integer(round(af.duration * rate, 6))}
    rec.step(info)
    for op in scn['ops']:
        def step():
            ev = {'op': op}
            getattr(af, op)()
            if op == 'update':
                value = np.asarray(af.output.value)
                if value.shape != ((outs, 256) if outs > 1 else (256,)):
                    raise Bad('output of shape %r for %d channels' % (value.shape, outs))
                rows = frames.channels_of(value, outs)
                ev['silent'] = not any(any(r) for r in rows)
                if not ev['silent']:
                    ev['out'] = rows
            ev['playing'] = bool(af.playing)
            ev['pos'] = dlib.rounded(af.playingPosition * rate) if abs(af.playingPosition * rate - round(af.playingPosition * rate)) < 1e-6 else -1
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
