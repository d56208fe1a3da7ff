"""Kick drum and hi hat."""
import math

import numpy as np

import dlib
from dlib import Recorder, Bad
from notes import Source
from klang.audio.envelopes import D
from klang.audio.synthesizer import HiHat, Kick, sample_exponential_decay, sample_pitch_decay
from klang.audio.waves import sample_wave

RATE = 44100


def buffer(x):
    y = np.asarray(x, dtype=float)
    if y.shape != (256,):
        raise Bad('shape %r' % (y.shape,))
    return y


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    np.random.seed(cfg['seed'])
    if cfg['kind'] == 'kick':
        if cfg['halves']:
            cfg = dict(cfg, half=128 // cfg['periods'])
            kw = dict(frequency=RATE / 256 * cfg['periods'], decay=math.pi * 256 / RATE / math.log(2), intensity=0, pitchDecay=.1)
        else:
            kw = cfg['args']
        drums = [Kick(**kw), Kick(**kw)]
        sources = [Source(d.input) for d in drums]
    elif cfg['kind'] == 'hat':
        drums = [HiHat(cfg['decay'], loopedNoise=cfg['looped']) if cfg['looped'] else HiHat(cfg['decay'])]
        ref = D(cfg['decay'])
        sources = [Source(drums[0].input, ref.input)]

    for op in scn['ops']:
        def step():
            k = op['op']
            if k == 'kick':
                d = op['d'] - 1
                sources[d].send(op['notes'])
                drums[d].update()
                return {'op': k, 'd': op['d'], 'notes': op['notes'], 'out': [dlib.rounded(v, 10 ** 8) for v in buffer(drums[d].output.value)]}
            if k == 'hat':
                sources[0].send(op['notes'])
                drums[0].update()
                ref.update()
                env, out = buffer(ref.output.value), buffer(drums[0].output.value)
                loud = env > 1e-3
                noise = np.zeros(256)
                noise[loud] = out[loud] / env[loud]
                return {'op': k, 'env': [int(math.ceil(v * 1000)) for v in env], 'noise': [dlib.rounded(v, 1000) for v in noise], 'silent': [bool(v == 0) for v in out]}
            if k == 'decay':
                decay = math.pi * op['half'] / RATE / math.log(2)
                t, u, env, pitch = 0., 0., [], []
                for _ in range(op['buffers']):
                    e, t2 = sample_exponential_decay(decay, t) if t else sample_exponential_decay(decay)
                    p, u = sample_pitch_decay(op['f'], decay, op['intensity'], t)
                    if abs(u - t2) > 1e-12:
                        raise Bad('time %r %r' % (u, t2))
                    t = t2
                    env += [dlib.rounded(v, 10 ** 8) for v in buffer(e)]
                    pitch += [dlib.rounded(v, 1000) for v in buffer(p)]
                # wherever one starts: so many half lives later, times as many doublings
                late = []
                for n in op['late']:
                    t0 = n * op['half'] / RATE
                    e, t2 = sample_exponential_decay(decay, t0)
                    _, u = sample_pitch_decay(op['f'], decay, op['intensity'], t0)
                    late.append({'env': [dlib.rounded(v * 2. ** n, 10 ** 8) for v in buffer(e)], 'passed': [dlib.rounded((x - t0) * RATE, 1000) for x in (t2, u)]})
                return {'op': k, 'late': late, 'half': op['half'], 'f': op['f'], 'intensity': op['intensity'], 'env': env, 'pitch': pitch}
            if k == 'wave':
                turn = 10 ** 8
                f = op['f'] if isinstance(op['f'], int) else np.array(op['f'])
                phases, nxt = sample_wave(f * 1., startPhase=op['start'], wave_func=lambda x: x)
                phases = buffer(phases)
                unit = turn / (2 * math.pi)
                last = op['f'] if isinstance(op['f'], int) else op['f'][-1]
                return {'op': k, 'turn': turn, 'first': dlib.rounded((phases[0] - op['start']) % (2 * math.pi), unit), 'last': dlib.rounded(phases[-1] % (2 * math.pi), unit), 'next': [dlib.rounded(v, unit) for v in np.atleast_1d(nxt).ravel()],
                        'step': dlib.rounded(last / RATE, turn)}
            raise ValueError(k)
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
