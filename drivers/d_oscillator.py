"""Oscillators observed through wave forms which show the phase."""
import copy
from fractions import Fraction

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.oscillators import Chirper, FmOscillator, Lfo, Oscillator, Phasor, PwmOscillator
from klang.audio.sync import Clock
from klang.audio.waves import sawtooth, square, triangle

TAU = 2 * np.pi
RATE = 44100
U = RATE * 48     # frequency unit: 1/48 Hz


def grid(x, scale):
    y = float(x) * scale
    if y != y or abs(y) > 2e9:
        raise Bad('not finite: %r' % (x,))
    i = int(round(y))
    if abs(i - y) > .02:
        raise Bad('not on the grid: %r' % (x,))
    return i


def plain_phase(phase):
    return np.array(phase, copy=True)


def hertz(f, n=None):
    """Frequency value from units per sample."""
    if len(f) == 1:
        return f[0] / 48
    return np.array(f) / 48


def frequency(op):
    return Fraction(*op['note']) if 'note' in op else hertz(op['f'])


def make(cfg):
    k = cfg['kind']
    phase = cfg['p'] / U * TAU
    f = frequency(cfg)
    kw = {'frequency': f}
    if cfg['p'] or cfg['explicit']:
        kw['startPhase'] = phase
    if k == 'phasor':
        return Phasor(**kw)
    wave = {'phase': plain_phase, 'square': square, 'triangle': triangle}.get(cfg['wave'])
    if cfg['form'] == 'sawtooth':
        wave = sawtooth
    if k == 'osc':
        return Oscillator(wave_func=wave, **kw)
    if k == 'fm':
        return FmOscillator(intensity=float(cfg['intensity']), modFrequency=hertz(cfg['mf']), wave_func=plain_phase, **kw)
    if k == 'pwm':
        return PwmOscillator(dutyCycle=cfg['duty'] / U, **kw)
    if k == 'lfo1':
        return Lfo(wave_func=sawtooth, outputRange=tuple(cfg['range']), **kw)
    if k == 'lfoN':
        return Lfo(wave_func=sawtooth, shape=256, outputRange=tuple(cfg['range']), **kw)
    if k == 'clock':
        return Clock(f, dutyCycle=cfg['duty'] / U, edge='rising' if cfg['wave'] == 'pulse' else 'falling')
    raise ValueError(k)


def observe(cfg, value):
    k = cfg['kind']
    arr = np.asarray(value)
    if k in ('phasor', 'lfo1'):
        if arr.size != 1:
            raise Bad('not a scalar: shape %r' % (arr.shape,))
        arr = arr.reshape((1,))
    elif arr.shape != (256,):
        raise Bad('shape %r' % (arr.shape,))
    vals = arr.tolist()
    inturn = True
    if cfg['wave'] == 'phase':
        if k in ('lfo1', 'lfoN'):
            a, b = cfg['range']
            out = [grid((v - a) / (b - a), U) for v in vals]
        elif cfg['form'] == 'sawtooth':
            out = [grid((v + 1) / 2, U) for v in vals]
        else:
            if k != 'fm':
                inturn = all(0 <= v <= TAU for v in vals)
            out = [grid(v / TAU, U) for v in vals]
    elif cfg['wave'] == 'triangle':
        out = [grid(v, U) for v in vals]
    elif k == 'clock':
        out = [2 * dlib.integer(v) - 1 for v in vals]
    else:
        out = [dlib.integer(v) for v in vals]
    return out, inturn


def current(cfg, o):
    return o.phasor.currentPhase if cfg['kind'] == 'clock' else o.currentPhase


def chirp(op):
    make = lambda: Chirper(op['f0'], op['duration'], op['f1'], method=op['method'], wave_func=plain_phase)
    c = make()

    def listen(n):
        out = []
        for _ in range(n):
            c.update()
            out.append(np.asarray(c.output.value))
        return np.concatenate(out)
    x = listen(op['buffers'])
    c.reset()
    y = listen(op['buffers'])
    hear = lambda p: np.diff(p) % TAU / TAU * RATE * 1000
    freqs = hear(x)
    # a long time after the end
    end = int(np.ceil(op['duration'] * RATE))
    late = hear(np.concatenate([y, listen(op['late'])])[end + 2:]) if op['late'] else []
    return {'late': [dlib.rounded(f) for f in (min(late), max(late))] if len(late) else [], 'op': 'chirp', 'f0': int(op['f0'] * 1000), 'f1': int(op['f1'] * 1000), 'samples': end, 'again': bool(np.allclose(x, y, rtol=0, atol=1e-9)),
            'freqs': [dlib.rounded(f) for f in freqs.tolist()]}


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    oscs = [make(cfg)]
    for op in scn['ops']:
        def step():
            k = op['op']
            if k == 'chirp':
                return chirp(op)
            i = op.get('i', 1) - 1
            if k == 'freq':
                oscs[i].frequency.set_value(frequency(op))
                return {'op': k, 'i': op['i'], 'f': op['f']}
            if k == 'mod':
                oscs[i].modulator.frequency.set_value(hertz(op['f']))
                return {'op': k, 'i': op['i'], 'f': op['f']}
            if k == 'duty':
                oscs[i].dutyCycle.set_value(op['duty'] / U)
                return dict(op)
            if k == 'clone':
                oscs.append(copy.deepcopy(oscs[i]))
                return {'op': k, 'i': op['i']}
            if k == 'update':
                if op['sample'] and cfg['kind'] not in ('fm', 'clock'):
                    value = oscs[i].sample()
                else:
                    oscs[i].update()
                    value = oscs[i].output.value
                out, inturn = observe(cfg, value)
                cur = current(cfg, oscs[i])
                return {'op': k, 'i': op['i'], 'out': out, 'cur': grid(cur / TAU, U), 'inturn': inturn and bool(0 <= cur <= TAU)}
            return {'op': 'peek', 'cur': [grid(current(cfg, o) / TAU, U) for o in oscs]}
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
