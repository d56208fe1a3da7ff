"""Monophonic and polyphonic synthesizers with voices that play a constant
signal, so that the output is the velocity."""
import numpy as np

import dlib
from dlib import Recorder, Bad
from notes import Source, note, encode
from klang.audio.envelopes import AR
from klang.audio.oscillators import Oscillator
from klang.audio.synthesizer import MonophonicSynthesizer, NoteScheduler, PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.config import BUFFER_SIZE


class Spy(AR):
    """Envelope which remembers what it was told."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.gates = []
        self.held = False

    def gate(self, on):
        self.gates.append(bool(on))
        self.held = bool(on)
        super().gate(on)


def ones(phase):
    return np.ones_like(phase)


def voice(slow, retrigger):
    return Voice(Oscillator(wave_func=ones), Spy(0., .02 if slow else 0., retrigger=retrigger))


def constant(samples, scale):
    """Level of a buffer that should be constant."""
    y = np.asarray(samples, dtype=float)
    if y.shape != (BUFFER_SIZE,):
        raise Bad('shape %r' % (y.shape,))
    if np.abs(y - y[0]).max() > 1e-9:
        raise Bad('level changes within the buffer')
    v = y[0] * scale
    if abs(v - round(v)) > 1e-6:
        raise Bad('level %r' % v)
    return int(round(v))


class Poly3(PolyphonicSynthesizer):
    MAX_VOICES = 3


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    if cfg['kind'] == 'scheduler':
        sched = NoteScheduler(cfg['policy']) if cfg['policy'] != 'newest' else NoteScheduler()
    else:
        template = voice(cfg.get('slow'), cfg.get('retrigger', False))
        if cfg['kind'] == 'mono':
            synth = MonophonicSynthesizer(template, cfg['policy'])
        else:
            if cfg.get('used'):
                template.envelope.gate(True)
                template.oscillator.frequency.set_value(3.)
                template.update()
            synth = {3: Poly3, 24: PolyphonicSynthesizer}[cfg['voices']](template)
            if len(synth.voices) != cfg['voices']:
                raise Bad('%d voices' % len(synth.voices))
            parts = [v for v in synth.voices] + [v.envelope for v in synth.voices] + [v.oscillator for v in synth.voices]
            if len(set(map(id, parts))) != len(parts):
                raise Bad('voices share their parts')
        source = Source(synth.input)

    def sounding():
        out = []
        for v in synth.voices:
            if v.envelope.held:
                out.append({'v': constant(v.output.value, 128), 'f': dlib.integer(v.oscillator.frequency.value)})
        return out

    for op in scn['ops']:
        def step():
            ev = dict(op)
            if op['op'] == 'key':
                ev['plays'] = encode(sched.get_next_note(note(op['note'])))
                return ev
            if op['op'] == 'play':
                synth.play_note(*[note(n) for n in op['ins']])
                return ev
            if op['op'] == 'settle':
                for _ in range(op['n']):
                    synth.update()
                ev['level'] = constant(synth.output.value, 128 * cfg['voices'])
                ev['active'] = sum(bool(v.active) for v in synth.voices)
                return ev
            if cfg['kind'] == 'mono':
                env = synth.voice.envelope
                del env.gates[:]
            source.send(op['ins'])
            synth.update()
            if cfg['kind'] == 'mono':
                ev.update(gates=list(env.gates), on=env.held, active=bool(synth.voice.active),
                          freq=dlib.integer(synth.voice.oscillator.frequency.value),
                          level=constant(synth.voice.output.value, 128) if env.held else 0,
                          out=constant(synth.output.value, 128))
            else:
                ev['sounding'] = sounding()
                if not cfg['slow']:
                    ev['level'] = constant(synth.output.value, 128 * cfg['voices'])
                ev['active'] = sum(bool(v.active) for v in synth.voices)
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
