"""Whole pieces: sequencer -> limiters -> synthesizers -> effects -> mixer -> sound card -> file."""
import os
import random
import shutil
import tempfile
import wave
from fractions import Fraction

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.effects import Delay, Gain
from klang.audio.envelopes import ADSR
from klang.audio.helpers import INTERVAL
from klang.audio.klanggeber import Dac
from klang.audio.mixer import Mixer
from klang.audio.synthesizer import MonophonicSynthesizer, PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.block import Block
from klang.connections import Input
from klang.klang import run_klang
from klang.music.rhythm import MicroRhyhtm
from klang.note_effects import MaxNotes, MessageMixer
from klang.progress_bar import ProgressBar
from klang.sequencer import Sequencer

B = 256
ProgressBar.stream = open(os.devnull, 'w')
WEIGHTS = {60: 1, 61: 3, 62: 7, 63: 12, 64: 20}


class Constant(Block):
    """A constant of its own for every pitch."""

    def __init__(self):
        super().__init__(nOutputs=1)
        self.frequency = Input(owner=self, value=440.)
        self.inputs = [self.frequency]
        self.output.set_value(np.zeros(B))

    def update(self):
        pitch = int(round(69 + 12 * np.log2(self.frequency.value / 440)))
        self.output.set_value(np.full(B, WEIGHTS.get(pitch, 50) / 32))


def wire(cfg):
    """The network; returns the blocks to start from. Connections are made in
    any order."""
    rng = random.Random(cfg['wiring'])
    connections, blocks = [], []

    def connect(a, b):
        connections.append((a, b))
    grid, beat = Fraction(*cfg['grid']), Fraction(*cfg['beat'])
    step = INTERVAL * cfg['b'] / cfg['a']
    kw = dict(tempo=60 * float(grid / beat) / step, beatValue=beat, grid=grid)
    if cfg['abs']:
        kw['absNoteLength'] = cfg['abs'] * INTERVAL / 2
    else:
        kw['relNoteLength'] = cfg['rel'][0] / cfg['rel'][1]
    rows = [[c if len(c) > 1 else c[0] if c else 0 for c in p] for p in cfg['patterns']]
    seq = Sequencer(rows, splitOutputs=cfg['split'], **kw)
    for i, m in enumerate(cfg['grooves']):
        if m['n']:
            seq.apply_micro_rhythm(MicroRhyhtm([Fraction(w, 16) for w in m['ws']], m['xn'] / m['xd'], Fraction(*m['beat'])), i)
    ends = []
    for conf in cfg['synths']:
        feeds = [seq.outputs[i - 1] for i in conf['hears']] if cfg['split'] else [seq.outputs[0]]
        if len(feeds) > 1 or conf['pipe']:
            mixer = MessageMixer(len(feeds))
            for feed, i in zip(feeds, mixer.inputs):
                connect(feed, i)
            feed = mixer.output
        else:
            feed = feeds[0]
        if conf['max']:
            limiter = MaxNotes(conf['max'])
            connect(feed, limiter.input)
            blocks.append(limiter)
            feed = limiter.output
        voice = Voice(Constant(), ADSR(0., 0., 1., 0.))
        synth = PolyphonicSynthesizer(voice) if conf['kind'] == 'poly' else MonophonicSynthesizer(voice, policy=conf['kind'])
        connect(feed, synth.input)
        blocks.append(synth)
        out = synth.output
        if conf is cfg['synths'][0]:
            tap = out
        if conf['echo']:
            delay = Delay((conf['echo'] * B + .5) / 44100, feedback=0., drywet=.5)
            connect(out, delay.input)
            blocks.append(delay)
            out = delay.output
        ends.append((out, conf['gain'] / 4))
    if cfg['mix']:
        dac = Dac(2 if cfg['tap'] else 1)
        mixer = Mixer(len(ends), gains=[g for _, g in ends])
        for (out, _), i in zip(ends, mixer.inputs):
            connect(out, i)
        connect(mixer.output, dac.inputs[0])
    else:
        dac = Dac(len(ends) + cfg['tap'])
        for (out, g), i in zip(ends, dac.inputs):
            gain = Gain(g)
            connect(out, gain.input)
            connect(gain.output, i)
    if cfg['tap']:
        connect(tap, dac.inputs[-1])
    rng.shuffle(connections)
    for a, b in connections:
        a.connect(b)
    if cfg['from'] == 'all':
        blocks += [seq, dac]
        rng.shuffle(blocks)
        return blocks[:rng.randint(1, len(blocks))]
    return [dac] if cfg['from'] == 'dac' else [seq]


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    folder = tempfile.mkdtemp(prefix='vf_piece_')
    path = os.path.join(folder, 'piece.wav')

    def step():
        run_klang(*wire(cfg), offline=True, duration=(cfg['n'] + .5) * INTERVAL, filepath=path)
        with wave.open(path, 'rb') as f:
            rate, n, c, width = f.getframerate(), f.getnframes(), f.getnchannels(), f.getsampwidth()
            data = np.frombuffer(f.readframes(-1), dtype=np.int16).reshape((n, c)).astype(int)
        if width != 2 or n % B:
            raise Bad('%d frames of %d bytes' % (n, width))
        buffers = data.reshape((n // B, B, c))
        steady = bool((abs(buffers[:, 32:] - buffers[:, -1:]) <= 1).all())
        return {'op': 'file', 'steady': steady, 'rate': rate, 'buffers': buffers[:, -1].tolist()}
    try:
        rec.ev = [{'op': 'cycle'} for _ in range(cfg['n'])]
        rec.step(step)
    finally:
        shutil.rmtree(folder)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
