"""The audio engine: offline bounces and live runs (with a sound card that only records)."""
import logging
import os
import shutil
import tempfile
import time
import wave

import numpy as np
import pyaudio

import dlib
from dlib import Recorder
import klang.audio.klanggeber as klanggeber
from klang.audio.helpers import INTERVAL
from klang.audio.klanggeber import Adc, Dac
from klang.block import Block
from klang.clock import ClockMixin
from klang.klang import run_klang
from klang.progress_bar import ProgressBar

B = 256
ProgressBar.stream = open(os.devnull, 'w')


class Logged(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.n = 0

    def emit(self, record):
        self.n += 1


LOG = Logged()
logging.getLogger().addHandler(LOG)
logging.getLogger().setLevel(logging.CRITICAL + 1)
logging.disable(logging.NOTSET)
logging.getLogger('KlangGeber').setLevel(logging.ERROR)
logging.lastResort = None


class Stop(Exception):
    pass


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    calls = []
    channels = cfg['channels']

    def values(k, cs):
        x = np.arange(k * B, (k + 1) * B)
        if cfg['silent']:
            return np.zeros((len(cs), B))
        return np.array([(((x * x) + 3 * x * (c + 1) + cfg['seed']) % 31 - 15) / 64 for c in cs])

    seen = []

    def called(block):
        if not calls:
            seen[:] = [ClockMixin.clock()]
        calls.append(block)
        if cfg['stray'] and len(calls) == len(blocks):
            # the clock is set in between, it only counts for this buffer
            ClockMixin.set_current_time(cfg['stray'])

    class Source(Block):
        def __init__(self, cs, flat):
            super().__init__(nOutputs=1)
            self.cs, self.flat, self.k = cs, flat, 0
            self.output.set_value(np.zeros(B) if flat else np.zeros((len(cs), B)))

        def update(self):
            called(self)
            v = values(self.k, self.cs)
            if self.k == cfg['mismatch']:
                v = v[:0]
            elif self.flat:
                v = v[0]
            self.output.set_value(v)
            self.k += 1

    class Through(Block):
        def __init__(self):
            super().__init__(nInputs=1, nOutputs=1)

        def update(self):
            called(self)
            self.output.set_value(self.input.value)

    blocks = []
    dac = Dac(channels)
    kind = cfg['source']
    if kind == 'adc':
        adc = Adc(channels)
        srcs = adc.outputs
    elif kind == 'multi':
        blocks.append(Source(list(range(channels)), False))
        srcs = [blocks[0].output]
    else:
        blocks += [Source([c], True) for c in range(channels)]
        srcs = [b.output for b in blocks]
    for src, dst in zip(srcs, dac.inputs):
        if cfg['through']:
            th = Through()
            src.connect(th.input)
            th.output.connect(dst)
            blocks.append(th)
        else:
            src.connect(dst)

    class Stream:
        def __init__(self, stream_callback, channels, frames_per_buffer, rate, **kw):
            assert channels == cfg['channels'] and frames_per_buffer == B and rate == 44100
            self.callback = stream_callback
            self.flag = 0
            self.k = 0

        def start_stream(self):
            pass

        def is_active(self):
            if self.flag != pyaudio.paContinue:
                return False
            if self.k == cfg['interrupt']:
                raise KeyboardInterrupt
            if self.k > 1000:
                raise Stop
            data = None
            if kind == 'adc':
                data = np.ascontiguousarray(values(self.k, list(range(channels))).T, dtype=np.float32).tobytes()
            out, self.flag = self.callback(data, B, {}, 0)
            out = np.asarray(out)
            unit = 64 * max(cfg['F'], 1)
            if out.shape != (B, channels) or out.dtype != np.float32:
                raise dlib.Bad('buffer of shape %r' % (out.shape,))
            rows = [[dlib.rounded(v, unit) for v in row] for row in out.T.tolist()]
            rec.ev[-1]['out'] = rows
            self.k += 1
            return True

        def stop_stream(self):
            pass

        def close(self):
            pass

    held = []

    class Card:
        def open(self, **kw):
            return Stream(**kw)

        def __init__(self):
            held.append(self)

        def terminate(self):
            if self in held:
                held.remove(self)

        def get_default_input_device_info(self):
            return {'maxInputChannels': 64}

        get_default_output_device_info = lambda self: {'maxOutputChannels': 64}

    # every buffer executes all blocks, in any order
    class Probe(Block):
        pass

    original = klanggeber.Dac.collect_samples

    def buffer_done():
        n = len(calls)
        counts = [sum(1 for c in calls if c is b) for b in blocks]
        clock = dlib.rounded((seen[0] if seen else ClockMixin.clock()) / INTERVAL, 1000)
        rec.ev.append({'op': 'buffer', 'clock': clock, 'calls': counts})
        calls.clear()
        seen.clear()

    class Watch(Dac):
        def collect_samples(self):
            buffer_done()
            return super().collect_samples()
    dac.__class__ = Watch

    tmp = tempfile.mkdtemp(prefix='vf-')
    path = os.path.join(tmp, 'out.wav')
    end = {'op': 'end', 'error': False, 'exists': False, 'frames': [], 'rate': 0, 'held': 0}
    LOG.n = 0
    logging.getLogger('KlangGeber').disabled = False
    # stand-ins for the sound card and for waiting, however they are imported
    undo = []
    for owner, name, fake in ((pyaudio, 'PyAudio', Card), (klanggeber, 'PyAudio', Card),
                              (time, 'sleep', lambda s: None), (klanggeber, 'sleep', lambda s: None)):
        if hasattr(owner, name):
            undo.append((owner, name, getattr(owner, name)))
            setattr(owner, name, fake)
    ClockMixin.set_current_time(123.)
    try:
        kw = {'duration': cfg['D'] / 44100}
        if cfg['F']:
            kw['fadeout'] = cfg['F'] / 44100
        if cfg['file']:
            kw['filepath'] = path
        if not cfg['live']:
            kw['offline'] = True
        try:
            run_klang(dac, **kw)
        except Stop:
            rec.ev.append({'op': 'BAD', 'why': 'the live run did not end'})
        except Exception as err:
            end['error'] = True
            end['why'] = dlib.text(repr(err))
        end['held'] = len(held)
        if LOG.n:
            end['error'] = True
        if os.path.exists(path):
            end['exists'] = True
            with wave.open(path, 'rb') as w:
                end['rate'] = w.getframerate()
                raw = np.frombuffer(w.readframes(-1), dtype='<i2').reshape((-1, w.getnchannels()))
                if w.getsampwidth() != 2:
                    end['rate'] = 0
            end['frames'] = raw.T.tolist()
    finally:
        for owner, name, original in undo:
            setattr(owner, name, original)
        shutil.rmtree(tmp)
    rec.ev.append(end)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
