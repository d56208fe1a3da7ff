"""Audio output and input blocks."""
import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.klanggeber import Adc, ChannelMismatch, Dac, validate_sound_card_channels
from klang.connections import Output, Relay

X = np.arange(256)


def samples(i):
    return ((i * 40503 + X * 7919 + (X * X) % 127) % 65521 - 32760) / 32768 if i else np.zeros(256)


def make(op):
    """The array of a signal."""
    if op['flat']:
        arr = samples(op['ids'][0])
    else:
        arr = np.array([samples(i) for i in op['ids']]).reshape((len(op['ids']), 256))
    how = op['how']
    if how == 'f32':
        return arr.astype(np.float32)
    if how == 'strided' and arr.ndim == 2:
        return np.ascontiguousarray(arr.T).T
    if how == 'list' and arr.ndim == 2 and len(arr):
        return [row for row in arr]
    if how == 'readonly':
        arr.setflags(write=False)
    return arr


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    if cfg['n'] == 1 and cfg['default']:
        dac = Dac()
    else:
        dac = Dac(cfg['n'])
    adc = Adc(cfg['outputs'])
    srcs = {}

    def heard():
        out = []
        for o in adc.outputs:
            v = np.asarray(o.value)
            if v.shape != (256,):
                raise Bad('output of shape %r' % (v.shape,))
            out.append(dlib.integers(v, 32768))
        if len(out) != cfg['outputs']:
            raise Bad('%d outputs' % len(out))
        return out

    for op in scn['ops']:
        def step():
            ev = {k: v for k, v in op.items() if k not in ('how', 'flat', 'relay', 'fade')}
            if op['op'] == 'set':
                i = op['i'] - 1
                if i not in srcs:
                    srcs[i] = Output(owner=None)
                    dst = dac.inputs[i]
                    if op['relay']:
                        relay = Relay(owner=None)
                        srcs[i].connect(relay)
                        relay.connect(dst)
                    else:
                        srcs[i].connect(dst)
                srcs[i].set_value(make(op))
            elif op['op'] == 'collect':
                before = {i: (s.value, np.array(s.value, copy=True)) for i, s in srcs.items()}
                ev['refused'] = False
                try:
                    out = dac.collect_samples()
                except ChannelMismatch:
                    ev['refused'] = True
                    return ev
                if out.ndim != 2 or out.shape != (256, cfg['n']):
                    raise Bad('shape %r' % (out.shape,))
                ev['packed'] = bool(out.flags['C_CONTIGUOUS']) and out.dtype == np.float32
                ev['out'] = [dlib.integers(c, 32768) for c in out.T]
                if op.get('fade') and out.flags['WRITEABLE']:
                    out *= .5       # as the last buffer is faded out
                ev['unchanged'] = all(s.value is before[i][0] and np.array_equal(np.asarray(s.value), before[i][1]) for i, s in srcs.items())
            elif op['op'] == 'inject':
                arr = np.array([samples(i) for i in op['ids']]).reshape((len(op['ids']), 256)).T
                adc.inject_samples(np.ascontiguousarray(arr, dtype=np.float32))
                ev['out'] = heard()
            elif op['op'] == 'mute':
                adc.mute_outputs()
                ev['out'] = heard()
            elif op['op'] == 'card':
                class Card:
                    def get_default_input_device_info(self):
                        return {'maxInputChannels': op['maxins']}

                    def get_default_output_device_info(self):
                        return {'maxOutputChannels': op['maxouts']}
                ev['ok'] = True
                try:
                    validate_sound_card_channels(Card(), Adc(op['ins']), Dac(op['outs']))
                except ValueError:
                    ev['ok'] = False
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
