"""Sequencers with micro rhythms."""
import collections
from fractions import Fraction

import dlib
from dlib import Recorder, Bad
from klang.audio.helpers import INTERVAL
from klang.block import Block
from klang.clock import ClockMixin
from klang.connections import MessageInput
from klang.messages import Note
from klang.music.rhythm import MicroRhyhtm
from klang.sequencer import Sequencer, random_pattern


def encode(n):
    if not isinstance(n, Note):
        raise Bad('not a note: %r' % (n,))
    return {'p': dlib.integer(n.pitch), 'v': dlib.integer(n.velocity, 128)}


def chord(c, rest):
    """Some chords have rests in between (voices which pause)."""
    ret = []
    for i, p in enumerate(c):
        if (p + i) % 3 == 0:
            ret.append(rest)
        ret.append(p)
    return ret + [rest] * (sum(c) % 2)


def pattern(cells, style, array=False):
    import numpy as np
    rest = None if style == 'none' else 0
    if style in ('chords', 'tuples'):
        kind = list if style == 'chords' else tuple
        return kind([kind(chord(c, (0, None)[len(c) % 2])) if c else kind([0]) for c in cells])
    row = [rest if not c else c[0] if len(c) == 1 else chord(c, 0) for c in cells]
    return np.array(row) if style == 'numpy' and array else row


def run(scn):
    import numpy as np
    cfg = scn['cfg']
    rec = Recorder()
    grid, beat = Fraction(*cfg['grid']), Fraction(*cfg['beat'])
    if cfg['mode'] == 'tempo':
        tempo = cfg['tempo'][0] / cfg['tempo'][1]
        if cfg['tempo'][1] == 1 and cfg.get('inttempo'):
            tempo = cfg['tempo'][0]
    else:
        # steps per update a/b -> tempo
        step = INTERVAL * cfg['b'] / cfg['a']
        tempo = 60 * float(grid / beat) / step
    kw = dict(tempo=tempo, beatValue=beat, grid=grid)
    if cfg['abs']:
        kw['absNoteLength'] = cfg['abs'] * INTERVAL / 2
    elif cfg['rel'] != [1, 2]:
        kw['relNoteLength'] = cfg['rel'][0] / cfg['rel'][1]
    for name, default in [('tempo', 120), ('beatValue', Fraction(1, 4)), ('grid', Fraction(1, 16))]:
        if kw[name] == default and cfg.get('defaults'):
            del kw[name]
    rows = [pattern(p, cfg['style']) for p in cfg['patterns']]
    if cfg['style'] == 'numpy' and len({len(r) for r in rows}) == 1:
        rows = np.array(rows)
    elif len(rows) == 1 and cfg['style'] == 'plain' and not isinstance(rows[0][0], (list, tuple)) and cfg.get('flat'):
        rows = rows[0]
    ClockMixin.set_current_time(0.)
    seq = Sequencer(rows, splitOutputs=cfg['split'], **kw)
    sink = Block()

    def listen():
        for o in seq.outputs[len(sink.inputs):]:
            i = MessageInput(owner=sink)
            i.queue = collections.deque()
            sink.inputs.append(i)
            o.connect(i)
    listen()
    mrs = {}
    k = 0
    changed = False
    for op in scn['ops']:
        for _ in range(op.get('n', 1)):
            def step():
                nonlocal k
                ev = {key: v for key, v in op.items() if key != 'n'}
                if op['op'] == 'update':
                    ClockMixin.set_current_time(k * INTERVAL)
                    k += 1
                    seq.update()
                    ev['outs'] = [[encode(m) for m in i.receive()] for i in sink.inputs]
                elif op['op'] == 'apply':
                    m = op['mr']
                    mr = MicroRhyhtm([Fraction(w, 16) for w in m['ws']], m['xn'] / m['xd'], Fraction(m['beat'][0], m['beat'][1]))
                    mrs[op['ch']] = mr, m['xd']
                    if op.get('late'):
                        mr.phrasing.set_value(m['xn'] / m['xd'])
                    seq.apply_micro_rhythm(mr, op['ch'] - 1)
                elif op['op'] == 'reset':
                    seq.reset_micro_rhythm(op['ch'] - 1)
                elif op['op'] == 'phrasing':
                    mr, xd = mrs[op['ch']]
                    mr.phrasing.set_value(op['xn'] / xd)
                elif op['op'] == 'channel':
                    own = dict(kw)
                    if 'scale' in op:       # a channel of its own speed and note length
                        x, y = op['scale']
                        if op['by'] == 'tempo':
                            own['tempo'] = tempo * x / y
                        elif op['by'] == 'beat':
                            own['beatValue'] = beat * x / y
                        else:
                            own['grid'] = grid * y / x
                        own.pop('absNoteLength', None)
                        own['relNoteLength'] = op['rel'][0] / op['rel'][1]
                        if op['abs']:
                            own['absNoteLength'] = op['abs'] * INTERVAL / 2
                    seq.add_new_channel(pattern(op['pattern'], cfg['style'], True), **own)
                    ev['channels'] = seq.nChannels
                    listen()
                elif op['op'] == 'random':
                    args = {} if op['period'] == op['length'] and op.get('default') else {'period': op['period']}
                    ev['values'] = [dlib.integer(v) for v in random_pattern(op['length'], minVal=op['min'], maxVal=op['max'], **args)]
                return ev
            rec.step(step)
            e = rec.ev[-1]
            if op['op'] == 'update' and e['op'] == 'update' and not any(e['outs']) and len(e['outs']) == len(seq.outputs) and not changed:
                rec.ev.pop()
                if rec.ev and rec.ev[-1]['op'] == 'quiet':
                    rec.ev[-1]['n'] += 1
                else:
                    rec.ev.append({'op': 'quiet', 'n': 1})
            changed = op['op'] != 'update'
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
