"""Keyboard blocks fed with the events of the operating system."""
import contextlib
import io

import dlib
from dlib import Recorder, Bad
from pynput.keyboard import Key, KeyCode
from klang.connections import MessageInput
from klang.keyboard import Keyboard, MusicalKeyboard
from klang.messages import Note
from klang.music import tunings

TEMPERAMENTS = list(tunings.TEMPERAMENTS.values())
SPECIAL = ['shift']  # without a display, all special keys are the same


def key_object(name):
    """Every event comes with its own object, special keys are singletons."""
    if name in SPECIAL:
        return getattr(Key, name)
    if name.startswith('vk'):
        return KeyCode.from_vk(int(name[2:]))
    return KeyCode.from_char(name)


def key_name(key):
    for name in SPECIAL:
        if key is getattr(Key, name):
            return name
    if key.char is None:
        return 'vk%d' % key.vk
    return key.char


def tempers(note):
    return [n for n, tm in enumerate(TEMPERAMENTS) if abs(tm.pitch_2_frequency(note.pitch) - note.frequency) < 1e-9]


def note_event(note):
    if not isinstance(note, Note):
        raise Bad('not a note: %r' % (note,))
    return {'pitch': dlib.integer(note.pitch), 'velocity': dlib.rounded(note.velocity, 1000), 'tempers': tempers(note)}


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    with contextlib.redirect_stdout(io.StringIO()):
        if cfg['musical']:
            kw = {'others': True} if cfg['others'] else {}
            if cfg['temper'] >= 0:
                kw['defaultTemperament'] = TEMPERAMENTS[cfg['temper']]
            kb = MusicalKeyboard(**kw)
        else:
            kb = Keyboard()
        boxes = []
        for out in kb.outputs:
            box = MessageInput(owner=None)
            out.connect(box)
            boxes.append(box)
        # which octave it starts with is heard
        octave = 0
        if cfg['musical']:
            kb.on_press(KeyCode.from_char('a'))
            kb.on_release(KeyCode.from_char('a'))
            got = list(boxes[0].receive())
            if len(got) != 2:
                raise Bad('%d messages from one key' % len(got))
            octave = dlib.integer(got[0].pitch / 12)
        for op in scn['ops']:
            def step():
                if op.get('pair'):  # read after press and release
                    kb.on_press(key_object(op['key']))
                    kb.on_release(key_object(op['key']))
                else:
                    (kb.on_press if op['down'] else kb.on_release)(key_object(op['key']))
                if op.get('update', True):
                    kb.update()
                got = [list(b.receive()) for b in boxes]
                notes = got[0] if cfg['musical'] else []
                keys = sum(got[1:], []) if cfg['musical'] else got[0]
                return {'op': 'pair' if op.get('pair') else 'key', 'key': op['key'], 'down': op['down'], 'notes': [note_event(n) for n in notes],
                        'keys': [{'key': key_name(k), 'pressed': bool(k.pressed)} for k in keys]}
            rec.step(step)
    out = dict(cfg, octave=octave)
    if cfg['temper'] < 0:
        out['temper'] = 0
    return {'cfg': out, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
