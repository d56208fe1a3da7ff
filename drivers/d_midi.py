"""MIDI output. The MIDI port is a stand-in which keeps the bytes it is given."""
import contextlib
import io
import sys
import types

PORTS = []


class Port:
    def __init__(self, *args, **kwargs):
        self.sent = []
        PORTS.append(self)

    def get_ports(self):
        return ['first', 'second']

    def open_port(self, *args):
        return self

    def open_virtual_port(self, *args):
        return self

    def close_port(self):
        pass

    def delete(self):
        pass

    def send_message(self, msg):
        self.sent.append([byte(b) for b in msg])


def byte(b):
    # the same check as in the MIDI library
    if isinstance(b, bool) or not isinstance(b, int) or not 0 <= b < 256:
        raise dlib.Bad('not a byte: %r' % (b,))
    return b


stub = types.ModuleType('rtmidi')
stub.MidiOut = Port
sys.modules['rtmidi'] = stub

import dlib
from dlib import Recorder, Bad
from klang.connections import MessageOutput
from klang.messages import Note
from klang.midi import MidiOut, note_to_midi_message


def note_of(d):
    return Note(d['pitch'], d['velocity']), {'pitch': d['pitch'], 'v': int(round(d['velocity'] * 127000)), 'on': d['velocity'] > 0}


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    with contextlib.redirect_stdout(io.StringIO()):
        blocks, ports, sources = [], [], []
        for c in cfg['channels']:
            n = len(PORTS)
            b = MidiOut(channel=c) if c or cfg['explicit'] else MidiOut()
            if len(PORTS) != n + 1:
                raise Bad('%d ports opened' % (len(PORTS) - n))
            blocks.append(b)
            ports.append(PORTS[-1])
            src = MessageOutput(owner=None)
            src.connect(b.input)
            sources.append(src)
        for op in scn['ops']:
            def step():
                if op['op'] == 'note':
                    note, d = note_of(op)
                    sources[op['b'] - 1].send(note)
                    return {'op': 'note', 'b': op['b'], 'note': d}
                if op['op'] == 'update':
                    i = op['b'] - 1
                    blocks[i].update()
                    sent = ports[i].sent
                    ports[i].sent = []
                    for j, p in enumerate(ports):
                        if p.sent:
                            raise Bad('messages on another port')
                    return {'op': 'update', 'b': op['b'], 'sent': sent}
                note, d = note_of(op)
                m = note_to_midi_message(note, op['channel']) if op['channel'] else note_to_midi_message(note)
                e = {'op': 'message', 'channel': op['channel'], 'note': d, 'sent': [byte(b) for b in m]}
                if isinstance(m, list):
                    m[0] = 0   # the message belongs to whoever asked for it
                return e
            rec.step(step)
        del blocks
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
