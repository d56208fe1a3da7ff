"""Notes in and out of real blocks."""
import collections

import dlib
from dlib import Bad
from klang.block import Block
from klang.connections import MessageInput, MessageOutput
from klang.messages import Note


def note(n):
    return Note(n['p'], velocity=n['v'] / 128, frequency=float(n['f']))


def encode(n):
    if not isinstance(n, Note):
        raise Bad('not a note: %r' % (n,))
    v = dlib.integer(n.velocity, 128)
    if bool(n.on) != (v > 0) or bool(n.off) != (v == 0):
        raise Bad('on/off of %r' % (n,))
    return {'p': dlib.integer(n.pitch), 'v': v, 'f': dlib.integer(n.frequency)}


class Source(Block):
    def __init__(self, *inputs):
        super().__init__()
        self.outputs = [MessageOutput(owner=self)]
        self.kept = {}
        self.n = 0
        for i in inputs:
            self.output.connect(i)

    def send(self, ns):
        for n in ns:
            # Equal notes are sometimes the same object
            self.n += 1
            new = note(n)
            self.output.send(self.kept.setdefault(new, new) if self.n % 4 else new)


class Sink(Block):
    """Receives everything, in order."""

    def __init__(self, *outputs):
        super().__init__()
        self.inputs = []
        for o in outputs:
            i = MessageInput(owner=self)
            i.queue = collections.deque()
            self.inputs.append(i)
            o.connect(i)

    def take(self, k=0):
        return [encode(n) for n in self.inputs[k].receive()]
