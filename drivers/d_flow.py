"""Whole patches at work: values, messages, composites, the main loop."""
import time

import dlib
from dlib import Recorder, Bad
from klang.audio.helpers import INTERVAL
from klang.block import Block
from klang.clock import ClockMixin
from klang.composite import Composite
from klang.connections import Input, MessageInput, MessageOutput, MessageRelay, Output, Relay
from klang.execution import determine_execution_order, execute
import klang.klang
from klang.klang import run_klang

M = 9973


class Loop(Exception):
    """Ends the main loop."""


class World:
    def __init__(self):
        self.log = []
        self.got = {}
        self.clocks = []
        self.updated = lambda: None


class Adder(Block, ClockMixin):
    """out = own + in0 + 2 in1 + index; messages are remembered and passed on."""

    def __init__(self, index, world, offset=None):
        super().__init__()
        self.index, self.world = index, world
        self.offset = index if offset is None else offset
        self.own = 0
        self.inputs = [Input(owner=self, value=0), Input(owner=self, value=0), MessageInput(owner=self)]
        self.outputs = [Output(owner=self, value=0), Output(owner=self, value=0), MessageOutput(owner=self)]

    def update(self):
        w = self.world
        messages = list(self.inputs[2].receive())
        w.got.setdefault(self.index, []).extend(messages)
        for m in messages:
            self.own = m[0]
            if m[1] > 0:
                self.outputs[2].send((m[0], m[1] - 1))
        total = self.own + self.inputs[0].value + 2 * self.inputs[1].value + self.offset
        self.outputs[0].set_value(total % M)
        w.clocks.append(self.clock())
        w.updated()


class Second(Block):
    """The rest of a sum."""

    def __init__(self):
        super().__init__(nInputs=2, nOutputs=1)

    def update(self):
        self.output.set_value((self.inputs[0].value + 2 * self.inputs[1].value) % M)


class Plus(Block):
    """Adds a constant."""

    def __init__(self, v, value):
        super().__init__(nInputs=1, nOutputs=1)
        self.v = v
        self.output.set_value(value)

    def update(self):
        self.output.set_value((self.input.value + self.v) % M)


class Package(Composite):
    """A composite which does the same as an adder; inner is another package
    or an adder, or the work is shared by two blocks."""

    def __init__(self, inner, shared):
        super().__init__()
        wrap(self, inner, shared)


def wrap(self, inner, shared):
    self.inputs = [Relay(owner=self), Relay(owner=self), MessageRelay(owner=self)]
    self.outputs = [Relay(owner=self), Relay(owner=self), MessageRelay(owner=self)]
    self.inner = inner
    self.head = inner.outputs[0]
    self.inputs[0].connect(inner.inputs[0])
    self.inputs[2].connect(inner.inputs[2])
    inner.outputs[2].connect(self.outputs[2])
    if shared:
        second = Second()
        inner.outputs[0].connect(second.inputs[0])
        self.inputs[1].connect(second.inputs[1])
        second.output.connect(self.outputs[0])
    else:
        self.inputs[1].connect(inner.inputs[1])
        inner.outputs[0].connect(self.outputs[0])
    self.tail = second.inputs[0] if shared else self.outputs[0]
    self.update_internal_exec_order()


def rebuild(package, v):
    """Another constant is added between the inner block and the rest."""
    plus = Plus(v, package.tail.value)
    package.head.connect(plus.input)
    package.tail.incomingConnection.disconnect(package.tail)
    plus.output.connect(package.tail)
    package.update_internal_exec_order()


def build(index, kind, world, plain):
    """The block, the packages around it and the one outside."""
    adder = block = Adder(index, world)
    levels = []
    for k in kind:
        if plain:
            inner, block = block, Composite()
            wrap(block, inner, k == 's')
        else:
            block = Package(block, k == 's')
        levels.append(block)
    return adder, levels, block


class Logged:
    """Notes the order in which the blocks of the patch are updated."""

    def __init__(self, world, index, update):
        self.world, self.index, self.inside = world, index, update

    def __call__(self):
        self.world.log.append(self.index)
        self.inside()


def run(scn):
    cfg = scn['cfg']
    world = World()
    built = [build(i + 1, k, world, cfg.get('plain')) for i, k in enumerate(cfg['kinds'])]
    blocks = [b[-1] for b in built]
    for i, b in enumerate(blocks):
        b.update = Logged(world, i + 1, b.update)
    rec = Recorder()
    state = {'order': []}

    def index(b):
        for i, x in enumerate(blocks):
            if x is b:
                return i + 1
        raise Bad('unknown block %r' % (b,))

    def cycle_event(clock):
        ev = {'op': 'cycle', 'outs': [dlib.integer(b.outputs[0].value) for b in blocks],
              'got': [[list(m) for m in world.got.get(i + 1, [])] for i in range(len(blocks))], 'clock': clock}
        world.got = {}
        return ev

    def message(op):
        (blocks[op['b'] - 1].outputs[2].send if op['op'] == 'send' else blocks[op['b'] - 1].inputs[2].push)(tuple(op['m']))

    for op in scn['ops']:
        k = op['op']
        if k == 'run':
            unit = INTERVAL / 8
            at = [op['now']]
            runs = []
            times = op['times']
            originals = time.sleep, time.perf_counter, time.time, time.monotonic

            def now():
                if at[0] % 8 == 0:      # rounding on the very boundary
                    at[0] += 1
                return at[0] * unit

            def sleep(d):
                done = len(runs)
                if done:
                    finish()
                if done == op['cycles']:
                    raise Loop()
                slept = d / unit
                if abs(slept - round(slept)) > 1e-6:
                    raise Bad('slept %r' % slept)
                for m in op['between'][done]:
                    message(m)
                    pending.append(dict(m))
                pending.append({'op': 'tick', 'now': at[0], 'slept': int(round(slept))})
                at[0] += int(round(slept)) + op['late'][done]
                runs.append(None)
                del world.log[:], world.clocks[:]
                step[0] = 0

            pending = []
            step = [0]
            orders = []

            def updated():
                at[0] += times[step[0] % len(times)]
                step[0] += 1

            def finish():
                clocks = set(world.clocks)
                if len(clocks) != 1:
                    raise Bad('%d times within a cycle' % len(clocks))
                c = clocks.pop() / unit
                if abs(c - round(c)) > 1e-6:
                    raise Bad('time %r' % c)
                orders.append(list(world.log))
                pending.append(cycle_event(int(round(c))))

            def whole():
                """The run of the main loop, as one step."""
                world.updated = updated
                time.sleep = sleep
                time.perf_counter = time.time = time.monotonic = now
                saved = {}
                for name, f in (('sleep', sleep), ('perf_counter', now), ('monotonic', now)):
                    if hasattr(klang.klang, name):
                        saved[name] = getattr(klang.klang, name)
                        setattr(klang.klang, name, f)
                try:
                    run_klang(*[blocks[i - 1] for i in op['starts']])
                except Loop:
                    pass
                finally:
                    time.sleep, time.perf_counter, time.time, time.monotonic = originals
                    for name, f in saved.items():
                        setattr(klang.klang, name, f)
                    world.updated = lambda: None
                if len(orders) != op['cycles']:
                    raise Bad('main loop ended')
                if any(o != orders[0] for o in orders):
                    raise Bad('the order changes')
                state['order'] = [blocks[i - 1] for i in orders[0]]
                return {'op': 'order', 'starts': op['starts'], 'order': orders[0]}
            rec.step(whole)
            if not rec.dead:
                for ev in pending:
                    rec.step(lambda: ev)
            continue

        def step1():
            ev = dict(op)
            if k in ('connect', 'disconnect'):
                a, b = blocks[op['a'] - 1], blocks[op['b'] - 1]
                o, i = a.outputs[op['o']], b.inputs[op['i']]
                getattr(o if op.get('end', 'out') == 'out' else i, k)(i if op.get('end', 'out') == 'out' else o)
            elif k == 'own':
                built[op['b'] - 1][0].own = op['v']
            elif k == 'rebuild':
                rebuild(built[op['b'] - 1][1][op['level'] - 1], op['v'])
            elif k == 'inown':
                blocks[op['b'] - 1].inputs[op['i']].set_value(op['v'])
            elif k in ('send', 'push'):
                message(op)
            elif k == 'order':
                order = determine_execution_order([blocks[i - 1] for i in op['starts']])
                ev['order'] = [index(b) for b in order]
                state['order'] = order
            elif k == 'cycle':
                execute(state['order'])
                return cycle_event(-1)
            else:
                raise AssertionError(k)
            return ev
        rec.step(step1)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
