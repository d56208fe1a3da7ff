"""Builds nested composites, orders, updates, unpatches and starts them."""
import logging
import os
import re

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.klanggeber import Dac
from klang.block import Block
from klang.composite import Composite, temporarily_unpatch
from klang.connections import (Input, MessageInput, MessageOutput, MessageRelay,
                               Output, Relay)
from klang.klang import run_klang
from klang.progress_bar import ProgressBar

ProgressBar.stream = open(os.devnull, 'w')
K = 6       # ends per side; every third one carries messages
records = []


class Handler(logging.Handler):
    def emit(self, record):
        if record.levelno >= logging.WARNING:
            records.append(record.getMessage())


logging.disable(logging.NOTSET)
root = logging.getLogger()
root.handlers[:] = [Handler()]
root.setLevel(logging.WARNING)


class Loop(Exception):
    pass


class World:
    def __init__(self):
        self.runs = []      # composite updates in starting order
        self.stack = []
        self.leaves = []
        self.limit = None

    def enter(self, index, composite):
        if self.stack:
            self.stack[-1]['kids'].append(index)
        if composite:
            run = {'who': index, 'kids': []}
            self.runs.append(run)
            self.stack.append(run)
        else:
            self.leaves.append(index)
        if self.limit is not None:
            self.limit -= 1
            if self.limit < 0:
                raise Loop()

    def clear(self):
        self.runs, self.stack, self.leaves = [], [], []


def make(index, world, kind, label):
    def ends(block, value, msg):
        return [msg(owner=block) if k % 3 == 0 else value(owner=block) for k in range(1, K + 1)]

    if kind == 'comp':
        class Probe(Composite):
            def update(self):
                world.enter(index, True)
                super().update()
                world.stack.pop()
        block = Probe(name='<%d>' % label)
        block.inputs = ends(block, Relay, MessageRelay)
        block.outputs = ends(block, Relay, MessageRelay)
        return block
    if kind == 'dac':
        class Probe(Dac):
            def update(self):
                world.enter(index, False)
        block = Probe(1)
        block.name = '<%d>' % label
    else:
        class Probe(Block):
            def update(self):
                world.enter(index, False)
        block = Probe(name='<%d>' % label)
    block.inputs = ends(block, Input, MessageInput)
    block.outputs = ends(block, Output, MessageOutput)
    for e in block.inputs + block.outputs:
        if isinstance(e, (Input, Output)):
            e.set_value(np.zeros(256))
    return block


def run(scn):
    # names of blocks are not unique
    cfg = dict({'label': list(range(1, scn['cfg']['n'] + 1))}, **scn['cfg'])
    n = cfg['n']
    world = World()
    blocks = [make(i, world, 'comp' if i in cfg['comp'] else 'dac' if i == cfg.get('dac') else 'leaf', cfg['label'][i - 1])
              for i in range(1, n + 1)]
    where = {}
    for i, b in enumerate(blocks, 1):
        for side, es in (('in', b.inputs), ('out', b.outputs)):
            for k, e in enumerate(es, 1):
                where[id(e)] = [i, side, k]

    def end(e):
        b = blocks[e[0] - 1]
        return (b.inputs if e[1] == 'in' else b.outputs)[e[2] - 1]

    def links():
        ret = []
        for b in blocks:
            for e in b.inputs + b.outputs:
                for d in getattr(e, 'outgoingConnections', ()):
                    if d.incomingConnection is not e:
                        raise Bad('half a connection')
                    ret.append([where[id(e)], where[id(d)]])
        for b in blocks:
            for e in b.inputs + b.outputs:
                s = getattr(e, 'incomingConnection', None)
                if s is not None and [where[id(s)], where[id(e)]] not in ret:
                    raise Bad('half a connection')
        return ret

    rec = Recorder()
    for op in scn['ops']:
        def step():
            ev = dict(op)
            kind = op['op']
            if kind == 'link':
                end(op['s']).connect(end(op['d']))
            elif kind == 'unlink':
                end(op['s']).disconnect(end(op['d']))
            elif kind == 'reorder':
                blocks[op['c'] - 1].update_internal_exec_order(*[blocks[i - 1] for i in op['starts']])
            elif kind == 'update':
                world.clear()
                blocks[op['c'] - 1].update()
                ev['runs'] = world.runs
            elif kind == 'unpatch':
                ev['raised'] = 0
                try:
                    with temporarily_unpatch(blocks[op['b'] - 1]):
                        ev['inside'] = links()
                        if op['boom']:
                            raise Loop()
                except Loop:
                    ev['raised'] = 1
            elif kind == 'start':
                world.clear()
                del records[:]
                starts = [blocks[i - 1] for i in op['starts']]
                if op['audio']:
                    run_klang(*starts, offline=True, duration=2.5 * 256 / 44100)
                    m = len(world.leaves)
                    if m % 2 or world.leaves[:m // 2] != world.leaves[m // 2:]:
                        raise Bad('two cycles differ')
                    ev['log'] = world.leaves[:m // 2]
                else:
                    # endless loop without audio, left after some updates
                    world.limit = 30
                    try:
                        run_klang(*starts)
                    except Loop:
                        pass
                    world.limit = None
                    ev['log'] = []
                ev['warned'] = sorted({int(x) for r in records for x in re.findall(r'<(\d+)>', r)} - {cfg['label'][c - 1] for c in cfg['comp']})
                ev['alarm'] = bool(records) if op['audio'] else bool(ev['warned'])
            else:
                raise AssertionError(kind)
            ev['links'] = links()
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
