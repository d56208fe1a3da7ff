"""Wires real blocks, asks for execution orders and runs engine cycles."""
import os
import tempfile

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio.klanggeber import Dac
from klang.block import Block
from klang.connections import MessageInput, MessageOutput, Input, Output
from klang.execution import determine_execution_order, execute
from klang.graph import get_sinks, get_sources, graph_matrix, remove_back_edges, topological_sorting
from klang.klang import run_klang
from klang.progress_bar import ProgressBar

ProgressBar.stream = open(os.devnull, 'w')


class Loop(Exception):
    """Ends the main loop of an engine without audio."""


class Probe(Block):
    def __init__(self, index, log, nIn):
        super().__init__()
        self.index = index
        self.log = log
        self.inputs = [MessageInput(owner=self) if i % 3 == 2 else Input(owner=self) for i in range(nIn)]
        self.outputs = [Output(owner=self), Output(owner=self), MessageOutput(owner=self)]

    def update(self):
        self.log(self.index)


class ProbeDac(Dac):
    def __init__(self, index, log, nIn):
        super().__init__(nChannels=1)
        self.index = index
        self.log = log
        self.inputs += [MessageInput(owner=self) if i % 3 == 2 else Input(owner=self) for i in range(1, nIn)]
        self.outputs = [Output(owner=self), Output(owner=self), MessageOutput(owner=self)]

    def update(self):
        self.log(self.index)


def run(scn):
    cfg = scn['cfg']
    n = cfg['n']
    log = []
    limit = [None]

    def note(index):
        if limit[0] is not None and len(log) >= limit[0]:
            raise Loop()
        log.append(index)

    dac = cfg.get('dac', 0)
    nIn = cfg.get('inputs', 12)
    blocks = [(ProbeDac if i == dac else Probe)(i, note, nIn) for i in range(1, n + 1)]
    for b in blocks:
        for o in b.outputs:
            if isinstance(o, Output):
                o.set_value(np.zeros(256))
    if cfg.get('strays'):
        # ends which belong to no block are no part of the network
        for b in blocks:
            b.outputs[0].connect(Input())
            b.outputs[2].connect(MessageInput())
            extra = Input(owner=b)
            b.inputs.append(extra)
            Output(value=np.zeros(256)).connect(extra)
    rec = Recorder()

    def index(b):
        for i, x in enumerate(blocks):
            if x is b:
                return i + 1
        raise Bad('unknown block %r' % (b,))

    def pair(op):
        inp = blocks[op['b'] - 1].inputs[op['i'] % nIn]
        outs = blocks[op['a'] - 1].outputs
        out = outs[2] if isinstance(inp, MessageInput) else outs[op['o'] % 2]
        return out, inp

    for op in scn['ops']:
        def step():
            ev = dict(op)
            kind = op['op']
            if kind == 'connect':
                out, inp = pair(op)
                out.connect(inp)
            elif kind == 'disconnect':
                out, inp = pair(op)
                out.disconnect(inp)
            elif kind == 'order':
                order = determine_execution_order([blocks[i - 1] for i in op['starts']])
                ev['order'] = [index(b) for b in order]
            elif kind == 'execute':
                del log[:]
                limit[0] = None
                execute([blocks[i - 1] for i in op['order']])
                ev['log'] = list(log)
            elif kind == 'run':
                del log[:]
                starts = [blocks[i - 1] for i in op['starts']]
                if op['audio']:
                    limit[0] = None
                    run_klang(*starts, offline=True, duration=(op['cycles'] + .5) * 256 / 44100)
                else:
                    # no audio: an endless loop, ended after the expected number of updates
                    limit[0] = op['cycles'] * op['size']
                    try:
                        run_klang(*starts)
                    except Loop:
                        pass
                ev['log'] = list(log)
            elif kind == 'sort':
                edges = [(a - 1, b - 1) for a, b in op['edges']]
                graph = graph_matrix(edges, order=op['n']) if edges else np.zeros((op['n'], op['n']), dtype=int)
                keep = graph.copy()
                ev['order'] = [dlib.integer(v) + 1 for v in topological_sorting(graph)]
                dag = remove_back_edges(graph)
                ev['cut'] = [[int(a) + 1, int(b) + 1] for a, b in zip(*np.nonzero(keep - dag))]
                ev['sources'] = [int(v) + 1 for v in get_sources(graph)]
                ev['sinks'] = [int(v) + 1 for v in get_sinks(graph)]
                ev['unchanged'] = bool(np.array_equal(graph, keep))
            else:
                raise AssertionError(kind)
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
