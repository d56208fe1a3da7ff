"""Replays call sequences on real connectables and records what they do."""
import numpy as np

import dlib
from dlib import Recorder, Bad
from klang import connections as C
from klang.block import Block, pipe_operator
from klang.messages import Note
from klang.note_effects import MessageMixer

CLASSES = {
    ('base', 'out'): C.OutputBase, ('base', 'in'): C.InputBase, ('base', 'relay'): C.RelayBase,
    ('value', 'out'): C.Output, ('value', 'in'): C.Input, ('value', 'relay'): C.Relay,
    ('msg', 'out'): C.MessageOutput, ('msg', 'in'): C.MessageInput, ('msg', 'relay'): C.MessageRelay,
}

# values are distinct objects, recognised by identity
VALUES = [0.25, 'one', [2.0], np.arange(3.), 4, None, (6,), -7.5]


def which(obj):
    for i, v in enumerate(VALUES):
        if obj is v:
            return i
    raise Bad('unknown value %r' % (obj,))


# messages are distinct objects: of any type, also falsy ones, and recognised by identity
MESSAGES = {}


def message(m, none=False):
    if m not in MESSAGES:
        MESSAGES[m] = [Note(m % 128), (m,), {'m': m}, 0.0 if m == 3 else str(m), [], m][m % 6]
        if none and m == 2:
            MESSAGES[m] = None
    return MESSAGES[m]


def number(obj):
    for m, x in MESSAGES.items():
        if x is obj:
            return m
    raise Bad('unknown message %r' % (obj,))


def is_first(group, ep):
    return not group or group[0] is ep


def run(scn):
    MESSAGES.clear()
    cfg = scn['cfg']
    ends = cfg['ends']
    observe = cfg.get('observe', 'graph')
    eps, blocks = [], []
    numbers = cfg.get('blocks') or list(range(len(ends)))
    byNumber = {}
    for e, nr in zip(ends, numbers):
        block = byNumber.setdefault(nr, Block())
        cls = CLASSES[e['fam'], e['role']]
        kw = {'value': VALUES[0]} if e['fam'] == 'value' else {}
        if kw and e['role'] == 'relay':
            ep = cls(owner=block)
            ep.set_value(VALUES[0])
        else:
            ep = cls(owner=block, **kw)
        if e['role'] in ('in', 'relay'):
            block.inputs.append(ep)
        if e['role'] in ('out', 'relay'):
            block.outputs.append(ep)
        eps.append(ep)
        blocks.append(block)
    n = len(eps)
    mixers = {}
    rec = Recorder()

    def index(ep):
        for i, x in enumerate(eps):
            if x is ep:
                return i + 1
        raise Bad('unknown endpoint %r' % (ep,))

    def graph(ev):
        ev['src'] = [0 if e['role'] == 'out' or x.incomingConnection is None else index(x.incomingConnection)
                     for e, x in zip(ends, eps)]
        ev['outs'] = [[] if e['role'] == 'in' else sorted(index(d) for d in x.outgoingConnections)
                      for e, x in zip(ends, eps)]
        ev['isc'] = [[i + 1, j + 1] for i in range(n) for j in range(n)
                     if C.is_connected(eps[i], eps[j]) and C.are_connected(eps[i], eps[j])]
        ev['con'] = [bool(x.connected) for x in eps]

    def obs(ev, k):
        if observe == 'graph':
            graph(ev)
        elif observe == 'values':
            ev['vals'] = [which(x.value if (i + k) % 2 else x.get_value()) for i, x in enumerate(eps)]
        return ev

    def attempt(func, refused):
        try:
            return 'ok', func()
        except C.InputAlreadyConnected:
            return refused or 'taken', None
        except C.IncompatibleConnection:
            return refused or 'incompatible', None
        except (dlib.Bad, dlib.Hang):
            raise
        except Exception:
            return refused or 'refused', None

    for k, op in enumerate(scn['ops']):
        kind = op['op']

        def step():
            ev = dict(op)
            if kind == 'connect':
                ev['res'], _ = attempt(lambda: eps[op['a'] - 1].connect(eps[op['b'] - 1]), '')
            elif kind == 'disconnect':
                ev['res'], _ = attempt(lambda: eps[op['a'] - 1].disconnect(eps[op['b'] - 1]), 'refused')
            elif kind == 'pipe':
                a, b = op['a'] - 1, op['b'] - 1
                mode = (a + b + k) % 3
                # A block stands for its first output and first input
                left = eps[a] if mode == 1 or not is_first(blocks[a].outputs, eps[a]) else blocks[a]
                right = eps[b] if mode == 2 or not is_first(blocks[b].inputs, eps[b]) else blocks[b]
                if not isinstance(left, Block) and not isinstance(right, Block):
                    ev['res'], ret = attempt(lambda: pipe_operator(left, right), '')
                else:
                    ev['res'], ret = attempt(lambda: left | right, '')
                ev['ret'] = b + 1 if ret is blocks[b] else next((i + 1 for i, x in enumerate(blocks) if x is ret), 0)
            elif kind == 'set':
                ep = eps[op['i'] - 1]
                if (k + op['i']) % 2:
                    ep.set_value(VALUES[op['v']])
                else:
                    ep.value = VALUES[op['v']]
            elif kind == 'send':
                ep = eps[op['i'] - 1]
                role = ends[op['i'] - 1]['role']
                if role == 'in' or (role == 'relay' and k % 2):
                    ep.push(message(op['m'], cfg.get('none')))
                else:
                    ep.send(message(op['m'], cfg.get('none')))
            elif kind == 'recv':
                got = []
                if op['k']:
                    for m in eps[op['i'] - 1].receive():
                        got.append(number(m))
                        if len(got) >= op['k']:
                            break
                ev['got'] = got
            elif kind == 'latest':
                m = eps[op['i'] - 1].receive_latest()
                ev['got'] = [] if m is None else [number(m)]
            elif kind == 'mix':
                # a MessageMixer block whose ends are endpoints of the patch
                key = (tuple(op['ins']), op['o'])
                if key not in mixers:
                    mixer = MessageMixer(nInputs=0)
                    mixer.inputs = [eps[i - 1] for i in op['ins']]
                    mixer.outputs = [eps[op['o'] - 1]]
                    mixers[key] = mixer
                mixers[key].update()
            else:
                raise AssertionError(kind)
            return obs(ev, k)

        rec.step(step)
    return {'cfg': {'ends': ends}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
