"""Network blocks over real datagram sockets (UNIX and UDP on the loopback)."""
import hashlib
import json
import os
import shutil
import socket
import tempfile

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.connections import MessageInput, MessageOutput, Output
from klang.messages import Note
from klang.network import (NetworkIn, NetworkMessageIn, NetworkMessageOut, NetworkOut)


def canonical(o):
    """Text which is the same only for equal objects of the same kind."""
    s = canon(o)
    if len(s) > 120:
        s = s[:40] + '#' + hashlib.sha256(s.encode('utf-8', 'surrogatepass')).hexdigest()[:32]
    return s


def canon(o):
    if o is None:
        return 'null'
    if isinstance(o, bool):
        return 'bool %s' % o
    if isinstance(o, Note):
        return 'note(%s)' % ','.join(canon(x) for x in o)
    if isinstance(o, np.ndarray):
        return 'array(%s,%s,%s)' % (o.dtype.str, list(o.shape), hashlib.sha256(np.ascontiguousarray(o).tobytes()).hexdigest()[:24])
    if isinstance(o, int):
        return 'int %d' % o
    if isinstance(o, float):
        return 'float %s' % float(o).hex()
    if isinstance(o, str):
        return 'str ' + o.encode('unicode_escape').decode().replace('\\', '/').replace('"', '/22')
    if isinstance(o, (list, tuple)):
        return 'list(%s)' % ','.join(canon(x) for x in o)
    if isinstance(o, dict):
        return 'dict(%s)' % ','.join('%s:%s' % (canon(k), canon(o[k])) for k in sorted(o))
    raise Bad('unexpected object %r' % type(o))


def make(d):
    """Object from its description."""
    k = d['kind']
    if k == 'note':
        return Note(*d['args'], **d.get('kw', {}))
    if k == 'array':
        n = 1
        for x in d['shape']:
            n *= x
        base = (np.arange(n, dtype=np.int64) * 7919 + d['seed']) % 251
        dt = np.dtype(d['dtype'])
        if dt.kind == 'b':
            arr = (base % 3 == 0)
        elif dt.kind == 'f':
            arr = (base - 125) / 7.3
        elif dt.kind == 'c':
            arr = base + 1j * (base % 7)
        elif dt.kind == 'U':
            arr = np.array(['s%d' % b for b in base], dtype=dt) if n else np.zeros(0, dt)
        else:
            arr = base % 100
        arr = arr.astype(dt).reshape(d['shape'])
        how = d['how']
        if how == 'transposed':
            arr = np.ascontiguousarray(arr.T).T
        elif how == 'strided' and arr.ndim:
            big = np.zeros((2 * arr.shape[0],) + arr.shape[1:], dtype=dt)
            big[::2] = arr
            arr = big[::2]
        elif how == 'reversed' and arr.ndim:
            arr = arr[::-1]
        elif how == 'readonly':
            arr.setflags(write=False)
        return arr
    if k == 'float':
        return float.fromhex(d['hex'])
    return d['value']


class Net:
    def __init__(self, kind, n):
        self.kind = kind
        self.dir = tempfile.mkdtemp(prefix='net-')
        self.addresses = []
        held = []
        for i in range(n):
            if kind == 'unix':
                self.addresses.append(os.path.join(self.dir, 's%d' % i))
            else:
                s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                s.bind(('127.0.0.1', 0))
                held.append(s)
                self.addresses.append(('127.0.0.1', s.getsockname()[1]))
        for s in held:
            s.close()
        self.raw = socket.socket(socket.AF_UNIX if kind == 'unix' else socket.AF_INET, socket.SOCK_DGRAM)

    def close(self, blocks):
        self.raw.close()
        for b in blocks:
            sock = getattr(getattr(b, 'courier', None), 'sock', None)
            if sock is not None:
                sock.close()
        shutil.rmtree(self.dir)


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    net = Net(cfg['net'], len(cfg['receivers']))
    blocks = []
    try:
        receivers, inboxes = [], []
        for i, kind in enumerate(cfg['receivers']):
            if kind == 'message':
                b = NetworkMessageIn(net.addresses[i])
                box = MessageInput(owner=None)
                b.output.connect(box)
                inboxes.append(box)
            else:
                b = NetworkIn(net.addresses[i])
                inboxes.append(None)
            receivers.append(b)
            blocks.append(b)
        defaults = {canonical(b.output.value) for b, k in zip(receivers, cfg['receivers']) if k == 'value'}
        if len(defaults) > 1:
            raise Bad('different values at the beginning')
        senders, sources = [], []
        for s in cfg['senders']:
            if s['kind'] == 'message':
                b = NetworkMessageOut(net.addresses[s['to'] - 1])
                src = MessageOutput(owner=None)
            else:
                b = NetworkOut(net.addresses[s['to'] - 1])
                src = Output(owner=None)
            src.connect(b.input)
            senders.append(b)
            sources.append(src)
            blocks.append(b)
        for op in scn['ops']:
            def step():
                k = op['op']
                if k == 'input':
                    obj = make(op['obj'])
                    text = canonical(obj)
                    if cfg['senders'][op['s'] - 1]['kind'] == 'message':
                        sources[op['s'] - 1].send(obj)
                    else:
                        sources[op['s'] - 1].set_value(obj)
                    return {'op': k, 's': op['s'], 'obj': text}
                if k == 'send':
                    senders[op['s'] - 1].update()
                    return {'op': k, 's': op['s']}
                if k == 'raw':
                    objs = [make(o) for o in op['objects']]
                    if op['bytes'] != '-':
                        data = bytes.fromhex(op['bytes'])
                    else:
                        data = ''.join(json.dumps(o) for o in objs).encode(op.get('coding', 'utf-8'))
                    net.raw.sendto(data, net.addresses[op['r'] - 1])
                    return {'op': k, 'r': op['r'], 'objects': [canonical(o) for o in objs]}
                if k == 'update':
                    i = op['r'] - 1
                    receivers[i].update()
                    if inboxes[i] is not None:
                        got = list(inboxes[i].receive())
                    else:
                        got = [receivers[i].output.value]
                    return {'op': k, 'r': op['r'], 'got': [canonical(o) for o in got]}
                if k == 'note':
                    note = make(op['obj'])
                    return {'op': k, 'obj': canonical(note), 'dict': canonical(Note.from_dict(note.to_dict())),
                            'json': canonical(Note.from_json(note.to_json()))}
                raise ValueError(k)
            rec.step(step)
    finally:
        net.close(blocks)
    return {'cfg': {'receivers': cfg['receivers'], 'senders': cfg['senders'], 'net': cfg['net'], 'default': list(defaults)[0] if defaults else 'none'}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
