"""Reverbs and the prime numbers they are made of."""
import math

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio import filters
from klang.audio.effects import Reverb
from klang.connections import Output
from klang.primes import find_next_primes, find_next_prime, is_prime

RATE = 44100
KINDS = {'backward': 'BackwardCombFilter', 'forward': 'ForwardCombFilter', 'echo': 'EchoFilter'}


def dense(sig):
    x = np.zeros(256)
    if sig['full']:
        x[:] = sig['v']
    else:
        for k, v in sig['v']:
            x[k - 1] = v
    return x


def sparse(vals):
    pairs = [[k + 1, v] for k, v in enumerate(vals) if v]
    return {'full': False, 'v': pairs} if len(pairs) < 40 else {'full': True, 'v': vals}


def decay(H):
    if H == -1:
        return float('inf')
    return H / RATE * math.pi / math.log(2)


def make(op):
    kw = {}
    if op['kind'] != 'backward' or op.get('explicit'):
        kw['echoType'] = getattr(filters, KINDS[op['kind']])
    return Reverb(decay(op['H']), (op['start'] + .5) / RATE if op['start'] else 0., op['mix'] / 4, op['echos'], **kw)


def run(scn):
    rec = Recorder()
    revs, srcs = [], []
    held = np.zeros(256)
    for op in scn['ops']:
        def step():
            k = op['op']
            if k == 'make':
                r = make(op)
                src = Output(owner=None)
                src.connect(r.input)
                revs.append(r)
                srcs.append(src)
                return {x: op[x] for x in ('op', 'start', 'echos', 'mix', 'kind', 'H')}
            if k == 'update':
                r, src, unit = revs[op['i'] - 1], srcs[op['i'] - 1], op['unit']
                x = dense(op['x'])
                if op.get('reuse'):
                    held[:] = x
                    x = held
                before = x.copy()
                src.set_value(x)
                r.update()
                out = np.asarray(r.output.value)
                if out.shape != (256,):
                    raise Bad('shape %r' % (out.shape,))
                n = op['echos']
                vals = (out * (4 * n * unit)).tolist()
                obs = []
                for v in vals:
                    y = dlib.rounded(v)
                    if unit == 1 and abs(y - v) > 1e-6:
                        raise Bad('not on the grid: %r' % v)
                    obs.append(y)
                return {'op': k, 'i': op['i'], 'x': sparse([int(v) * unit for v in before.tolist()]), 'out': sparse(obs),
                        'tol': op['tol'], 'unchanged': bool(np.array_equal(x, before) and src.value is x)}
            if k == 'mix':
                revs[op['i'] - 1].dryWet = op['mix'] / 4
                return {x: op[x] for x in ('op', 'i', 'mix')}
            if k == 'primes':
                if op['n'] == 1 and op.get('one'):
                    out = [find_next_prime(op['start'])]
                else:
                    out = list(find_next_primes(op['n'], op['start']))
                return {'op': k, 'n': op['n'], 'start': op['start'], 'out': [dlib.integer(p) for p in out]}
            if k == 'prime':
                return {'op': k, 'n': op['n'], 'out': bool(is_prime(op['n']))}
            raise ValueError(k)
        rec.step(step)
    return {'cfg': {}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
