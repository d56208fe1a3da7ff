"""Notes, primes, mathematical helpers, shared arrays and the progress bar."""
import fractions
import io
import json
import math
import re

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang import primes
from klang import math as km
from klang.audio.helpers import get_silence, get_time
from klang.messages import Note
from klang.progress_bar import ProgressBar

DTYPES = {'float': float, 'int': int, 'bool': bool, 'single': np.float32}


def encode(note):
    if not isinstance(note, Note):
        raise Bad('%r' % (note,))
    return {'p': dlib.integer(note.pitch), 'v': dlib.rounded(note.velocity, 1000), 'f': dlib.rounded(note.frequency, 1000)}


def make(n, default=False):
    return Note(n['p'], n['v'] / 1000) if default else Note(n['p'], n['v'] / 1000, n['f'] / 1000)


def written(arr):
    try:
        arr[...] = 1
    except ValueError:
        return False
    return True


class Progress(ProgressBar):
    pass


def whole(x):
    if isinstance(x, float):
        raise Bad('a float: %r' % (x,))
    return dlib.integer(x)


def run(scn):
    rec = Recorder()
    time = [0]
    bar = [None, None]
    for op in scn['ops']:
        def step():
            k = op['op']
            ret = dict(op)
            if k == 'note':
                try:
                    note = make(op, op['default'])
                except ValueError:
                    return dict(ret, res='refused')
                copies = [note, Note.from_dict(note.to_dict()), Note.from_json(note.to_json()), Note(**{f: getattr(note, f) for f in ('pitch', 'velocity', 'frequency')})]
                if Note.from_dict(note.to_dict()) != note or Note.from_json(json.dumps(note.to_dict())) != note or hash(copies[1]) != hash(note):
                    raise Bad('conversion')
                for wrong in ({'type': 'Nota'},):
                    try:
                        Note.from_dict(dict(note.to_dict(), **wrong))
                    except ValueError:
                        pass
                    else:
                        raise Bad('type')
                return dict(ret, res='ok', copies=[encode(n) for n in copies], silenced=encode(note.silence()), on=bool(note.on), off=bool(note.off))
            if k == 'order':
                notes = [make(n) for n in op['notes']]
                a, b = make(op['a']), make(op['b'])
                return dict(ret, before=bool(a < b), same=bool(a == b), sorted=[encode(n) for n in sorted(notes)])
            if k == 'prime':
                return dict(ret, prime=[bool(primes.is_prime(n)) for n in op['numbers']])
            if k == 'next':
                return dict(ret, found=dlib.integer(primes.find_next_prime(op['start'])))
            if k == 'nexts':
                found = primes.find_next_primes(op['n'], op['start'])
                ret['found'] = dlib.integers(list(found))
                if isinstance(found, list):
                    found.append(4)   # whoever asked may change the list
                return ret
            if k == 'sieve':
                return dict(ret, found=dlib.integers(list(primes.sieve_of_sundaram(op['limit']))))
            if k == 'search':
                try:
                    return dict(ret, res='ok', found=dlib.integer(primes.binary_search_with_upper(list(op['array']), op['x'])))
                except ValueError:
                    return dict(ret, res='refused')
            if k == 'wrap':
                x = [2 * math.pi * v / op['u'] for v in op['x']]
                out = km.wrap(np.array(x)) if op['array'] else [km.wrap(v) for v in x]
                if any(not -math.pi <= v <= math.pi for v in out):
                    raise Bad('outside %r' % list(out))
                return dict(ret, out=[dlib.rounded(v, op['u'] / (2 * math.pi)) for v in out])
            if k == 'clip':
                return dict(ret, out=dlib.integer(km.clip(op['x'], op['lower'], op['upper'])))
            if k == 'number':
                a, b = op['a'], op['b']
                return dict(ret, power=bool(km.is_power_of_two(a)), dyadic=bool(km.is_dyadic(fractions.Fraction(a, b))) if b > 0 else False, divisible=bool(km.is_divisible(a, abs(b))) if b else False,
                            lcm=whole(km.lcm(a, b)) if a and b else 0, sign=dlib.integer(km.sign(a)))
            if k == 'blend':
                a, b, x = op['a'], op['b'], op['x'] / 16
                if len(a) > 1:
                    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
                    keep = a.copy(), b.copy()
                    out = km.blend(a, b, x)
                    if (keep[0] != a).any() or (keep[1] != b).any():
                        raise Bad('argument changed')
                else:
                    out = [km.blend(a[0], b[0], x)]
                return dict(ret, out=dlib.integers(out, 16))
            if k == 'normalize':
                x = np.array(op['x'], dtype=float)
                if op['shape']:
                    x = np.stack([x, -x])
                try:
                    out = km.normalize_values(x)
                except ValueError:
                    return dict(ret, res='refused', after=dlib.integers(np.atleast_2d(x)[0]))
                if out.shape != x.shape:
                    raise Bad('shape')
                return dict(ret, res='ok', after=dlib.integers(np.atleast_2d(x)[0]), out=[int(math.copysign(math.floor(abs(v) * 10000 + .5 + 1e-6), v)) for v in np.atleast_2d(out)[0]])
            if k == 'map':
                a, b = km.linear_mapping(op['x'], op['y'])
                f = lambda v: dlib.rounded(a * v + b, 1000)
                return dict(ret, first=f(op['x'][0]), last=f(op['x'][1]), middle=f((op['x'][0] + op['x'][1]) / 2))
            if k == 'silence':
                asked = op['asked']
                shape = asked[0] if len(asked) == 1 and op['scalar'] else tuple(asked)
                arr = get_silence(shape, DTYPES[op['dtype']]) if op['dtype'] != 'default' else get_silence(shape)
                w = written(arr)
                return dict(ret, shape=[int(n) for n in arr.shape], nonzero=int(np.count_nonzero(arr)), written=w, exact=arr.dtype == np.dtype(DTYPES.get(op['dtype'], float)))
            if k == 'time':
                dt = op['step'] / 1024 if op['step'] else None
                arr = get_time(op['n'], dt) if dt else get_time(op['n'])
                w = written(arr)
                return dict(ret, step=op['step'] or 1, out=dlib.integers(arr, 1024) if dt else [dlib.rounded(v, 44100) for v in arr], written=w)
            if k == 'bar':
                if bar[0] is None or op['i'] == 0 and not op.get('again'):
                    bar[0] = Progress(op['n'], op['w'], op['text']) if op['text'] else Progress(op['n'], op['w'])
                stream = bar[0].stream = io.StringIO()
                bar[0].clock = lambda: op['now'] / 1024
                bar[0].print(op['i'])
                s = stream.getvalue()
                m = re.search(r'^(.*?)\[(\**)( *)\] (\S+) sec(\n?)$', s, re.S)
                if not m:
                    raise Bad('no bar %r' % s)
                left = m.group(4)
                return dict(ret, stars=len(m.group(2)), blanks=len(m.group(3)), prefix=m.group(1).endswith(op['text'] + ' ') if op['text'] else m.group(1).endswith('\r'),
                            erased='\r' in m.group(1), ended=m.group(5) == '\n', left=-1 if left == 'inf' else dlib.rounded(float(left), 1000))
            if k == 'range':
                stream = io.StringIO()
                cls = type('P', (ProgressBar,), {'stream': stream})
                out = [dlib.integer(v) for v in cls.range(op['n'], width=op['w'])]
                s = stream.getvalue()
                return dict(ret, out=out, lines=s.count('['+ '') - s.count('\33['), ended=s.endswith('\n'))
            raise ValueError(k)
        rec.step(step)
    return {'cfg': {}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
