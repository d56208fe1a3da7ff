"""Tempo, metre and note values. Floats are read as the simplest fraction they
round to; a float which is none is a bad observation."""
from fractions import Fraction

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.constants import TAU
from klang.music import metre as M
from klang.music import note_values as V
from klang.music import tempo as T

PREFIX = ['', 'DOTTED_', 'DOUBLE_DOTTED_', 'TRIPLE_DOTTED_']


def frac(x):
    """Read off a rational number."""
    if isinstance(x, Fraction):
        q = Fraction(x.numerator, x.denominator)
    else:
        v = float(x)
        if v != v or abs(v) == float('inf'):
            raise Bad('not finite: %r' % (x,))
        q = Fraction(v).limit_denominator(200000)
        if abs(float(q) - v) > 3e-14 * abs(v) + 1e-300:
            raise Bad('not near a simple fraction: %r' % (x,))
    if max(abs(q.numerator), q.denominator) >= 2 ** 30:
        raise Bad('too large: %r' % (x,))
    return [q.numerator, q.denominator]


def written(m):
    return [dlib.integer(m.numerator), dlib.integer(m.denominator)]


def run(scn):
    rec = Recorder()
    metres = {}

    def metre(m, string=False):
        if not m:
            return None
        if tuple(m) not in metres or string:
            metres[tuple(m)] = M.create_metre('%d/%d' % tuple(m)) if string else M.create_metre(m[0], m[1])
        return metres[tuple(m)]

    def note(spec):
        if spec and spec[0] == 'tuplet':
            return V.Tuplet(spec[1], [Fraction(*q) for q in spec[2]], *([spec[3]] if spec[3] else []))
        return Fraction(*spec)

    def tempo(q):
        return q[0] / q[1] if q[1] != 1 else q[0]

    def args(op, withtempo=True):
        a, kw = [], {}
        if withtempo and op['tempo']:
            if op['pos']:
                a.append(tempo(op['tempo']))
            else:
                kw['tempo'] = tempo(op['tempo'])
        for key, value in (('metre', metre(op['metre'])), ('beatValue', Fraction(*op['beat']) if op['beat'] else None)):
            if value is None:
                if len(a) and op['pos'] and key == 'metre':
                    op = dict(op, pos=False)
            elif op['pos'] and len(a):
                a.append(value)
            else:
                kw[key] = value
        return a, kw

    for op in scn['ops']:
        def step():
            k = op['op']
            e = {f: op[f] for f in ('op', 'tempo', 'metre', 'beat', 'n', 'num', 'base', 'dots', 'm') if f in op}
            if k == 'metre':
                return dict(e, out=written(metre(op['m'], op['string'])))
            if k == 'class':
                m = metre(op['m'])
                e.update(simple=bool(M.is_simple(m)), compound=bool(M.is_compound(m)), complex=bool(M.is_complex(m)),
                         irrational=bool(M.is_irrational(m)), fractional=bool(M.is_fractional(m)),
                         beat=written(M.default_beat_value(m)), beats=frac(M.number_of_beats(m)), after=written(m))
                return e
            if k == 'beats':
                return dict(e, out=frac(M.number_of_beats(metre(op['metre']), Fraction(*op['beat']))))
            if k in ('duration', 'rate'):
                x = note(op['note'])
                a, kw = args(op)
                f = T.compute_rate if k == 'rate' else [T.note_duration, T.compute_duration][op['via']]
                return dict(e, note=frac(x), out=frac(f(x, *a, **kw)))
            if k == 'bar':
                a, kw = args(op)
                return dict(e, out=frac(T.bar_period(*a, **kw)))
            if k == 'velocity':
                a, kw = args(op)
                return dict(e, out=frac(T.angular_velocity(*a, **kw) / TAU))
            if k == 'frequency':
                return dict(e, out=frac(T.tempo_2_frequency(tempo(op['tempo']))))
            if k == 'period':
                return dict(e, out=frac(T.tempo_2_period(tempo(op['tempo']))))
            if k == 'pass':
                v = {'int': int, 'float': float, 'np': np.float64, 'arr': lambda x: np.array([x, x])}[op['type']](op['value'])
                a, kw = args(op)
                f = [T.compute_duration, T.compute_rate][op['via']]
                r = f(v, *a, **kw)
                return dict(e, unchanged=bool(r is v or np.array_equal(r, v) and type(r) == type(v)))
            if k in ('dot', 'dedot'):
                x = note(op['note'])
                f, g = (V.dot_note, V.dedot_note) if k == 'dot' else (V.dedot_note, V.dot_note)
                y = f(x) if op['n'] == 1 and op['omit'] else f(x, op['n']) if op['pos'] else f(x, n=op['n'])
                return dict(e, note=frac(x), out=frac(y), back=frac(g(y, op['n'])))
            if k == 'tuplet':
                qs = [note(q) for q in op['notes']]
                x = V.Tuplet(op['num'], qs, op['den']) if op['den'] else V.Tuplet(op['num'], qs)
                if not isinstance(x, Fraction):
                    raise Bad('not a note value')
                return dict(e, notes=[frac(q) for q in qs], den=op['den'], out=frac(x), ratio=[x.num, x.den], kept=x.notes == qs)
            if k == 'const':
                return dict(e, out=frac(getattr(V, PREFIX[op['dots']] + op['base'] + '_NOTE')))
            if k == 'fill':
                qs = [note(q) for q in op['notes']]
                m, b = metre(op['metre']), tempo(op['tempo'])
                total = sum(T.compute_duration(q, b, m) for q in qs)
                return dict(e, notes=[frac(q) for q in qs], total=frac(total), bar=frac(T.bar_period(b, m)))
            raise ValueError(k)
        rec.step(step)
    return {'cfg': {}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
