"""Note names, temperaments, scales, chords, finding by name."""
import math
import os
import re
import tempfile

import numpy as np

import dlib
from dlib import Recorder, Bad
import klang
from klang.music import chords, intervals, scales, tunings
from klang.music.pitch import note_name_2_pitch, pitch_2_note_name
from klang.util import find_item, levenshtein, load_music_data_from_csv, parse_music_data_from_csv

NAME = re.compile(r'([A-G])(#*|b*)(-?[0-9]+)')
ACC = {-2: 'bb', -1: 'b', 0: '', 1: '#', 2: '##'}
DATA = os.path.join(os.path.dirname(klang.__file__), 'music', 'data')


def rows_of(what):
    """Rows of a table of the library, read independently."""
    with open(os.path.join(DATA, what + '.csv')) as f:
        return {r[0]: r[1:] for r in (line.rstrip('\n').split(',') for line in f) if r}


def ints(x):
    return dlib.integers(np.asarray(list(x)))


def codes(s):
    return [ord(c) for c in s]


def coded(v):
    return '%s:%s' % (type(v).__name__, v)


def shaped(pitches, form):
    if form == 'scalar':
        return pitches[0]
    if form == 'numpy':
        return np.int64(pitches[0])
    return np.array(pitches).reshape((2, -1) if form == 'grid' else -1)


def sequence(values, form):
    return {'list': list, 'tuple': tuple, 'array': np.array}[form](values)


def run(scn):
    rec = Recorder()
    state = {'chord': [0, 4, 7], 'tuning': tunings.EQUAL_TEMPERAMENT, 'reference': 440.}

    def fresh(op):
        x = sequence(op['values'], op['form'])
        return x, (lambda: type(x) is type(sequence(op['values'], op['form'])) and list(x) == list(op['values']))

    for op in scn['ops']:
        def step():
            k = op['op']
            if k == 'chord':
                state['chord'] = sequence(op['chord'], op['form'])
                return {'op': k, 'chord': op['chord']}
            if k == 'invert':
                before = list(state['chord'])
                out = chords.invert_chord(state['chord'], op['n'])
                same = list(state['chord']) == before
                state['chord'] = out
                return {'op': k, 'n': op['n'], 'out': ints(out), 'unchanged': same}
            if k == 'tune':
                if op['how'] == 'cents':
                    cents = [c / 100 for c in op['cents']]
                    arg = sequence(cents, op['form'])
                    state['tuning'] = tunings.Temperament(arg, op['reference']) if op['reference'] != 440 else tunings.Temperament(arg)
                    state['reference'] = op['reference']
                    same = list(arg) == cents
                    if isinstance(arg, (list, np.ndarray)) and op.get('later'):
                        arg[3] += 50
                    return {'op': k, 'cents': op['cents'], 'unchanged': same}
                if op['how'] == 'equal':
                    state['tuning'] = tunings.find_temperament('Equal') if op.get('find') else tunings.EQUAL_TEMPERAMENT
                    cents = [100 * i for i in range(12)]
                else:
                    table = rows_of('tunings')
                    name = sorted(table)[op['which'] % len(table)]
                    cents = [float(c) for c in table[name]]
                    state['tuning'] = tunings.find_temperament(name.title().strip())
                state['reference'] = 440.
                return {'op': k, 'cents': [dlib.rounded(c, 100) for c in cents], 'unchanged': True}
            if k == 'sound':
                p = shaped(op['pitches'], op['form'])
                keep = np.array(p)
                f = state['tuning'].pitch_2_frequency(p)
                if np.shape(f) != np.shape(p):
                    raise Bad('shape %r' % (np.shape(f),))
                fs = np.atleast_1d(f).ravel().tolist()
                pitches = np.atleast_1d(p).ravel().tolist()
                if not all(x > 0 for x in fs):
                    raise Bad('not a frequency')
                return {'op': k, 'pitches': pitches, 'out': [dlib.rounded(1200 * math.log2(x / state['reference']), 100) for x in fs],
                        'unchanged': bool(np.array_equal(keep, p))}
            if k == 'just':
                f = tunings.find_temperament('Just').pitch_2_frequency(np.array(op['pitches']))
                return {'op': k, 'pitches': op['pitches'], 'reference': 44000, 'out': [dlib.rounded(x, 100) for x in f.tolist()]}
            if k == 'named':
                out = []
                for name, t in tunings.TEMPERAMENTS.items():
                    if name != 'Random':
                        if tunings.find_temperament(name) is not t:
                            raise Bad('another %r' % name)
                        out.append([dlib.rounded(1200 * math.log2(f / 440.), 100) for f in t.pitch_2_frequency(np.arange(60, 85))])
                return {'op': k, 'tunings': out}
            if k == 'product':
                (a, b), (c, d) = op['a'], op['b']
                w = (lambda x: np.array([x, 1.])) if op['form'] == 'array' else float
                cents = lambda x: dlib.rounded(np.atleast_1d(tunings.ratio_2_cent(w(x)))[0], 100)
                return {'op': k, 'a': cents(a / b), 'b': cents(c / d), 'ab': cents(a * c / b / d), 'inv': cents(b / a),
                        'octaves': [cents(2. ** i) for i in range(-2, 4)]}
            if k == 'back':
                c = np.array(op['cents']) / 100
                out = tunings.ratio_2_cent(tunings.cent_2_ratio(c if op['form'] == 'array' else float(c[0])))
                return {'op': k, 'cents': op['cents'] if op['form'] == 'array' else op['cents'][:1], 'out': [dlib.rounded(x, 100) for x in np.atleast_1d(out).tolist()]}
            if k == 'name':
                n = op['note']
                name = n['letter'] + ACC[n['acc']] + str(n['oct'])
                name = {'lower': name.lower(), 'upper': name.upper(), 'plain': name}[op['case']]
                return {'op': k, 'note': n, 'out': dlib.integer(note_name_2_pitch(name))}
            if k == 'spell':
                p = op['pitch'] if op['form'] == 'int' else np.int64(op['pitch'])
                name = pitch_2_note_name(p)
                m = NAME.fullmatch(name)
                if not m:
                    raise Bad('name %r' % (name,))
                acc = [a for a in ACC if ACC[a] == m.group(2)]
                if not acc:
                    raise Bad('name %r' % (name,))
                return {'op': k, 'pitch': op['pitch'], 'out': {'letter': m.group(1), 'acc': acc[0], 'oct': int(m.group(3))}, 'back': dlib.integer(note_name_2_pitch(name))}
            if k == 'refused':
                ok = False
                try:
                    if op['what'] == 'name':
                        note_name_2_pitch(op['name'])
                    else:
                        tunings.Temperament([100 * i for i in range(op['n'])])
                except (ValueError, KeyError, AssertionError):
                    ok = True
                return {'op': k, 'ok': ok}
            if k == 'code':
                c = op['code']
                steps = scales.code_2_scale(c)
                return {'op': k, 'code': c, 'steps': ints(steps), 'listed': ints(scales.ALL_POSSIBLE_SCALES[c]),
                        'back': dlib.integer(scales.scale_2_code(steps)) if c % 2 else 0,
                        'pitches': ints(scales.scale_2_pitches(steps)) if c % 2 else []}
            if k == 'scale':
                x, same = fresh(op)
                return {'op': k, 'steps': op['values'], 'pitches': ints(scales.scale_2_pitches(x)), 'code': dlib.integer(scales.scale_2_code(x)), 'unchanged': same()}
            if k == 'pitches':
                x, same = fresh(op)
                return {'op': k, 'pitches': op['values'], 'steps': ints(scales.pitches_2_scale(x)), 'unchanged': same()}
            if k == 'known':
                what = op['what']
                table = rows_of(what + 's')
                name = sorted(table)[op['which'] % len(table)]
                row = table[name]
                if what == 'interval':
                    f = intervals.find_interval(name)
                    p, _, q = row[0].strip().partition('/')
                    big = max(int(p), int(q or 1), f.numerator, f.denominator)
                    if big > 40000:      # too large for the arithmetic of the checker
                        same = f.numerator * int(q or 1) == f.denominator * int(p)
                        return {'op': k, 'what': what, 'row': [1, 1], 'out': [1, 1] if same else [1, 2]}
                    return {'op': k, 'what': what, 'row': [int(p), int(q or 1)], 'out': [f.numerator, f.denominator]}
                find = {'scale': scales.find_scale, 'chord': chords.find_chord}[what]
                return {'op': k, 'what': what, 'row': [int(v) for v in row], 'out': ints(find(name))}
            if k == 'find':
                dct = {key: ('value', i) for i, key in enumerate(op['keys'])}
                before = dict(dct)
                try:
                    got = find_item(dct, op['name'])
                    if got not in before.values():
                        raise Bad('found %r' % (got,))
                    out = got[1] + 1
                except ValueError:
                    out = 0
                if dct != before:
                    raise Bad('table changed')
                return {'op': k, 'keys': [codes(x) for x in op['keys']], 'name': codes(op['name']), 'out': out}
            if k == 'distance':
                return {'op': k, 'a': codes(op['a']), 'b': codes(op['b']), 'out': dlib.integer(levenshtein(op['a'], op['b']))}
            if k == 'table':
                sep = op['sep']
                words = {True: lambda v: str(v)}
                s = '\n'.join(sep.join([r[0]] + [str(v) for v in r[1:]]) for r in op['rows'])
                args = () if sep == ',' else (sep,)
                if op['how'] == 'file':
                    with tempfile.TemporaryDirectory() as d:
                        path = os.path.join(d, 'table.csv')
                        with open(path, 'w') as f:
                            f.write(s)
                        got = load_music_data_from_csv(path, *args)
                else:
                    got = parse_music_data_from_csv(s.encode() if op['how'] == 'bytes' else s, *args)
                row = lambda key, vals: {'key': key, 'vals': [coded(v) for v in vals]}
                return {'op': k, 'rows': [row(r[0], r[1:]) for r in op['rows']], 'out': [row(*kv) for kv in got.items()]}
            raise ValueError(k)
        rec.step(step)
    return {'cfg': {}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
