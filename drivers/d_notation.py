"""Notes written as sheet music."""
from fractions import Fraction

import dlib
from dlib import Recorder, Bad
from klang.music import metre as M
from klang.music import note_formatting as F
from klang.music.note_values import Tuplet

LETTERS = {'┌': 'r', '┬': 't', '┐': 'q', '─': '~', '╒': 'R', '╤': 'T', '╕': 'Q', '═': '=', '│': 'l', '●': 'b', '○': 'w'}
DIRS = {'start': 'BEAM_START', 'on': 'BEAM_CONTINUATION', 'end': 'BEAM_END'}


def rows(text):
    if not isinstance(text, str):
        raise Bad('not a text')
    if not text:
        return []
    return [[LETTERS.get(c, c if c in ' .+-:0123456789' else 'odd character') for c in row] for row in text.split('\n')]



def note(n, u):
    if n['k'] == 'n':
        return Fraction(n['v'], u)
    notes = [note(m, u) for m in n['notes']]
    return Tuplet(n['num'], notes) if n['den'] == n['num'] - 1 else Tuplet(n['num'], notes, n['den'])


def tree(x):
    """Everything about a note which has to stay."""
    return (type(x).__name__, x.numerator, x.denominator) + ((x.num, x.den, [tree(y) for y in x.notes]) if isinstance(x, Tuplet) else ())


def groups(grouping):
    return [M.create_metre(*g) for g in grouping]


def run(scn):
    rec = Recorder()
    for op in scn['ops']:
        def step():
            k = op['op']
            e = {f: v for f, v in op.items() if f not in ('form', 'omit', 'position')}
            if k == 'notes':
                notes = [note(n, op['u']) for n in op['notes']]
                before = [tree(n) for n in notes]
                kw = {}
                if op['grouping']:
                    g = kw['grouping'] = groups(op['grouping'])
                    if op['form'] == 'metre too':
                        kw['metre'] = M.create_metre(*op['metre'])
                elif op['metre'] != [4, 4] or not op['omit']:
                    kw['metre'] = M.create_metre(*op['metre'])
                if not op['stretch'] or not op['omit']:
                    kw['strech'] = op['stretch']
                if not op['signed'] or not op['omit']:
                    kw['timeSignature'] = op['signed']
                try:
                    out = rows(F.format_notes(tuple(notes) if op['form'] == 'tuple' else notes, **kw))
                    out = out or 'nothing'
                except ValueError:
                    out = []
                same = [tree(n) for n in notes] == before and (not op['grouping'] or [(x.numerator, x.denominator) for x in g] == [tuple(x) for x in op['grouping']])
                return dict(e, out=out, unchanged=same)
            if k == 'tuplet':
                n = note(op['note'], op['u'])
                before = tree(n)
                out = F.format_tuplet(n) if op['explicit'] and op['omit'] else F.format_tuplet(n, op['explicit']) if op['position'] else F.format_tuplet(n, explicit=op['explicit'])
                return dict(e, out=rows(out), unchanged=tree(n) == before)
            if k == 'note':
                v = Fraction(op['v'], op['u'])
                out = F.format_note(v) if op['dir'] == 'start' and op['omit'] else F.format_note(v, beamDirection=getattr(F, DIRS[op['dir']]))
                return dict(e, out=rows(out))
            if k == 'signature':
                g = groups(op['grouping'])
                out = F.format_time_signature(g[0] if op['form'] == 'metre' else g)
                return dict(e, out=rows(out), unchanged=[(x.numerator, x.denominator) for x in g] == [tuple(x) for x in op['grouping']])
            if k == 'size':
                out = F.text_size('\n'.join(map(''.join, op['text'])))
                return dict(e, out=[dlib.integer(x) for x in out])
            if k == 'heighten':
                text = '\n'.join(map(''.join, op['text']))
                out = F.heighten_text(text, op['height']) if op['fill'] == ' ' and op['omit'] else F.heighten_text(text, op['height'], fill=op['fill'])
                return dict(e, out=[list(r) for r in out.split('\n')])
            if k == 'stack':
                texts = ['\n'.join(map(''.join, text)) for text in op['texts']]
                out = F.hstack(*texts) if not op['sep'] and op['omit'] else F.hstack(*texts, sep=''.join(op['sep']))
                return dict(e, out=[list(r) for r in out.split('\n')] if out else [])
            if k == 'cumsum':
                values = [Fraction(v, op['u']) for v in op['values']]
                out = F.cumsum(tuple(values) if op['form'] == 'tuple' else values)
                return dict(e, out=[dlib.integer(x * op['u']) for x in out], unchanged=values == [Fraction(v, op['u']) for v in op['values']])
            if k == 'expand':
                g = groups(op['grouping'])
                out = [[x.numerator, x.denominator] for x in F.expand(g)]
                m = F.sum_grouping(g)
                return dict(e, out=out, metre=[m.numerator, m.denominator], unchanged=[(x.numerator, x.denominator) for x in g] == [tuple(x) for x in op['grouping']])
            raise ValueError(k)
        rec.step(step)
    return {'cfg': {}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
