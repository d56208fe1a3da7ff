"""C35: notes are written as sheet music which says what they are."""
import math
from fractions import Fraction as Q

PROPERTY = 'C35'
LEVEL = 'model_checking'
ASSUMPTIONS = ['groups have denominators which are powers of two; tuplets are at least as wide as their label',
               'a tuplet takes part in the beams around it like one note of its value']

DESIGN = '''SPECIFICATION Spec
CONSTANTS
 U = 192
 MaxNotes = %d
 Nested = %s
INVARIANTS Rows BeamsInGroups Open Position AllNotes Readable Stretched
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''
METRES = [[4, 4], [3, 4], [2, 4], [2, 2], [6, 8], [9, 8], [5, 8]]
GROUPINGS = [[[3, 8], [2, 8], [2, 8]], [[2, 8], [2, 8], [3, 8]], [[1, 2], [1, 2]], [[3, 16]], [[1, 8]], [[1, 8], [3, 16]], [[3, 8], [3, 8], [3, 8], [3, 8]],
             [[1, 4], [1, 4], [1, 4], [1, 8]], [[1, 4]] * 5, [[1, 1]], [[3, 2]], [[3, 4], [1, 2]], [[1, 4], [3, 8]], [[2, 4], [3, 4]], [[4, 16], [3, 16], [4, 16], [2, 16]],
             [[3, 8]] * 5, [[1, 16]], [[10, 16], [11, 16]], [[1, 8]], [[3, 16], [3, 16]], [[2, 8], [3, 8]], [[3, 4]], [[1, 2], [1, 4]], [[7, 16]]]
PLAIN = [(1, 1), (1, 2), (1, 2), (1, 4), (1, 4), (1, 4), (1, 8), (1, 8), (1, 8), (1, 8), (1, 16), (1, 16), (1, 16), (1, 16), (3, 2), (3, 4), (3, 8), (3, 8), (3, 16), (3, 16), (3, 32), (3, 32),
         (7, 8), (7, 16), (7, 32), (7, 64), (15, 16), (15, 32), (15, 64), (15, 128), (2, 1), (3, 1), (5, 8), (5, 16), (5, 4), (9, 16), (5, 64)]


class N:
    """A note: its value, and the notes of a tuplet."""
    def __init__(self, value, num=0, den=0, notes=()):
        self.value, self.num, self.den, self.notes = Q(value), num, den, list(notes)

    def all(self):
        yield self.value
        yield sum((n.value for n in self.notes), Q(0))
        for n in self.notes:
            yield from n.all()

    def json(self, u):
        if self.num:
            return {'k': 't', 'num': self.num, 'den': self.den, 'notes': [n.json(u) for n in self.notes]}
        return {'k': 'n', 'v': int(self.value * u)}


def tuplet(num, notes, den=None):
    den = num - 1 if den is None else den
    return N(sum((n.value for n in notes), Q(0)) * den / num, num, den, notes)


def plain(rng, short=False):
    v = Q(*rng.choice(PLAIN))
    return N(v if not short or v <= Q(1, 2) else Q(1, 8))


def some_tuplet(rng, depth=1):
    num = rng.choice([3, 3, 3, 5, 7, 6, 2, 4, 9, 12])
    n = rng.choice([num, num, 2, 3, 4]) if num < 9 else rng.choice([3, 4, num])
    if rng.random() < .6:
        notes = [N(rng.choice([Q(1, 8), Q(1, 16), Q(1, 4)]))] * max(2, n)
    else:
        notes = [plain(rng, True) for _ in range(max(3, n))]
    if depth and rng.random() < .25:
        inner = some_tuplet(rng, 0)
        notes = list(notes)
        notes[rng.randrange(len(notes))] = inner
    return tuplet(num, notes, rng.choice([None, None, None, 2, 4, 3, num + 1, num]))


def units(notes, extra=(2, 16)):
    vs = [v.denominator for n in notes for v in n.all()]
    return math.lcm(16, *extra, *vs)


def fits(notes, u):
    return u <= 500000 and sum((n.value for n in notes), Q(0)) * u * 16 < 2 ** 31 and all(v * u * 128 < 2 ** 31 for n in notes for v in n.all())


def sheet(rng, notes, metre=None, grouping=None):
    u = units(notes, [d for _, d in (grouping or [metre])] + [8])
    if not fits(notes, u):
        return None
    # an inner text has to be wide enough for its label
    return {'op': 'notes', 'notes': [n.json(u) for n in notes], 'u': u, 'grouping': grouping or [], 'metre': metre or [4, 4], 'stretch': rng.random() < .7, 'signed': rng.random() < .7,
            'form': rng.choice(['list', 'tuple', 'metre too' if metre and grouping else 'list']), 'omit': rng.random() < .5}


def bar(rng, length):
    """Notes which fill a bar, mostly short ones."""
    notes, left = [], length
    while left > 0:
        q = rng.choice([Q(1, 8), Q(1, 8), Q(1, 16), Q(1, 16), Q(1, 4), Q(3, 16), Q(3, 32), Q(3, 8), 't', 't2'])
        if q == 't':
            n = tuplet(3, [N(Q(1, 8))] * 3)
        elif q == 't2':
            n = tuplet(3, [N(Q(1, 16))] * 3)
        else:
            n = N(q)
        if n.value <= left:
            notes.append(n)
            left -= n.value
        elif left < Q(1, 16):
            if notes:
                notes.append(N(left + notes.pop().value))
            break
    return notes


def melody(rng):
    metre = grouping = None
    if rng.random() < .5:
        metre = rng.choice(METRES)
        length = Q(*metre)
    else:
        grouping = rng.choice(GROUPINGS)
        length = sum((Q(*g) for g in grouping), Q(0))
        if rng.random() < .3:
            metre = rng.choice(METRES)
    r = rng.random()
    if r < .3:
        notes = [rng.choice([plain, plain, plain, some_tuplet])(rng) for _ in range(rng.randint(1, 6))]
    elif r < .5:
        notes = [N(rng.choice([Q(1, 8), Q(1, 16)]))] * rng.randint(1, 20)
    else:
        notes = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            notes += bar(rng, length)
    notes = notes[:14]
    if not notes:
        notes = [N(Q(1, 4))]
    if rng.random() < .07:
        small = rng.choice([N(Q(1, 32)), N(Q(3, 64)), N(Q(7, 128)), tuplet(3, [N(Q(1, 16)), N(Q(1, 32)), N(Q(1, 16))]), tuplet(3, [N(Q(1, 32))] * 3), tuplet(2, [N(Q(1, 32)), N(Q(1, 16))])])
        notes.insert(rng.randint(0, len(notes)), small)
    return sheet(rng, notes, metre, grouping)


def text(rng, rect=True):
    w, h = rng.randint(1, 4), rng.randint(1, 4)
    return [[rng.choice('abc .') for _ in range(w if rect else rng.randint(1, 4))] for _ in range(h)]


def op(rng):
    k = rng.choice(['notes'] * 6 + ['tuplet', 'tuplet', 'note', 'note', 'signature', 'signature', 'size', 'heighten', 'stack', 'cumsum', 'expand'])
    omit = rng.random() < .5
    if k == 'notes':
        return melody(rng)
    if k == 'tuplet':
        n = some_tuplet(rng)
        u = units([n])
        if not fits([n], u) or any(v < Q(1, 16) for m in n.notes for v in m.all() if v):
            return None
        return {'op': k, 'note': n.json(u), 'u': u, 'explicit': rng.random() < .6, 'omit': omit, 'position': rng.random() < .5}
    if k == 'note':
        v = Q(*rng.choice(PLAIN))
        u = math.lcm(16, v.denominator)
        return {'op': k, 'v': int(v * u), 'u': u, 'dir': rng.choice(['start', 'start', 'on', 'end']), 'omit': omit}
    if k == 'signature':
        if rng.random() < .5:
            return {'op': k, 'grouping': [[rng.randint(1, 25), rng.choice([1, 2, 4, 8, 16])]], 'form': 'metre'}
        return {'op': k, 'grouping': rng.choice(GROUPINGS), 'form': 'grouping'}
    if k == 'size':
        return {'op': k, 'text': text(rng, False)}
    if k == 'heighten':
        return {'op': k, 'text': text(rng), 'height': rng.randint(1, 6), 'fill': rng.choice(' ?x'), 'omit': omit}
    if k == 'stack':
        return {'op': k, 'texts': [text(rng) for _ in range(rng.randint(0, 4))], 'sep': list(rng.choice(['', '', ' ', '||'])), 'omit': omit}
    if k == 'cumsum':
        return {'op': k, 'values': [rng.randint(1, 200) for _ in range(rng.randint(0, 6))], 'u': rng.choice([16, 96, 60]), 'form': rng.choice(['list', 'tuple'])}
    return {'op': k, 'grouping': [[rng.randint(1, 9), rng.choice([1, 2, 4, 8, 16])] for _ in range(rng.randint(1, 5))]}


def labels_fit(n):
    """Rough width of a tuplet against that of its label (exact widths are the specification's)."""
    if n['k'] == 'n':
        return True
    width = sum(3 if m['k'] == 'n' else 3 * len(m['notes']) + 1 for m in n['notes'])
    return width >= len(' %d:%d ' % (n['num'], n['den'])) and all(labels_fit(m) for m in n['notes'])


def usable(o):
    return o is not None and all(labels_fit(n) for n in o.get('notes', [])) and ('note' not in o or labels_fit(o['note']))


def run(ctx):
    ctx.design('NotationDesign', DESIGN % ((4, 'TRUE') if ctx.thorough else (3, 'FALSE')), label='writing', min_states=5000, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('NotationGen', GEN % (4 if ctx.thorough else 3), label='melodies')
    rng.shuffle(found)
    found = found[:6000 if ctx.thorough else 900]
    scns, ops = [], []
    triplet = {0: tuplet(3, [N(Q(1, 8))] * 3), 1: tuplet(3, [N(Q(1, 16))] * 3)}
    for m in found:
        notes = [triplet[v] if v < 2 else N(Q(v, 96)) for v in m] * rng.choice([1, 2, 3])
        if rng.random() < .5:
            ops.append(sheet(rng, notes, metre=rng.choice(METRES)))
        else:
            ops.append(sheet(rng, notes, grouping=rng.choice(GROUPINGS)))
    ops += [op(rng) for _ in range(6000 if ctx.thorough else 1200)]
    ops += [{'op': 'signature', 'grouping': [[n, d]], 'form': f} for n in range(1, 25) for d in (2, 4, 8, 16) for f in ('metre', 'grouping')]
    ops = [o for o in ops if usable(o)]
    rng.shuffle(ops)
    for i in range(0, len(ops), 10):
        scns.append({'cfg': {}, 'ops': ops[i:i + 10]})
    ctx.conform('d_notation', 'NotationTrace', scns)
