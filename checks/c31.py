"""C31: note names, temperaments, scales, chords and finding them by name."""
PROPERTY = 'C31'
LEVEL = 'model_checking'
ASSUMPTIONS = ['frequencies are compared in hundredths of cents',
               'abbreviations are judged where it makes no difference whether they have to begin like the name']

DESIGN = '''SPECIFICATION Spec
CONSTANTS
 Part = "%s"
 MaxWord = %d
 MaxMoves = %d
INVARIANTS Spelling Scales Chords Words2
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxLen = %d
ACTION_CONSTRAINT Emit
'''
FORMS = ['list', 'tuple', 'array']
BAD = ['H4', '', 'C', '4', 'C###4', 'C#', 'X', 'Cbbb4', 'h#4', '-4', 'C#b4', 'C-', 'c', '#4', 'I-1', 'C.4']


def tuning(rng):
    if rng.random() < .25:
        return {'op': 'tune', 'how': 'equal', 'find': rng.random() < .5}
    cents = [100 * (100 * i + rng.choice([0, 0, -8, 4, 17, -30])) + rng.choice([0, 0, 25, 50, -10]) for i in range(12)]
    return {'op': 'tune', 'how': 'cents', 'cents': cents, 'reference': rng.choice([440, 440, 432, 443.5, 415, 27.5]), 'form': rng.choice(FORMS), 'later': rng.random() < .5}


def sound(rng, many):
    form = rng.choice(['array', 'grid']) if many else rng.choice(['scalar', 'numpy'])
    return {'op': 'sound', 'pitches': [rng.choice([rng.randint(0, 127), rng.randint(-40, 160)]) for _ in range(rng.choice([2, 4, 12, 40]) if many else 1)], 'form': form}


def word(rng, n, alphabet='abB c'):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, n)))


def find(rng):
    keys = list(dict.fromkeys(rng.choice(['', '', 'x']) + word(rng, 9, 'abcd') for _ in range(rng.randint(1, 8))))
    key = rng.choice(keys)
    r = rng.random()
    if r < .3:
        name = key
    elif r < .6:
        name = key[0] + ''.join(c for c in key[1:] if rng.random() < .6)
    elif r < .8:
        name = key[:rng.randint(1, len(key))]
    else:
        name = word(rng, 5, 'abcdx')
    return {'op': 'find', 'keys': keys, 'name': name}


def table(rng):
    value = lambda: rng.choice([rng.randint(-9, 1300), rng.randint(-9, 99) + .5, word(rng, 4, 'abc'), '3/2', '1e', 'a b'])
    rows = [[rng.choice(['major', 'minor', 'perfect fifth', 'a', 'b (1680)', 'Ä'])] + [value() for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(1, 6))]
    return {'op': 'table', 'rows': rows, 'sep': rng.choice([',', ',', ';', '|']), 'how': rng.choice(['text', 'bytes', 'file'])}


def steps(rng):
    pitches = sorted(rng.sample(range(1, 12), rng.randint(0, 9)))
    return [b - a for a, b in zip([0] + pitches, pitches + [12])]


def misc(rng):
    k = rng.choice(['product', 'back', 'scale', 'pitches', 'find', 'find', 'find', 'distance', 'distance', 'table', 'just'])
    if k == 'product':
        r = lambda: [rng.randint(1, 40), rng.randint(1, 40)]
        return {'op': k, 'a': r(), 'b': r(), 'form': rng.choice(['array', 'scalar'])}
    if k == 'back':
        return {'op': k, 'cents': [rng.randint(-500000, 500000) for _ in range(6)], 'form': rng.choice(['array', 'scalar'])}
    if k == 'scale':
        s = steps(rng)
        if rng.random() < .25:
            s.insert(rng.randint(0, len(s)), 0)       # the same pitch twice
        return {'op': k, 'values': s, 'form': rng.choice(FORMS)}
    if k == 'pitches':
        v = [c + 12 * rng.choice([0, 0, 1, -1, 3]) for c in rng.sample(range(12), rng.randint(1, 9))]
        return {'op': k, 'values': v, 'form': rng.choice(FORMS)}
    if k == 'just':
        return {'op': k, 'pitches': [rng.randint(0, 96) for _ in range(8)]}
    if k == 'distance':
        return {'op': k, 'a': word(rng, 7), 'b': word(rng, 7)}
    return find(rng) if k == 'find' else table(rng)


def run(ctx):
    t = ctx.thorough
    ctx.design('MusicDesign', DESIGN % ('note', 1, 0), label='names', min_states=300)
    ctx.design('MusicDesign', DESIGN % ('scale', 1, 0), label='scales', min_states=2000)
    ctx.design('MusicDesign', DESIGN % ('chord', 1, 40 if t else 12), label='chords', min_states=80)
    ctx.design('MusicDesign', DESIGN % ('word', 6 if t else 4, 6 if t else 4), label='words', min_states=100, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('MusicGen', GEN % (5 if t else 4), label='play')
    rng.shuffle(found)
    scns = []
    for h in found[:3000 if t else 500]:
        ops = [{'op': 'chord', 'chord': rng.choice([[0, 4, 7], [0, 3, 7, 10], [60, 64, 67], [0, 4, 7, 10, 14, 17], [5], [7, 0, 19]]), 'form': rng.choice(FORMS)}]
        for o in h:
            if o in ('note', 'notes'):
                ops.append(sound(rng, o == 'notes'))
            elif o == 'tune':
                ops.append(tuning(rng))
            elif o == 'known':
                ops.append({'op': 'tune', 'how': 'known', 'which': rng.randint(0, 11)})
            else:
                ops.append({'op': 'invert', 'n': {'up': 1, 'down': -1, 'up2': 2, 'down2': -2, 'far': rng.choice([-9, 7, 12]), 'stay': 0}[o]})
        scns.append({'ops': ops})
    # every note name, every pitch, every scale, every item of the tables
    names = [{'op': 'name', 'note': {'letter': x, 'acc': a, 'oct': o}, 'case': c} for x in 'CDEFGAB' for a in (-2, -1, 0, 1, 2) for o in range(-3, 12) for c in ('plain', 'lower', 'upper')]
    names += [{'op': 'spell', 'pitch': p, 'form': f} for p in range(-36, 160) for f in ('int', 'numpy')]
    names += [{'op': 'refused', 'what': 'name', 'name': n} for n in BAD] + [{'op': 'refused', 'what': 'cents', 'n': n} for n in (0, 1, 7, 11, 13, 24)]
    names += [{'op': 'code', 'code': c} for c in range(1, 4096)]
    names += [{'op': 'known', 'what': w, 'which': i} for w, n in (('scale', 70), ('chord', 80), ('interval', 570)) for i in range(n)]
    rng.shuffle(names)
    scns += [{'ops': names[i:i + 40]} for i in range(0, len(names), 40)]
    for i in range(12):
        scns.append({'ops': [{'op': 'tune', 'how': 'known', 'which': i}, {'op': 'sound', 'pitches': list(range(-12, 128)), 'form': 'array'}]})
    scns.append({'ops': [{'op': 'named'}]})
    scns.append({'ops': [{'op': 'just', 'pitches': list(range(0, 100))}]})
    for _ in range(1500 if t else 250):
        scns.append({'ops': [misc(rng) for _ in range(8)]})
    ctx.conform('d_music', 'MusicTrace', scns)
