"""C20: objects sent over the network arrive equal, in order, once."""
import json
PROPERTY = 'C20'
LEVEL = 'model_checking'
ASSUMPTIONS = ['not more than 50 messages between two updates (capacity of a message queue)', 'the datagram socket itself keeps order and loses nothing: not more datagrams are waiting than the system queues (10 on UNIX sockets)',
               'numbers are int and float of Python; lists and dictionaries hold plain values']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 MaxSent = %d
INVARIANTS InOrderOnce LastValue
PROPERTIES Forward Arrives
'''
GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxOps = %d
ACTION_CONSTRAINT Emit
'''
WORDS = ['', 'a', 'Note', 'klang', 'grün', '音', '\U0001f3b5', 'a"b\\c', 'line\nbreak', '\x00', ' ', 'null', '1', '\u2028', '[1]', '{"type": "Note"}', '\ud800']
FLOATS = ['0x0.0p+0', '-0x0.0p+0', '0x1.999999999999ap-4', '0x1p+0', '-0x1.8p+1', '0x1.fffffffffffffp+1023', '0x0.0000000000001p-1022', 'inf', '-inf', '0x1.5555555555555p-2', 'nan']


def plain(rng, depth=2):
    x = rng.random()
    if depth and x < .22:
        return [plain(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if depth and x < .44:
        return {rng.choice(['a', 'b', 'type', 'data', 'pitch', '', 'ä']): plain(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    if x < .6:
        return rng.choice(WORDS)
    if x < .8:
        return rng.choice([0, 1, -1, 2 ** 31, -2 ** 63, 10 ** 30, rng.randint(-1000, 1000)])
    if x < .9:
        return rng.choice([True, False])
    if x < .95:
        return rng.choice([.1, 1., -2.5, 1e300, 3.0])
    return None


def ambiguous(o):
    """A dictionary which is the text form of a note or an array."""
    if isinstance(o, dict):
        return o.get('type') in ('Note', 'ndarray') or any(map(ambiguous, o.values()))
    return isinstance(o, list) and any(map(ambiguous, o))


def thing(rng, only_plain=False):
    x = rng.random()
    if not only_plain and x < .25:
        pitch = rng.choice([0, 1, 60, 69, 127, rng.randint(0, 127)])
        args = [pitch] if rng.random() < .3 else [pitch, rng.choice([0., 1., .5, rng.random(), 1, 0])]
        kw = {} if len(args) < 2 or rng.random() < .5 else {'frequency': rng.choice([440., 0., 123.456, 8.1757989156, 441, rng.uniform(1, 2e4)])}
        return {'kind': 'note', 'args': args, 'kw': kw}
    if not only_plain and x < .5:
        shape = rng.choice([[], [0], [1], [3], [256], [2, 3], [2, 256], [3, 1], [1, 4], [2, 2, 3], [500], [0, 4], [2, 0]])
        return {'kind': 'array', 'shape': shape, 'dtype': rng.choice(['f8', 'f8', 'f4', 'i8', 'i2', 'u1', '?', '>i4', 'c16', 'U3', '>f8']),
                'seed': rng.randint(0, 250), 'how': rng.choice(['plain', 'plain', 'transposed', 'strided', 'reversed', 'readonly'])}
    if x < .6:
        return {'kind': 'float', 'hex': rng.choice(FLOATS)}
    if not only_plain and x < .65:
        return {'kind': 'plain', 'value': rng.choice(['x' * rng.choice([500, 1021, 1022, 1023, 1024, 1025, 4000, 8000]), 'é' * rng.choice([100, 170, 500, 1024])])}
    while True:
        o = plain(rng)
        if not ambiguous(o):
            return {'kind': 'plain', 'value': o}


def hexed(s):
    return (s.encode() if isinstance(s, str) else s).hex()


GARBAGE = [b'\xff\xfe\x00', b'{', b'[1, 2', b'nope', b'\x80', b'"abc', b'{"a": }', b'\x00', b'caf\xe9', b']', b'[' * 900, b'[' * 5000, b'tru', b'\xed\xa0\x80', b'{"type": "Note", "pitch": 60', b'}{', b',', b'\xff' * 1024]
WRONG = [{'type': 'Note'}, {'type': 'Note', 'pitch': 500}, {'type': 'Note', 'pitch': -1}, {'type': 'Note', 'pitch': 'x'}, {'type': 'Note', 'pitch': None}, {'type': 'Note', 'pitch': 60, 'velocity': 2}, {'type': 'Note', 'pitch': 60, 'velocity': 1, 'frequency': -4},
         {'type': 'Note', 'pitch': 60, 'bogus': 1}, {'type': 'ndarray'}, {'type': 'ndarray', 'dtype': 'zz', 'shape': [1], 'data': 'AAAA'}, {'type': 'ndarray', 'dtype': 'f8', 'shape': [2], 'data': 'AAAA'},
         {'type': 'ndarray', 'dtype': 'f8', 'shape': [99], 'data': 'AAAAAAAAAAA='}, {'type': 'ndarray', 'dtype': 'O', 'shape': [1], 'data': 'AAAAAAAAAAA='}, {'type': 'ndarray', 'dtype': 'f8', 'shape': None, 'data': 7},
         [1, {'type': 'Note'}], {'a': {'type': 'ndarray'}}]


def raw(rng, r, what):
    if what == 'many':
        objs = []
        while len(objs) < rng.randint(1, 3):
            o = thing(rng, True)
            # only texts which can be told apart without separator
            if o['kind'] == 'plain' and isinstance(o['value'], (list, dict, str)) and o['value'] not in WORDS[-1:]:
                objs.append(o)
        return {'op': 'raw', 'r': r, 'objects': objs, 'bytes': '-'}
    data = {'empty': b'', 'garbage': rng.choice(GARBAGE), 'wrong': json.dumps(rng.choice(WRONG)).encode()}[what]
    return {'op': 'raw', 'r': r, 'objects': [], 'bytes': data.hex()}


def small(rng, kinds, receiver):
    sender = rng.choice(['message', 'value'])
    cfg = {'receivers': [receiver], 'senders': [{'kind': sender, 'to': 1}], 'net': rng.choice(['unix', 'unix', 'udp'])}
    ops = []
    for k in kinds:
        if k == 'send':
            ops += [{'op': 'input', 's': 1, 'obj': thing(rng)}, {'op': 'send', 's': 1}]
        elif k == 'update':
            ops.append({'op': 'update', 'r': 1})
        else:
            ops.append(raw(rng, 1, k))
    ops += [{'op': 'update', 'r': 1}] * 2
    return {'cfg': cfg, 'ops': ops}


def history(rng, n):
    net = rng.choice(['unix', 'udp'])
    limit = 8
    receivers = [rng.choice(['message', 'value']) for _ in range(rng.randint(1, 3))]
    senders = [{'kind': rng.choice(['message', 'message', 'value']), 'to': rng.randint(1, len(receivers))} for _ in range(rng.randint(1, 3))]
    wait = [0] * (len(receivers) + 1)
    pend = [0] * (len(senders) + 1)
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < .35:
            s = rng.randint(1, len(senders))
            if senders[s - 1]['kind'] == 'message':
                if pend[s] >= limit:
                    continue
                pend[s] += 1
            else:
                pend[s] = 1
            ops.append({'op': 'input', 's': s, 'obj': thing(rng)})
        elif x < .6:
            s = rng.randint(1, len(senders))
            to = senders[s - 1]['to']
            if senders[s - 1]['kind'] == 'value' and not pend[s]:
                continue
            if wait[to] + pend[s] > limit:
                continue
            wait[to] += pend[s]
            if senders[s - 1]['kind'] == 'message':
                pend[s] = 0
            ops.append({'op': 'send', 's': s})
        elif x < .75:
            r = rng.randint(1, len(receivers))
            if wait[r] + 1 > limit:
                continue
            wait[r] += 1
            ops.append(raw(rng, r, rng.choice(['many', 'garbage', 'wrong', 'empty'])))
        elif x < .95:
            r = rng.randint(1, len(receivers))
            wait[r] = 0
            ops.append({'op': 'update', 'r': r})
        else:
            while True:
                o = thing(rng)
                if o['kind'] == 'note':
                    break
            ops.append({'op': 'note', 'obj': o})
    ops += [{'op': 'update', 'r': r + 1} for r in range(len(receivers))]
    return {'cfg': {'receivers': receivers, 'senders': senders, 'net': net}, 'ops': ops}


def large(rng):
    """One large object after the other."""
    receiver = rng.choice(['message', 'value'])
    ops = []
    for _ in range(3):
        if rng.random() < .6:
            o = {'kind': 'array', 'shape': rng.choice([[4, 512], [512, 4], [2500], [8, 256]]), 'dtype': rng.choice(['f8', 'f4', 'c16', '>i2', '?']), 'seed': rng.randint(0, 250), 'how': rng.choice(['plain', 'transposed', 'strided'])}
        else:
            o = {'kind': 'plain', 'value': rng.choice(['x' * rng.randint(1000, 60000), list(range(rng.randint(100, 9000)))])}
        ops += [{'op': 'input', 's': 1, 'obj': o}, {'op': 'send', 's': 1}, {'op': 'update', 'r': 1}]
    return {'cfg': {'receivers': [receiver], 'senders': [{'kind': rng.choice(['message', 'value']), 'to': 1}], 'net': rng.choice(['unix', 'udp'])}, 'ops': ops}


def burst(rng):
    """Many small objects waiting at the same time."""
    kind = rng.choice(['message', 'value'])
    receiver = rng.choice(['message', 'value'])
    n = rng.randint(9, 48) if 'message' in (kind, receiver) else rng.choice([20, 60, 110])  # a message queue keeps 50
    ops = []
    for i in range(n):
        o = {'kind': 'plain', 'value': rng.choice([i, 'w%d' % i, [i], {'i': i}])}
        ops.append({'op': 'input', 's': 1, 'obj': o})
        if kind == 'value' or rng.random() < .3:
            ops.append({'op': 'send', 's': 1})
        if rng.random() < .1:
            ops.append(raw(rng, 1, rng.choice(['garbage', 'wrong', 'empty'])))
    ops += [{'op': 'send', 's': 1}, {'op': 'update', 'r': 1}, {'op': 'update', 'r': 1}]
    return {'cfg': {'receivers': [receiver], 'senders': [{'kind': kind, 'to': 1}], 'net': 'udp'}, 'ops': ops}


def run(ctx):
    ctx.design('NetworkDesign', DESIGN % (5 if ctx.thorough else 4), label='network', min_states=500, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('NetworkGen', GEN % (5 if ctx.thorough else 4), label='datagrams waiting')
    scns = []
    for s in found:
        scns.append(small(rng, s['ops'], 'message'))
        scns.append(small(rng, s['ops'], 'value'))
    for _ in range(3000 if ctx.thorough else 400):
        scns.append(history(rng, rng.choice([10, 30, 60])))
    scns += [large(rng) for _ in range(200 if ctx.thorough else 40)]
    scns += [burst(rng) for _ in range(300 if ctx.thorough else 60)]
    ctx.conform('d_network', 'NetworkTrace', scns, native=False)
