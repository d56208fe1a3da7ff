"""C17: the audio file transport plays, pauses, stops and rewinds without losing frames."""
PROPERTY = 'C17'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the linear resampler of the samplerate library is one frame late; sinc resamplers are not compared',
               'the position is compared for files played frame by frame only',
               'files have at least 8 frames']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 B = 3
 MaxHeard = %d
INVARIANTS NoFrameLost StandsStill Within Ends
'''
GEN = '''SPECIFICATION GSpec
CONSTANT MaxOps = %d
ACTION_CONSTRAINT Emit
'''


def file(rng):
    length = rng.choice([8, 100, 255, 256, 257, 300, 512, 700, 768, 1000])
    p, q = rng.choice([(1, 1), (1, 1), (1, 1), (1, 2), (2, 1)])
    mode = rng.choice(['linear', 'linear', 'crude', 'very_crude']) if p == q else rng.choice(['linear', 'very_crude'])
    start, stop = (0, length) if rng.random() < .75 else sorted(rng.sample(range(0, length + 1, 2), 2))
    if stop - start < 8:
        start, stop = 0, length
    if p != q:
        length, start, stop = [2 * x for x in (length, start, stop)]
    channels = rng.choice([1, 1, 2, 2, 2, 3])
    mono = rng.random() < .3
    if mono and rng.random() < .3:
        channels = rng.choice([3, 4])
    if mono and q == 2:
        mode = 'very_crude'
    if (stop - start) % 256 == 1 and mode == 'linear':
        mode = 'very_crude'     # the samplerate library reads past the end of single frames
    return {'len': length, 'start': start, 'stop': stop, 'loop': rng.random() < .15, 'channels': channels,
            'mono': mono, 'mode': mode, 'p': p, 'q': q, 'speed': rng.choice([1, 1, 1, 2, .5, 1.5, 4]) if p == q else 1, 'path': rng.random() < .1}


def long(rng):
    ops = ['play']
    for _ in range(rng.randint(3, 12)):
        ops += rng.choice([['update'], ['update', 'update'], ['update'] * 4, ['pause'], ['pause', 'update', 'play'], ['play'], ['rewind'], ['stop'], ['stop', 'play']])
    return ops


def run(ctx):
    ctx.design('AudioFileDesign', DESIGN % (16 if ctx.thorough else 10), label='transport', min_states=20, timeout=900, workers=6)
    rng = ctx.rng
    found = ctx.generate('AudioFileGen', GEN % (6 if ctx.thorough else 5), label='controls')
    found = [s['ops'] for s in found if 'update' in s['ops'] and 'play' in s['ops']]
    if not ctx.thorough:
        found = rng.sample(found, min(len(found), 700))
    scns = [{'cfg': file(rng), 'ops': ops} for ops in found]
    for _ in range(1500 if ctx.thorough else 250):
        scns.append({'cfg': file(rng), 'ops': long(rng)})
    for _ in range(60 if ctx.thorough else 10):       # files of more than a second
        cfg = file(rng)
        start = 2 * rng.randint(32000, 32700)
        scns.append({'cfg': dict(cfg, len=70000, start=start, stop=start + 2 * rng.choice([256, 300, 700])), 'ops': long(rng)})
    ctx.conform('d_audiofile', 'AudioFileTrace', scns, native=False)
