"""Gates and samples envelopes: the native one, the Python one and the blocks."""
import copy

import numpy as np

import dlib
from dlib import Recorder, Bad
from klang.audio._envelope import Envelope as CEnvelope
from klang.audio.envelope import Envelope as PyEnvelope
from klang.audio import envelopes
from klang.block import Block
from klang.config import BUFFER_SIZE
from klang.messages import Note

U = 20000


def levels(y, n):
    y = np.asarray(y)
    if y.shape != (n,):
        raise Bad('shape %r instead of %r' % (y.shape, (n,)))
    v = y.astype(float)
    if not np.isfinite(v).all() or v.min(initial=0) < -1e-9 or v.max(initial=0) > 1 + 1e-9:
        raise Bad('level outside [0, 1]: %r..%r' % (v.min(), v.max()))
    return [int(i) for i in np.round(v * U)]


def make(c):
    impl = c['impl']
    kw = {'overshoot': c['overshoot'], 'retrigger': c['p']['retrigger'], 'loop': c['p']['loop']}
    a, d, s, r = c['attack'], c['decay'], c['sustain'], c['release']
    if impl in ('c', 'py'):
        return {'c': CEnvelope, 'py': PyEnvelope}[impl](a, d, s, r, c['dt'], **kw)
    cls = getattr(envelopes, impl)
    if impl == 'ADSR':
        return cls(a, d, s, r, **kw)
    if impl == 'AR':
        return cls(a, r, **kw)
    return cls(d if impl == 'D' else r, **kw)


def run(scn):
    cfg = scn['cfg']
    env = make(cfg)
    source = None
    block = isinstance(env, Block)
    if block:
        if cfg.get('copied'):
            env.gate(True)
            env.sample(100)
            env = copy.deepcopy(env)
        source = Block()
        from klang.connections import MessageOutput
        source.outputs = [MessageOutput(owner=source)]
        source.output.connect(env.trigger)
    rec = Recorder()

    for op in scn['ops']:
        def step():
            ev = dict(op)
            if op['op'] == 'gate':
                env.gate(op['on'])
            elif op['op'] == 'sample':
                ev['y'] = levels(env.sample(op['n']), op['n'])
            elif op['op'] == 'update':
                for i, on in enumerate(op['notes']):
                    source.output.send(Note(60 + i, velocity=(.5 if on else 0.)))
                env.update()
                ev['n'] = BUFFER_SIZE
                ev['y'] = levels(env.output.value, BUFFER_SIZE)
                ev['level'] = dlib.rounded(env.current_level, U)
            elif op['op'] == 'times':
                setattr(env, op['what'], op['value'])
                ev = {'op': 'times', 'p': op['p']}
            if op['op'] != 'times':
                a = env.active
                if not isinstance(a, (bool, np.bool_)):
                    raise Bad('active is %r' % (a,))
                ev['active'] = bool(a)
            return ev
        rec.step(step)
    return {'cfg': {'p': cfg['p']}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
