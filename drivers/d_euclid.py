"""Euclidean rhythms. The caller may keep, read and change what it gets."""
import dlib
from dlib import Recorder, Bad
from klang.music.rhythm import euclidian_rhythm


def run(scn):
    rec = Recorder()
    held = []
    for op in scn['ops']:
        def step():
            r = euclidian_rhythm(op['p'], op['n']) if not op.get('kw') else euclidian_rhythm(nPulses=op['p'], nSlots=op['n'])
            out = [dlib.integer(x) for x in r]
            if isinstance(r, list):
                if op['then'] == 'clear':
                    r.clear()
                elif op['then'] == 'reverse':
                    r.reverse()
                elif op['then'] == 'extend':
                    r.extend([1, 0])
                elif op['then'] == 'set':
                    r[:] = [1 - x for x in r]
            held.append(r)
            return {'op': 'rhythm', 'p': op['p'], 'n': op['n'], 'out': out}
        rec.step(step)
    return {'cfg': {}, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
