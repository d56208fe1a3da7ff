"""Message mixers, fed by outputs, relays or directly."""
import dlib
from dlib import Recorder, Bad
from klang.connections import MessageInput, MessageOutput, MessageRelay
from klang.messages import Note
from klang.note_effects import MessageMixer


class Thing:
    """Equal to every other thing."""
    def __eq__(self, other):
        return isinstance(other, Thing)
    __hash__ = None


SINGLE = [None, 0, False, '']
FRESH = [lambda: Note(60, 1.), lambda: Note(60, 0.), lambda: [], dict, Thing, lambda: Note(0, 1.)]


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    mixer = MessageMixer() if cfg.get('default') else MessageMixer(nInputs=cfg['inputs'])
    ears = [MessageInput() for _ in range(cfg['ears'])]
    for e in ears:
        mixer.output.connect(e)
    sources = {}
    # a message is what was sent, and its number
    sent = []

    def feed(i, msgs):
        inp = mixer.inputs[i]
        if cfg['feed'] == 'push':
            for m in msgs:
                inp.push(m)
            return
        if i not in sources:
            out = MessageOutput()
            dst = inp
            if cfg['feed'] == 'relay':
                dst = MessageRelay()
                dst.connect(inp)
            out.connect(dst)
            sources[i] = out
        for m in msgs:
            sources[i].send(m)

    def name(m, taken):
        for k, x in enumerate(sent):
            if x is m and k not in taken:
                taken.add(k)
                return k + 1
        raise Bad('never sent, or sent already: %r' % (m,))

    taken, used = set(), set()
    for op in scn['ops']:
        def step():
            k = op['op']
            ev = {'op': k}
            if k == 'arrive':
                msgs = []
                for x in op['kinds']:
                    # there is but one of these, each is sent once
                    if x < 0 and x not in used:
                        used.add(x)
                        msgs.append(SINGLE[-1 - x])
                    else:
                        msgs.append(FRESH[x % len(FRESH)]())
                ev.update(i=op['i'], ms=list(range(len(sent) + 1, len(sent) + 1 + len(msgs))))
                sent.extend(msgs)
                feed(op['i'] - 1, msgs)
            elif k == 'widen':
                mixer.add_new_channel()
            else:
                mixer.update()
                ev['inputs'] = len(mixer.inputs)
            got = [list(e.receive()) for e in ears]
            for g in got[1:]:
                if len(g) != len(got[0]) or any(a is not b for a, b in zip(g, got[0])):
                    raise Bad('receivers got different messages')
            ev['outs'] = [name(m, taken) for m in got[0]]
            return ev
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
