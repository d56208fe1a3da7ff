"""Note lengtheners and limiters."""
import dlib
from dlib import Recorder
from notes import Source, Sink
from klang.clock import ClockMixin
from klang.note_effects import NoteLengthener, MaxNotes


def run(scn):
    cfg = scn['cfg']
    tick = cfg.get('tick', 1)
    if cfg['kind'] == 'lengthener':
        blocks = [NoteLengthener(d / tick) for d in cfg['durations']]
    else:
        blocks = [MaxNotes(m) if m > 1 or i % 2 else MaxNotes() for i, m in enumerate(cfg['max'])]
    sources = [Source(b.input) for b in blocks]
    sinks = [Sink(b.output) for b in blocks]
    rec = Recorder()
    for op in scn['ops']:
        def step():
            i = op['b'] - 1
            if op['op'] == 'duration':
                blocks[i].duration = op['v'] / tick
                return op
            if op['op'] == 'max':
                blocks[i].nNotes = op['v']
                return op
            if 'now' in op:
                ClockMixin.set_current_time(op['now'] / tick)
            sources[i].send(op['ins'])
            before = sinks[i].take()
            if before:
                raise dlib.Bad('sent before the update')
            blocks[i].update()
            return dict(op, outs=sinks[i].take())
        rec.step(step)
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
