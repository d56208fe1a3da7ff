"""Arpeggios and arpeggiators."""
from fractions import Fraction

import dlib
from dlib import Recorder, Bad
from notes import Source, Sink, note, encode
from klang.arpeggiator import Arpeggio, Arpeggiator
from klang.audio.helpers import INTERVAL


def run(scn):
    cfg = scn['cfg']
    rec = Recorder()
    first = [op['note'] for op in scn['ops'][:cfg.get('initial', 0)]]
    kw = {'initialNotes': [note(n) for n in first]} if first else {}
    if cfg['kind'] == 'arpeggio':
        arp = Arpeggio(cfg['order'], **kw) if cfg['order'] != 'up' or first else Arpeggio()
    else:
        # step/turn of a turn per buffer
        interval = INTERVAL * cfg['turn'] / cfg['step']
        if cfg.get('value'):
            # as a note value: a quarter lasts half a second
            interval = Fraction(256 * cfg['turn'], 44100 * cfg['step']) / 2
        block = Arpeggiator(interval, cfg['order'], **kw)
        arp = block.arpeggio
        source, sink = Source(block.input), Sink(block.output)

    def seen(ev):
        ev['len'] = len(arp)
        ev['notes'] = [encode(arp[i]) for i in range(len(arp))]
        return ev

    for k, op in enumerate(scn['ops']):
        def step():
            ev = dict(op)
            if op['op'] == 'add':
                if k >= len(first):
                    arp.add_note(note(op['note']))
                elif k < len(first) - 1:
                    return None
                return seen(ev)
            if op['op'] == 'remove':
                ev['ok'] = True
                try:
                    arp.remove_note(note(op['note']))
                except ValueError:
                    ev['ok'] = False
                return seen(ev)
            if op['op'] == 'next':
                try:
                    ev['note'], ev['empty'] = encode(next(arp)), False
                except StopIteration:
                    ev['empty'] = True
                return seen(ev)
            if op['op'] == 'contains':
                ev['yes'] = note(op['note']) in arp
                return ev
            if op['op'] == 'rate':
                block.phasor.frequency.set_value(op['step'] / cfg['turn'] / INTERVAL)
                return ev
            source.send(op['ins'])
            block.update()
            ev['outs'] = sink.take()
            return ev
        rec.step(step)
    # the initial notes were added at once
    if first:
        last = rec.ev[len(first) - 1] if len(rec.ev) >= len(first) else {'op': 'BAD'}
        head = []
        if last.get('op') == 'add':
            head = [dict(op='initial', ins=first, len=last['len'], notes=last['notes'])]
        rec.ev = head + rec.ev[len(first):] if head else [e for e in rec.ev if e]
    return {'cfg': cfg, 'ev': rec.ev}


if __name__ == '__main__':
    dlib.main(run)
