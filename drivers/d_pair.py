"""Two scenarios of other drivers at the same time, taking turns operation by
operation as scheduled. The trace is that of one of them."""
import importlib
import os
import sys
import threading

import dlib
from klang.block import Block

Plain = dlib.Recorder
local = threading.local()


class Turns:
    def __init__(self, schedule):
        self.schedule, self.k = schedule, 0
        self.done = [False, False]
        self.cond = threading.Condition()

    def turn(self):
        i = self.schedule[self.k % len(self.schedule)]
        return 1 - i if self.done[i] else i

    def wait(self, me):
        with self.cond:
            while self.turn() != me:
                self.cond.wait()

    def next(self):
        with self.cond:
            self.k += 1
            self.cond.notify_all()

    def finish(self, me):
        with self.cond:
            self.done[me] = True
            self.cond.notify_all()


class Recorder(Plain):
    def step(self, func):
        turns = getattr(local, 'turns', None)
        if turns is None:
            return super().step(func)
        turns.next()
        turns.wait(local.me)
        super().step(func)


dlib.Recorder = Recorder
HERE = os.path.dirname(os.path.abspath(__file__))
wrapped = set()


def interrupt(cls):
    """After each update of a block by a driver it is the other one's turn, the
    results are fetched later."""
    for sub in cls.__subclasses__():
        interrupt(sub)
    if cls in wrapped or not cls.__module__.startswith('klang.') or 'update' not in cls.__dict__:
        return
    wrapped.add(cls)
    update = cls.update

    def then_wait(self, *args, **kw):
        ret = update(self, *args, **kw)
        turns = getattr(local, 'turns', None)
        if turns is not None and sys._getframe(1).f_code.co_filename.startswith(HERE):
            turns.next()
            turns.wait(local.me)
        return ret
    cls.update = then_wait


def run(scn):
    turns = Turns(scn['turns'])
    traces = [None, None]

    def play(i):
        local.turns, local.me = turns, i
        turns.wait(i)
        try:
            traces[i] = importlib.import_module(scn['drivers'][i]).run(scn['scns'][i])
        except dlib.Bad as err:
            traces[i] = {'cfg': scn['scns'][i].get('cfg', {}), 'ev': [{'op': 'BAD', 'why': dlib.text(err)}]}
        except Exception as err:
            traces[i] = {'cfg': scn['scns'][i].get('cfg', {}), 'ev': [{'op': 'BAD', 'why': dlib.text('%s: %s' % (type(err).__name__, err))}]}
        finally:
            turns.finish(i)

    for d in scn['drivers']:
        importlib.import_module(d)
    interrupt(Block)
    threads = [threading.Thread(target=play, args=(i,), daemon=True) for i in (0, 1)]
    for t in threads:
        t.start()
    for t in threads:
        while t.is_alive():
            t.join(.05)
    return traces[scn['judge']]


if __name__ == '__main__':
    dlib.main(run)
