"""Library of the PyPy drivers. A driver defines run(scenario) -> trace, where
trace = {'cfg': {...}, 'ev': [...]}; every exception of the code under test is
part of the observation, never an error of the driver."""
import json
import logging
import os
import resource
import signal
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Bad(Exception):
    """An observation that can not be encoded (not a number, wrong shape, ...)."""


def integer(x, scale=1):
    """Exact integer observation; anything else is a Bad observation."""
    try:
        y = float(x) * scale
    except Exception as err:
        raise Bad('not a number: %r' % (x,)) from err
    if y != y or y in (float('inf'), float('-inf')):
        raise Bad('not finite: %r' % (x,))
    i = int(round(y))
    if i != y:
        raise Bad('not on the grid: %r' % (x,))
    if abs(i) >= 2 ** 31:
        raise Bad('out of range: %r' % (x,))
    return i


def rounded(x, scale=1):
    """Nearest integer of scale*x."""
    try:
        y = float(x) * scale
    except Exception as err:
        raise Bad('not a number: %r' % (x,)) from err
    if y != y or abs(y) >= 2 ** 31 - 1:
        raise Bad('not finite: %r' % (x,))
    return int(round(y))


def integers(xs, scale=1):
    import numpy as np
    arr = np.asarray(xs)
    if arr.ndim != 1:
        raise Bad('not one-dimensional: shape %r' % (arr.shape,))
    return [integer(v, scale) for v in arr.tolist()]


def text(s, n=200):
    return ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '?' for c in str(s))[:n]


def clean(x):
    """Observations without counterpart in TLA+ as texts, which no specification expects."""
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if x is None:
        return 'null'
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return 'not finite'
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) >= 2 ** 31:
        return 'out of range'
    return x


class Recorder:
    """Collects events; op() runs one call on the code under test."""

    def __init__(self):
        self.ev = []
        self.dead = False

    def add(self, **kw):
        self.ev.append(kw)

    def step(self, func):
        """func() -> event dict. Exceptions become BAD events which no action
        of a specification explains."""
        if self.dead:
            return
        try:
            self.ev.append(func())
        except Bad as err:
            self.ev.append({'op': 'BAD', 'why': text(err)})
            self.dead = True
        except Exception as err:    # escaped from the code under test
            tb = traceback.extract_tb(err.__traceback__)
            where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
            self.ev.append({'op': 'BAD', 'why': text('%s: %s (%s)' % (type(err).__name__, err, where))})
            self.dead = True


def main(run, budget=45):
    inp, outp = sys.argv[1:3]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(5000)
    signal.signal(signal.SIGALRM, _alarm)
    with open(inp) as f, open(outp, 'w') as out:
        for line in f:
            scn = json.loads(line)
            signal.alarm(budget)
            try:
                trace = run(scn)
            except Hang:
                trace = {'cfg': scn.get('cfg', {}), 'ev': [{'op': 'BAD', 'why': 'did not finish'}], 'hang': 1}
            except Bad as err:
                trace = {'cfg': scn.get('cfg', {}), 'ev': [{'op': 'BAD', 'why': text(err)}]}
            except MemoryError:
                trace = {'cfg': scn.get('cfg', {}), 'ev': [{'op': 'BAD', 'why': 'out of memory'}], 'hang': 1}
            except RecursionError as err:
                trace = {'cfg': scn.get('cfg', {}), 'ev': [{'op': 'BAD', 'why': 'recursion'}]}
            except Exception as err:
                traceback.print_exc()
                trace = {'cfg': scn.get('cfg', {}), 'ev': [{'op': 'BAD', 'why': text('%s: %s' % (type(err).__name__, err))}]}
            finally:
                signal.alarm(0)
            trace.setdefault('cfg', {})
            out.write(json.dumps(clean(trace)) + '\n')
            out.flush()
            if 'hang' in trace:
                os._exit(4)
