"""C38: blocks do not influence each other but through their connections."""
import concurrent.futures
import importlib
import random

from vf import core

PROPERTY = 'C38'
LEVEL = 'model_checking'
ASSUMPTIONS = ['operations of two blocks take turns as a whole (klang updates blocks one after the other)',
               'the specifications of the single blocks are those of C06-C17, C19, C23-C30, C33 and C36, with their assumptions',
               'the clock is shared on purpose: it is set before each operation which looks at it']
KINDS = ['c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c19', 'c23', 'c24', 'c25', 'c26', 'c27', 'c28', 'c29', 'c30', 'c33', 'c36']

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 Blocks = %d
 MaxOps = %d
INVARIANT AsIfAlone
PROPERTY OthersStay
'''
GEN = '''SPECIFICATION GSpec
CONSTANT Length = %d
ACTION_CONSTRAINT Emit
'''


class Collect:
    """Stands in for the context of another check: only takes its scenarios."""

    def __init__(self, ctx, name):
        self.ctx, self.thorough, self.seed = ctx, False, ctx.seed
        self.rng = random.Random('%s-%s-%d' % (ctx.prop, name, ctx.seed))
        self.found = []

    def design(self, *args, **kw):
        pass

    def log(self, *args):
        pass

    def generate(self, module, cfg, *, label=None, limit=None, **kw):
        scns = self.ctx.generate(module, cfg, label=label, **kw)
        return self.rng.sample(scns, limit) if limit and len(scns) > limit else scns

    def conform(self, driver, module, scns, constants='', **kw):
        # not the longest ones
        some = self.rng.sample(scns, min(len(scns), 400))
        some.sort(key=lambda s: len(s.get('ops', ())))
        self.found.append((driver, module, constants, some[:300]))


def run(ctx):
    ctx.design('IsolationDesign', DESIGN % ((3, 6) if ctx.thorough else (2, 6)), label='blocks side by side', min_states=1000)
    turns = [s['turns'] for s in ctx.generate('IsolationGen', GEN % 7, label='turns')]

    def collect(name):
        c = Collect(ctx, name)
        importlib.import_module('checks.' + name).run(c)
        return c.found
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        kinds = [k for found in ex.map(collect, KINDS) for k in found]
    rng = ctx.rng
    scns, judged = [], []
    for driver, module, constants, some in kinds:
        for _ in range(600 if ctx.thorough else 50):
            other = (driver, module, constants, some) if rng.random() < .75 else rng.choice(kinds)
            judge = rng.randint(0, 1)
            pair = [rng.choice(some), rng.choice(other[3])]
            drivers = [driver, other[0]]
            if judge:
                pair.reverse()
                drivers.reverse()
            scns.append({'drivers': drivers, 'scns': pair, 'turns': rng.choice(turns), 'judge': judge})
            judged.append((module, constants))
    traces = ctx.drive('d_pair', scns, timeout=800)

    def validate(kind):
        mine = [i for i, j in enumerate(judged) if j == kind]
        ctx.validate(kind[0], [traces[i] for i in mine], scenarios=[scns[i] for i in mine], constants=kind[1])
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        list(ex.map(validate, sorted(set(judged))))
