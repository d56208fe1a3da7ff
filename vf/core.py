"""Common machinery of the checks: building the code under test in a scratch
directory, running TLC, running the PyPy drivers, verdicts and evidence.

A check module (checks/<id>.py) defines PROPERTY, LEVEL and run(ctx).
"""
import concurrent.futures
import itertools
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KLANG_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'drivers')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
PYPY = '/opt/pypyvenv/bin/pypy3'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The check itself failed (no verdict about the code)."""


class Violation(Exception):
    """The code under test breaks the property."""

    def __init__(self, what, detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


def big_stack_env():
    return {}


class Ctx:
    def __init__(self, prop, level, tier, seed):
        self.prop = prop
        self.level = level
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s-%d' % (prop, seed))
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'events_validated': 0,
                    'tlc_runs': [], 'samples': []}
        self.known = []
        self.assumptions = []
        self.built = None
        self.counter = itertools.count(1)
        self._known_cache = None

    # -- scratch ----------------------------------------------------------
    def path(self, name):
        return os.path.join(self.scratch, '%02d-%s' % (next(self.counter), name))

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *args):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *args, flush=True)

    # -- code under test --------------------------------------------------
    def env(self, repo):
        return {
            'PATH': '/opt/pypyvenv/bin:/usr/bin:/bin',
            'HOME': self.scratch, 'TMPDIR': self.scratch,
            'PYTHONPATH': repo + ':' + DRIVERS,
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
            'PYTHONNOUSERSITE': '1', 'PYNPUT_BACKEND': 'dummy',
            'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
            'OMP_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
            'KLANG_UNDER_TEST': repo,
        }

    def build(self, native=True):
        """Copy the working tree of the repository and build its extensions."""
        if self.built:
            return self.built
        dst = os.path.join(self.scratch, 'repo')
        os.makedirs(dst)
        for name in os.listdir(REPO):
            if name in ('.git', 'build', 'tests', 'examples', '.eggs'):
                continue
            src = os.path.join(REPO, name)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(dst, name), symlinks=True,
                                ignore=shutil.ignore_patterns('*.so', '__pycache__', 'samples', '*.o'))
            else:
                shutil.copy2(src, dst)
        if native:
            r = subprocess.run([PYPY, 'setup.py', 'build_ext', '--inplace', '--force'],
                               cwd=dst, env=self.env(dst), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=300)
            audio = os.path.join(dst, 'klang', 'audio')
            sos = [f for f in os.listdir(audio) if f.endswith('.so')]
            if r.returncode or 'Failed to built C-extensions' in r.stdout or len(sos) < 2:
                raise MachineryError('building the C extensions failed:\n' + r.stdout[-3000:])
        self.built = dst
        return dst

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, *, workers=4, env=None, extra=(), timeout=600,
            label=None, deadlock=True, heap='4g'):
        """Run TLC on spec/<module>.tla. cfg: text of the configuration.
        Returns dict(ok, out, states, distinct, error)."""
        work = self.path('tlc')
        os.makedirs(work)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        cfgpath = os.path.join(work, 'run.cfg')
        with open(cfgpath, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-cp', TLA_CP,
               '-Dtlc2.TLC.stopAfter=%d' % timeout, '-Djava.io.tmpdir=' + work,
               'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
               '-noGenerateSpecTE', '-config', cfgpath]
        if not deadlock:
            cmd.append('-deadlock')
        cmd += list(extra)
        cmd.append(os.path.join(work, module + '.tla'))
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        e['TMPDIR'] = self.scratch
        outpath = os.path.join(work, 'out.txt')
        t0 = time.time()
        with open(outpath, 'w') as out:
            p = subprocess.Popen(cmd, cwd=work, env=e, stdout=out, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        with open(outpath) as f:
            text = f.read()
        gen = dist = 0
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
        if m:
            gen, dist = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', text)
            if m:
                gen = int(m[-1].replace(',', ''))
        shutil.rmtree(os.path.join(work, 'meta'), ignore_errors=True)
        res = {'rc': rc, 'out': text, 'generated': gen, 'distinct': dist,
               'ok': rc == 0 and ('No error has been found' in text or 'Finished in' in text and 'Error:' not in text),
               'wall': time.time() - t0, 'timeout': rc == -9, 'work': work}
        self.cov['tlc_runs'].append({'what': label or module, 'generated': gen,
                                     'distinct': dist, 'wall_s': round(res['wall'], 2)})
        return res

    def design(self, module, cfg, *, label=None, timeout=600, workers=4, min_states=1, extra=(), heap='4g', deadlock=False):
        """Check the design specification exhaustively within the constants of
        cfg. An error here is an error of the specification (it does not look
        at the code), hence a machinery error."""
        r = self.tlc(module, cfg, label='design: ' + (label or module), timeout=timeout,
                     workers=workers, deadlock=deadlock, extra=extra, heap=heap)
        if not r['ok']:
            raise MachineryError('design check of %s failed (rc %s):\n%s' % (module, r['rc'], r['out'][-4000:]))
        if r['distinct'] < min_states:
            raise MachineryError('design check of %s is vacuous: %d states' % (module, r['distinct']))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        self.log('design %s: %d distinct states, %d transitions, %.1fs'
                 % (label or module, r['distinct'], r['generated'], r['wall']))
        return r

    def generate(self, module, cfg, *, label=None, timeout=600, extra=(), simulate=None, depth=None,
                 count=True, limit=None):
        """Let TLC enumerate scenarios: every line 'SCN <json>' it prints."""
        ex = list(extra)
        if simulate:
            ex += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed), '-aril', '0']
        r = self.tlc(module, cfg, label='generate: ' + (label or module), timeout=timeout,
                     workers=1, deadlock=False, extra=ex)
        if not r['ok']:
            raise MachineryError('generation with %s failed (rc %s):\n%s' % (module, r['rc'], r['out'][-4000:]))
        scns = []
        seen = set()
        for line in r['out'].splitlines():
            if line.startswith('"SCN '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    scns.append(json.loads(s))
        if not scns:
            raise MachineryError('no scenarios generated by ' + module)
        if count and not simulate:
            self.cov['states'] += r['distinct']
            self.cov['transitions'] += r['generated']
        self.log('generate %s: %d scenarios, %.1fs' % (label or module, len(scns), r['wall']))
        if limit and len(scns) > limit:
            scns = self.rng.sample(scns, limit)
        return scns

    # -- driver -----------------------------------------------------------
    def drive(self, driver, scenarios, *, timeout=300, shards=None, args=(), native=True):
        """Run scenarios on the real code. Returns list of traces (dicts with
        'cfg' and 'ev'), one per scenario."""
        repo = self.build(native)
        if shards is None:
            shards = 1 if len(scenarios) < 200 else min(6, 1 + len(scenarios) // 400)
        chunks = [scenarios[i::shards] for i in range(shards)]

        def one(i):
            inp, outp = self.path('scn.ndjson'), self.path('trace.ndjson')
            with open(inp, 'w') as f:
                for s in chunks[i]:
                    f.write(json.dumps(s) + '\n')
            work = self.path('work')
            os.makedirs(work)
            env = self.env(repo)
            env['VF_SEED'] = str(self.seed)
            err = outp + '.err'
            with open(err, 'w') as ef:
                p = subprocess.Popen([PYPY, os.path.join(DRIVERS, driver + '.py'), inp, outp] + list(args),
                                     cwd=work, env=env, stdout=ef, stderr=subprocess.STDOUT,
                                     start_new_session=True)
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = -9
            traces = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if line.endswith('\n'):
                            traces.append(json.loads(line))
            return rc, traces, chunks[i], open(err).read()

        results = [None] * len(scenarios)
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            outs = list(ex.map(one, range(shards)))
        for i, (rc, traces, chunk, err) in enumerate(outs):
            if rc != 0:
                if rc == 3:
                    raise MachineryError('driver %s failed:\n%s' % (driver, err[-3000:]))
                # crash or hang of the interpreter while running the code
                n = len(traces) - (rc == 4)
                scn = chunk[n] if n < len(chunk) else None
                raise Violation('the code crashed or hung (driver exit %s)' % rc,
                                {'scenario': scn, 'stderr': err[-3000:]})
            if len(traces) != len(chunk):
                raise MachineryError('driver %s wrote %d of %d traces:\n%s' % (driver, len(traces), len(chunk), err[-2000:]))
            for j, t in enumerate(traces):
                results[i + j * shards] = t
        self.log('driver %s: %d scenarios, %d events' % (driver, len(results), sum(len(t['ev']) for t in results)))
        return results

    # -- trace validation -------------------------------------------------
    def validate(self, module, traces, cfg='', *, scenarios=None, label=None, timeout=600, shards=None, heap='3g',
                 spec='TraceSpec', constants=''):
        """Validate all traces against the trace specification with TLC. The
        specification must deadlock exactly where a trace is not explained."""
        n = len(traces)
        events = sum(len(t['ev']) for t in traces)
        for k, tr in enumerate(traces):
            # Failed before the first event: there may be no initial state to
            # start from, and no specification has an action for it.
            if tr['ev'] and tr['ev'][0]['op'] == 'BAD':
                raise Violation('the recorded behaviour is not allowed by %s: %s' % (module, tr['ev'][0].get('why')),
                                {'event_index': 1, 'event': tr['ev'][0], 'scenario': scenarios[k] if scenarios else None,
                                 'cfg': tr.get('cfg'), 'events_before': []})
        if shards is None:
            shards = 1 if events < 3000 else min(4, 1 + events // 10000)
        idx = [list(range(i, n, shards)) for i in range(shards)]
        text = 'SPECIFICATION %s\nCHECK_DEADLOCK TRUE\n%s\n%s\n' % (spec, constants, cfg)

        def one(i):
            path = self.path('validate.ndjson')
            with open(path, 'w') as f:
                for k in idx[i]:
                    f.write(json.dumps(traces[k]) + '\n')
            return self.tlc(module, text, env={'VF_TRACES': path}, workers=2, deadlock=True,
                            label='validate: ' + (label or module), timeout=timeout, heap=heap)

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        for i, r in enumerate(rs):
            if r['ok']:
                continue
            out = r['out']
            if r['timeout']:
                raise MachineryError('trace validation with %s timed out' % module)
            ts = re.findall(r'^/\\ t = (\d+)', out, re.M)
            ls = re.findall(r'^/\\ l = (\d+)', out, re.M)
            if not ts or 'OutOfMemory' in out or 'Java heap' in out:
                raise MachineryError('trace validation with %s failed (rc %s):\n%s' % (module, r['rc'], out[-4000:]))
            t, l = int(ts[-1]), int(ls[-1])
            k = idx[i][t - 1]
            tr = traces[k]
            ev = tr['ev'][l - 1] if 0 < l <= len(tr['ev']) else None
            states = out.split('\nState ')
            m = re.search(r'Error: (.*)', out)
            kind = m.group(1) if m else ''
            why = ('event %d of the recorded behaviour is not allowed by %s in this state' % (l, module)
                   if 'Deadlock' in out else 'specification %s: %s' % (module, kind))
            raise Violation(why, {'event_index': l, 'event': ev,
                                  'scenario': scenarios[k] if scenarios else None,
                                  'cfg': tr.get('cfg'), 'events_before': tr['ev'][:l - 1],
                                  'spec_state': states[-1][:4000] if len(states) > 1 else out[-4000:]})
        tot = sum(r['distinct'] for r in rs)
        if tot < n + events:
            raise MachineryError('trace validation with %s visited %d states for %d events of %d traces'
                                 % (module, tot, events, n))
        self.cov['traces_validated_against_impl'] += n
        self.cov['events_validated'] += events
        if traces and len(self.cov['samples']) < 4:
            t = min(traces[:50], key=lambda t: abs(len(t['ev']) - 6))
            s = json.dumps({'spec': module, 'cfg': t.get('cfg'), 'ev': t['ev'][:6]})
            self.cov['samples'].append(json.loads(s) if len(s) < 6000 else s[:6000])
        self.log('validate %s: %d traces, %d events accepted, %.1fs'
                 % (label or module, n, events, max(r['wall'] for r in rs)))

    def conform(self, driver, module, scenarios, *, label=None, native=True, constants='', timeout=300, vtimeout=600, shards=None, vshards=None, heap='3g'):
        """Scenarios -> real code -> trace validation."""
        traces = self.drive(driver, scenarios, native=native, timeout=timeout, shards=shards)
        self.validate(module, traces, scenarios=scenarios, label=label, constants=constants, timeout=vtimeout, shards=vshards, heap=heap)
        return traces

    # -- known findings ---------------------------------------------------
    def findings(self):
        if self._known_cache is None:
            self._known_cache = []
            if os.path.exists(KNOWN):
                for line in open(KNOWN):
                    line = line.strip()
                    if line.startswith('{'):
                        d = json.loads(line)
                        if d.get('property') == self.prop and d.get('status') == 'known':
                            self._known_cache.append(d)
        return self._known_cache

    def known_finding(self, key, check):
        """Run check() expected to raise Violation for the listed finding key."""
        listed = [d for d in self.findings() if d['key'] == key]
        try:
            check()
        except Violation:
            if not listed:
                raise
            for d in listed:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, d['what']), flush=True)
            self.known.append(key)

    # -- evidence ---------------------------------------------------------
    def evidence(self, violations):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': violations}
        if self.known:
            cov['known_findings'] = self.known
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')


def main(module):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(module.PROPERTY, getattr(module, 'LEVEL', 'model_checking'), tier, seed)
    ctx.assumptions = list(getattr(module, 'ASSUMPTIONS', []))
    rc = 2
    try:
        module.run(ctx)
        ctx.evidence(0)
        ctx.log('property holds on everything explored')
        rc = 0
    except Violation as v:
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % ctx.prop)
        with open(path, 'w') as f:
            json.dump({'property': ctx.prop, 'what': v.what, 'detail': v.detail, 'seed': seed, 'tier': tier}, f, indent=1)
            f.write('\n')
        ctx.evidence(1)
        print('violated: %s' % v.what)
        d = v.detail
        if isinstance(d, dict):
            print('  event: %s' % json.dumps(d.get('event'))[:1500])
            print('  scenario: %s' % json.dumps(d.get('scenario'))[:1500])
            if d.get('stderr'):
                print(d['stderr'][-1500:])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
        rc = 1
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e, flush=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print('MACHINERY ERROR', flush=True)
        rc = 2
    finally:
        if os.environ.get('VF_KEEP'):
            print('scratch kept in', ctx.scratch)
        else:
            ctx.cleanup()
    sys.exit(rc)
