#!/usr/bin/env python3
"""Development aid: confirm planted bugs and keep them under seeded/.
plant.py <definitions.py> [id ...]   definitions: SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Each is applied to a scratch copy of /repo: builds, passes the tests, the demo
passes without and fails with it; then its check is run against the copy."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/pypy3'
DEMO = '''#!/bin/sh
# exit 0: behaves as it should
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYNPUT_BACKEND=dummy timeout 250 %s "$(dirname "$0")/demo.py"
''' % PY


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYNPUT_BACKEND='dummy', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(r):
    return sh('rm -f klang/audio/_*.so; %s setup.py build_ext --inplace --force && ls klang/audio/_envelope*.so klang/audio/_filters*.so' % PY, r, PYTHONPATH=r)


def plant(s):
    d = tempfile.mkdtemp(prefix='plant-')
    out = []
    try:
        r = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        demo = d + '/demo'
        os.mkdir(demo)
        open(demo + '/demo.sh', 'w').write(DEMO)
        os.chmod(demo + '/demo.sh', 0o755)
        open(demo + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        x = sh('sh %s/demo.sh' % demo, '/repo')
        if x.returncode:
            return s, False, 'demo fails on the unchanged tree:\n' + x.stdout[-1500:]
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s, False, '%d matches in %s of %r' % (t.count(old), f, old)
            open(p, 'w').write(t.replace(old, new))
        if any(f.endswith('.c') for f, _, _ in s['edits']):
            b = build(r)
            if b.returncode:
                return s, False, 'does not build ' + b.stdout[-800:]
        t = sh('timeout 300 %s -m pytest -q tests -p no:cacheprovider --timeout=300' % PY, r, PYTHONPATH=r)
        last = t.stdout.strip().splitlines()[-1]
        if 'failed' in last or 'error' in last or 'passed' not in last:
            return s, False, 'tests: ' + last + '\n' + '\n'.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))
        x = sh('sh %s/demo.sh' % demo, r)
        if x.returncode == 0:
            return s, False, 'demo passes with the change'
        out.append('demo: ' + (x.stdout.strip().splitlines() or ['?'])[-1][:150])
        diff = sh('git diff', r).stdout
        dst = os.path.join(V, 'seeded', s['id'])
        os.makedirs(dst, exist_ok=True)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(demo, f), dst)
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        c = sh('./check %s quick' % s['property'], V, KLANG_REPO=r)
        ok = c.returncode == 1 and 'VIOLATION property=%s' % s['property'] in c.stdout
        out.append('check exit %d %s' % (c.returncode, 'CAUGHT' if ok else 'MISSED'))
        if not ok:
            out += c.stdout.splitlines()[-4:]
        return s, ok, '\n    '.join(out)
    finally:
        shutil.rmtree(d)


spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
todo = [s for s in m.SEEDS if not sys.argv[2:] or s['id'] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for s, ok, msg in ex.map(plant, todo):
        print('%-4s %s [%s]\n    %s' % ('ok' if ok else 'BAD', s['id'], s['property'], msg), flush=True)
