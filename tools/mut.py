#!/usr/bin/env python3
"""Development aid: run a check against a mutated copy of the repository.
mut.py <property> <file> <old> <new> [--tests]   (nothing in /repo is touched)"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut-')
try:
    r = os.path.join(d, 'repo')
    shutil.copytree(os.environ.get('MUT_SRC', '/repo'), r, ignore=shutil.ignore_patterns('.git'))
    p = os.path.join(r, file)
    s = open(p).read()
    assert s.count(old) >= 1, 'text not found'
    open(p, 'w').write(s.replace(old, new, 1))
    e = dict(os.environ, KLANG_REPO=r)
    c = subprocess.run([os.path.join(V, 'check'), prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = c.stdout.splitlines()
    print('exit', c.returncode, '|', '\n   '.join(l[:300] for l in lines[-4:]))
finally:
    shutil.rmtree(d)
