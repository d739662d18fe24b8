#!/usr/bin/env python3
"""mutate.py [-j N] [regex of name or property]: run the named property's check against each mutant of /repo (scratch clones under /tmp/mut)."""
import sys, os, re, subprocess, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]; J = 2
if args and args[0] == '-j': J = int(args[1]); args = args[2:]
pat = re.compile(args[0] if args else '.')
sel = [x for x in mutants.L if pat.search(x[0]) or pat.search(x[1])]
os.makedirs('/tmp/mut', exist_ok=True)
VS = []
def worker_init(i):
    pass
import threading, queue
ids = queue.Queue()
for i in range(J):
    v = '/tmp/mut/v%d' % i
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'build', '--exclude', '.git', '/verif/', v + '/']) if shutil.which('rsync') else (shutil.rmtree(v, ignore_errors=True) if False else None, subprocess.run('mkdir -p %s && cd /verif && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded | xargs -0 cp --parents -pt %s' % (v, v), shell=True))
    ids.put(i)
def run(x):
    name, prop, edits = x
    i = ids.get()
    try:
        w = '/tmp/mut/w%d' % i
        if not os.path.exists(w): subprocess.run(['git', 'clone', '-q', '/repo', w])
        subprocess.run('git -C %s checkout -q -- . && git -C %s pull -q' % (w, w), shell=True)
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(old) != 1: return name, prop, 'EDIT(%d matches)' % s.count(old), 0, old[:60]
            open(p, 'w').write(s.replace(old, new))
        t = time.time()
        r = subprocess.run(['./check', prop, 'quick'], cwd='/tmp/mut/v%d' % i, env=dict(os.environ, MC_REPO=w), capture_output=True, text=True)
        vi = [l for l in r.stdout.split('\n') if l.startswith('  ')]
        er = [l for l in r.stderr.split('\n') if l.startswith(('error', 'note'))]
        return name, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%s' % r.returncode), time.time() - t, (vi or er or [''])[0].strip()[:160]
    finally:
        subprocess.run(['git', '-C', '/tmp/mut/w%d' % i, 'checkout', '-q', '--', '.'])
        ids.put(i)
from concurrent.futures import as_completed
with ThreadPoolExecutor(J) as ex:
    for fu in as_completed([ex.submit(run, x) for x in sel]):
        r = fu.result(); print('%-20s %s %-8s %5.0fs %s' % r, flush=True)
