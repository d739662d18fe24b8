"""Builds harnesses from /repo's current working tree into /verif/build (content-addressed, git-ignored)."""
import os, hashlib, subprocess, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
import spec
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')

def _files(roots):
    out = []
    for r in roots:
        if os.path.isfile(r): out.append(r); continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('.git', 'build', '__pycache__'))
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.c', '.cpp', '.cc', '.inc')): out.append(os.path.join(d, f))
    return out

_src = None
def src_key():
    global _src
    if _src is None:
        h = hashlib.sha256()
        for f in _files([os.path.join(REPO, x) for x in ('include', 'src', 'lib', 'test')] + [os.path.join(VERIF, x) for x in ('mc', 'harness', 'stubs', 'stubs_s', 'ref')]):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        _src = h
    return _src.copy()

def _run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    log.append(' '.join(cmd)); log.append(p.stdout[-6000:])
    return p.returncode == 0

def sub(s): return s.replace('{R}', REPO).replace('{V}', VERIF)

RT_SRC = ['mc/mc.cpp', 'mc/vfs.cpp', 'mc/tsan_rt.cpp']
INST = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
REDEF = []
for f in ('memcpy', 'memmove', 'memset', 'memcmp'): REDEF += ['--redefine-sym', '%s=mc_%s' % (f, f)]

for f, g in (('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_', 'rb_insert'), ('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_', 'rb_erase'), ('_ZNSt8__detail15_List_node_base7_M_hookEPS0_', 'l_hook'), ('_ZNSt8__detail15_List_node_base9_M_unhookEv', 'l_unhook')): REDEF += ['--redefine-sym', '%s=mc_%s' % (f, g)]

_built = {}
def build(name):
    if name in _built: return _built[name]
    _built[name] = _build(name)
    return _built[name]

def log_tail(name):
    p = os.path.join(OUT, 'log', name + '.log')
    if not os.path.exists(p): return ''
    ls = [l for l in open(p, errors='replace') if 'error' in l]
    return ''.join(ls[:6])

def _build(name):
    sp = spec.HARNESSES[name]
    r = _build1(name, sp)
    if r is None and sp.get('fallback'): r = _build1(name, dict(sp, src=sp['fallback']))
    return r

def _build1(name, sp):
    h = src_key(); h.update(repr(sp).encode()); h.update(open(__file__, 'rb').read())
    d = os.path.join(OUT, 'bin', name + '-' + h.hexdigest()[:16])
    exe = os.path.join(d, name)
    os.makedirs(os.path.join(OUT, 'bin'), exist_ok=True); os.makedirs(os.path.join(OUT, 'log'), exist_ok=True)
    if os.path.exists(exe): return exe
    for o in os.listdir(os.path.join(OUT, 'bin')):   # drop builds of older trees
        if o.rsplit('-', 1)[0] == name: shutil.rmtree(os.path.join(OUT, 'bin', o), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    native = sp.get('native', False)
    inst = sp.get('instrument', not native)
    log = []; jobs = []; objs = []
    base = ['-g1', '-fno-omit-frame-pointer', '-w'] + [sub(x) for x in sp.get('flags', [])]
    opt = sp.get('opt', '-O1')
    for i, s in enumerate(sp['src']):
        extra = []; is_rt = False
        if isinstance(s, (list, tuple)): s, extra = s[0], list(s[1])
        plain = 'plain' in extra; extra = [sub(x) for x in extra if x != 'plain']
        s = sub(s); 
        if not s.startswith('/'): s = os.path.join(VERIF, s)
        o = os.path.join(d, '%d.o' % i); objs.append(o)
        cc = ['gcc', '-std=gnu11'] if s.endswith('.c') else ['g++', '-std=' + sp.get('std', 'c++17')]
        jobs.append((cc + [opt] + base + extra + (INST if inst and not plain else []) + ['-I' + os.path.join(VERIF, 'mc'), '-I' + os.path.join(VERIF, 'harness')] + ['-I' + sub(x) for x in sp.get('inc', ['{R}/include'])] + ['-c', s, '-o', o], o if inst and not plain else None))
    if not native:
        for s in RT_SRC:
            o = os.path.join(d, os.path.basename(s)[:-4] + '_rt.o'); objs.append(o)
            jobs.append((['g++', '-std=c++17', '-O2', '-g', '-w', '-fno-builtin-malloc', '-fno-threadsafe-statics', '-c', os.path.join(VERIF, s), '-o', o], None))
    def do(j):
        if not _run(j[0], log): return False
        if j[1]: return _run(['objcopy'] + REDEF + [j[1]], log)
        return True
    with ThreadPoolExecutor(8) as ex: ok = all(list(ex.map(do, jobs)))
    if ok:
        link = ['g++'] + (['-no-pie'] if not native else []) + [sub(x) for x in sp.get('lflags', [])] + objs + ['-o', exe + '.tmp'] + ['-ldl', '-lpthread']
        ok = _run(link, log)
    open(os.path.join(OUT, 'log', name + '.log'), 'w').write('\n'.join(log))
    if not ok: shutil.rmtree(d, ignore_errors=True); return None
    for o in objs:
        if os.path.exists(o): os.unlink(o)
    os.rename(exe + '.tmp', exe)
    return exe

def build_many(names):
    names = list(dict.fromkeys(names))
    src_key()
    with ThreadPoolExecutor(6) as ex: list(ex.map(build, names))
