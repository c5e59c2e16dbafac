"""Loading of the shipped definitions at import.  A scratch package directory
links to the source files of the repository and holds an enumerated set of
definition files; the import is executed in a fresh process for every order in
which the operating system may list the directories."""
import itertools
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import core

E1 = {'eft': 'WET', 'sectors': {'sb': {}, 'db': {}}}
E2 = {'eft': 'SM EFT é', 'sectors': {'all': None}}
B1 = {'eft': 'WET', 'basis': 'A', 'sectors': {'sb': {'x': {'tex': 'x'}}, 'db': {'y': {'real': True}}}}
B2 = {'eft': 'WET', 'basis': 'B', 'sectors': {'sb': {'z': None}}, 'metadata': {'description': 'ü'}}
B3 = {'eft': 'SM EFT é', 'basis': 'A', 'sectors': {'all': {'C': {}}}}
C1 = {'eft': 'WET', 'basis': 'A2', 'parent': 'A', 'sectors': {'sb': {'w': None}}}
C2 = {'eft': 'WET', 'basis': 'B2', 'parent': 'B', 'sectors': {'db': {'v': None}}}
C3 = {'eft': 'SM EFT é', 'basis': 'A2', 'parent': 'A', 'sectors': {}}
FILES = {'WET.eft.json': E1, 'SMEFT.eft.json': E2, 'WET.A.basis.json': B1, 'WET.B.basis.json': B2, 'SMEFT.A.basis.json': B3,
         'child/WET.A2.basis.json': C1, 'child/WET.B2.basis.json': C2, 'child/0SMEFT.A2.basis.json': C3}
PREFIX = ['', 'z', '~', '0', 'child', 'ü x', 'a.eft.', 'Basis [1]']
NOISE = {'README.md': 'x', 'WET.A.basis.yml': 'eft: WET', 'notes.json': '{', 'child/notes.txt': 'x', 'WET.B.basis.json~': '{'}
# downward closed subsets (children only with their parents)
BOUNDS = {'quick': 'every set of definition files (2 EFTs, 3 bases, 3 child bases; children with their parents), with and without unrelated files, in two listing orders each; for the full set all 120 x 6 listing orders; two working directories; all pairs of 8 file name prefixes for the definitions and the child definitions; each in a fresh process',
          'thorough': 'every set of definition files x all listing orders of bases and children'}
ASSUMPTIONS = ['the definition files shipped as git submodule are absent here and replaced by synthetic ones', 'parents of child bases are not themselves in the child directory', 'UTF-8 locale']
CHUNK = 1

CODE = r'''
import sys, os, json, itertools
root = sys.argv[1]
perm = json.loads(sys.stdin.read())
class It:
    def __init__(self, l): self.l = iter(l)
    def __iter__(self): return self
    def __next__(self): return next(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
def key(p):
    p = os.path.relpath(os.path.realpath(os.fspath(p)), os.path.realpath(os.path.join(root, 'wcxf', 'bases')))
    return p
def order(path, items, name):
    try:
        k = key(path)
    except Exception:
        return items
    if k in cur:
        w = cur[k]
        return sorted(items, key=lambda e: (w.index(name(e)) if name(e) in w else -1, name(e)))
    return items
sc, ld = os.scandir, os.listdir
cur = {}
def scandir(path='.'):
    if isinstance(path, (str, bytes)) and 'bases' in os.fsdecode(path):
        with sc(path) as it:
            return It(order(path, list(it), lambda e: os.fsdecode(e.name)))
    return sc(path)
def listdir(path='.'):
    l = ld(path)
    if isinstance(path, (str, bytes)) and 'bases' in os.fsdecode(path):
        return order(path, l, os.fsdecode)
    return l
os.scandir, os.listdir = scandir, listdir
sys.path.insert(0, root)
first = True
for p in perm:
    cur.clear(); cur.update(p)
    try:
        if first:
            import wcxf
        else:
            for c in ('EFT', 'Basis'):
                k = getattr(wcxf.classes, c)
                if hasattr(k, 'instances'):
                    k.clear_all()
            import importlib
            importlib.reload(wcxf)
        first = False
        out = {'file': wcxf.__file__,
               'efts': [[k, v.eft, v.sectors] for k, v in getattr(wcxf.EFT, 'instances', {}).items()],
               'bases': [[list(k), v.eft, v.basis, v.sectors, getattr(v, 'parent', None), getattr(v, 'metadata', None)] for k, v in getattr(wcxf.Basis, 'instances', {}).items()],
               'T': len(wcxf.Translator.instances), 'M': len(wcxf.Matcher.instances)}
    except Exception as e:
        import traceback
        out = {'error': traceback.format_exc()[-600:]}
        first = False
        if 'wcxf' not in sys.modules or not hasattr(sys.modules['wcxf'], 'classes'):
            print(json.dumps(out)); break
        wcxf = sys.modules['wcxf']
    print(json.dumps(out))
'''


def subsets():
    main = [f for f in FILES if '/' not in f]
    kids = [f for f in FILES if '/' in f]
    parent = {'child/WET.A2.basis.json': 'WET.A.basis.json', 'child/WET.B2.basis.json': 'WET.B.basis.json', 'child/0SMEFT.A2.basis.json': 'SMEFT.A.basis.json'}
    for n in range(len(main) + 1):
        for m in itertools.combinations(main, n):
            ok = [k for k in kids if parent[k] in m]
            for j in range(len(ok) + 1):
                for c in itertools.combinations(ok, j):
                    yield list(m + c)


def setup(tier):
    core.fresh(False)


def orders(files):
    a = sorted(f for f in files if '/' not in f and 'basis' in f)
    e = sorted(f for f in files if '.eft.' in f)
    c = sorted(f.split('/')[1] for f in files if '/' in f)
    for x in itertools.permutations(a + e):
        for y in itertools.permutations(c):
            yield {'.': list(x), 'child': list(y)}


def cases(tier):
    out = []
    full = list(FILES)
    for s in subsets():
        os_ = list(orders(s))
        if tier == 'quick' and len(s) < len(full):
            os_ = [os_[0], os_[-1]] if len(os_) > 1 else os_
        for i in range(0, len(os_), 120):
            out.append(['files', s, False, os_[i:i + 120]])
    for s in ([], full, full[:3], full[:6]):
        os_ = list(orders(s))
        out.append(['files', s, True, [os_[0], os_[-1]]])
    out += [['cwd', s] for s in (full, full[:4])]
    for a in range(len(PREFIX)):
        for b in range(len(PREFIX)):
            out.append(['rename', full, a, b])
    return out


def run(case):
    r = core.Result()
    files = case[1]
    r.outcome = '%d files' % len(files)
    d = tempfile.mkdtemp()
    try:
        pk = os.path.join(d, 'wcxf')
        os.makedirs(os.path.join(pk, 'bases'))
        src = os.path.join(core.REPO, 'wcxf')
        for n in os.listdir(src):
            if n not in ('bases', '__pycache__'):
                os.symlink(os.path.join(src, n), os.path.join(pk, n))
        if any('/' in f for f in files):
            os.makedirs(os.path.join(pk, 'bases', 'child'))
        noise = NOISE if case[0] == 'files' and case[2] else {}
        if any('/' in f for f in noise) and not os.path.isdir(os.path.join(pk, 'bases', 'child')):
            os.makedirs(os.path.join(pk, 'bases', 'child'))
        def disk(f):
            if case[0] != 'rename':
                return f
            if '/' in f:
                return 'child/' + PREFIX[case[3]] + f.split('/')[1]
            return PREFIX[case[2]] + f
        for f in files:
            with open(os.path.join(pk, 'bases', disk(f)), 'w') as fh:
                json.dump(FILES[f], fh)
        for f, t in noise.items():
            with open(os.path.join(pk, 'bases', f), 'w') as fh:
                fh.write(t)
        perms = case[3] if case[0] == 'files' else [{}]
        if case[0] == 'rename':
            m = sorted(disk(f) for f in files if '/' not in f)
            k = sorted(disk(f).split('/')[1] for f in files if '/' in f)
            perms = [{'.': m, 'child': k}, {'.': m[::-1], 'child': k[::-1]}]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='', PYTHONWARNINGS='ignore')
        env.pop('PYTHONPATH')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE, d], input=json.dumps(perms).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, cwd='/' if case[0] == 'cwd' else d, timeout=250)
        lines = p.stdout.decode().strip().split('\n')
        if p.returncode or len(lines) != len(perms):
            r.fail('import failed: %s %s' % (p.stderr.decode()[-600:], lines[-1][-600:]))
        docs = [FILES[f] for f in files]
        efts = {x['eft']: x['sectors'] for x in docs if 'basis' not in x}
        bs = {(x['eft'], x['basis']): x for x in docs if 'basis' in x}
        for l, perm in zip(lines, perms):
            r.calls += 1
            r.state([files, perm])
            o = json.loads(l)
            if 'error' in o:
                r.fail('%s, order %s: %s' % (files, perm, o['error']))
                continue
            if not o['file'].startswith(d):
                r.fail('wrong package %s' % o['file'])
            if {k: v for k, e, v in o['efts']} != efts or any(k != e for k, e, v in o['efts']):
                r.fail('%s, order %s: EFTs %s' % (files, perm, [x[0] for x in o['efts']]))
            got = {tuple(x[0]): x[1:] for x in o['bases']}
            if set(got) != set(bs):
                r.fail('%s, order %s: bases %s' % (files, perm, sorted(got)))
                continue
            for k, x in bs.items():
                sec = dict(bs[k[0], x['parent']]['sectors']) if 'parent' in x else {}
                sec.update(x['sectors'])
                if got[k] != [x['eft'], x['basis'], sec, x.get('parent'), x.get('metadata')]:
                    r.fail('%s, order %s: basis %s is %s' % (files, perm, k, got[k]))
            if o['T'] < 20 or o['M'] < 12:
                r.fail('converters not registered')
    finally:
        shutil.rmtree(d)
    return r
