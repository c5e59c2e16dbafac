import copy
import subprocess
import sys
from itertools import chain, combinations, product
import clirun
import conv
import core
EF = ['E1', 'E2']
BA = {('E1', 'B1'): {'s1': {'a': None, 'b': {'tex': 'b'}}, 's2': {'c': {}}},
      ('E1', 'B2'): {'s1': {'c': None}, 's3': {}},
      ('E2', 'B1'): {'s1': {'d': {'real': True}, 'a': None}}}
NM = ['a', 'b', 'c', 'd', 'zz']
SUBS = [list(s) for k in range(len(NM) + 1) for s in combinations(NM, k)]
BOUNDS = 'all 32 registry states of 2 EFTs and 3 bases (and never-filled registries) x 9 (EFT, basis) labels x all 32 subsets of 5 names; all ordered pairs of registry states (definitions added/removed/redefined between validations); every name of all reconstructed bases, and near misses; python -O processes'
ASSUMPTIONS = ['reconstructed basis definitions']


def setup(tier):
    conv.init()


def states():
    k = list(BA)
    return [[e, b] for e in range(4) for b in range(8)]


def cases(tier):
    st = states()
    out = [['state', s] for s in st] + [['never']]
    out += [['pair', a, b] for a in st for b in st]
    out += [['redefine', i, j] for i in range(len(SUBS)) for j in range(0, len(SUBS), 1)]
    for e, b in sorted({x for c in conv.ALL for x in (conv.source(c), conv.target(c))}):
        out += [['real', e, b, ns] for ns in conv.chunks(core.names(e, b), 256)]
    out += [['opt', i] for i in range(4)]
    return out


def load(W, s):
    """bring the registries to state s"""
    for i, e in enumerate(EF):
        if s[0] >> i & 1:
            W.EFT(e, {'s1': {}, 's2': {}})
        elif e in W.EFT.instances:
            del W.EFT[e]
    for i, (k, sec) in enumerate(BA.items()):
        if s[1] >> i & 1:
            W.Basis(k[0], k[1], copy.deepcopy(sec))
        elif k in W.Basis.instances:
            del W.Basis[k]


def accept(s, e, b, ns):
    k = (e, b)
    return e in EF and bool(s[0] >> EF.index(e) & 1) and k in BA and bool(s[1] >> list(BA).index(k) & 1) \
        and all(any(n in sec for sec in BA[k].values()) for n in ns)


def judge(r, w, exp, what):
    before = copy.deepcopy(w.__dict__)
    r.calls += 1
    try:
        w.validate()
        got = True
    except ValueError:
        got = False
    except Exception as x:
        r.fail('%s: raised %s' % (what, core.exc_name(x)))
        return
    r.outcome = 'accepted' if got else 'rejected'
    if got != exp:
        r.fail('%s: %s, expected %s' % (what, 'accepted' if got else 'rejected', 'accepted' if exp else 'rejected'))
    if {k: v for k, v in w.__dict__.items() if k[0] != '_'} != {k: v for k, v in before.items() if k[0] != '_'}:
        r.fail('%s: file modified by validation' % what)


def regs(W):
    return repr([[k, sorted(v.__dict__.get('sectors', {}))] for c in (W.EFT, W.Basis) for k, v in getattr(c, 'instances', {}).items()])


VAL = [1., 0, {'Re': 1, 'Im': 2}, 'text', None]

OPT = '''
import sys; sys.path.insert(0, %r)
import wcxf
bad = 0
def v(*a):
    try:
        wcxf.WC(*a).validate(); return 'ok'
    except ValueError: return 'ValueError'
    except BaseException as e: return type(e).__name__
r = [v('E', 'B', 1, {'a': 1})]
wcxf.EFT('E', {'s': {}})
r.append(v('E', 'B', 1, {'a': 1}))
wcxf.Basis('E', 'B', {'s': {'a': None}})
r += [v('E', 'B', 1, {'a': 1}), v('E', 'B', 1, {}), v('E', 'B', 1, {'x': 1}), v('E', 'B', 1, {'a': 1, 'x': 0}), v('E', 'C', 1, {}), v('F', 'B', 1, {})]
print(' '.join(r))
'''


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    k = case[0]
    if k == 'real':
        _, e, b, ns = case
        allw = set(core.names(e, b))
        for n in ns:
            judge(r, W.WC(e, b, 1., {n: 1.}), True, '%s %s %s' % (e, b, n))
            for bad in (n + '1', n[:-1], n.swapcase(), ' ' + n, n + ' '):
                if bad not in allw:
                    judge(r, W.WC(e, b, 1., {n: 1., bad: 1.}), False, '%s %s %s' % (e, b, bad))
            r.state([e, b, n])
        judge(r, W.WC(e, b, 1., {n: 1. for n in allw}), True, 'all of %s %s' % (e, b))
        judge(r, W.WC(e, b + 'x', 1., {}), False, 'unknown basis')
        judge(r, W.WC(e + 'x', b, 1., {}), False, 'unknown EFT')
        return r
    if k == 'opt':
        flags = [['-O'], ['-OO'], [], ['-O', '-E']][case[1]]
        p = subprocess.run([sys.executable, '-W', 'ignore'] + flags + ['-c', OPT % core.REPO], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=clirun.CLEAN)
        r.calls += 8
        got = p.stdout.decode().split()
        exp = ['ValueError', 'ValueError', 'ok', 'ok', 'ValueError', 'ValueError', 'ValueError', 'ValueError']
        r.state(flags)
        if got != exp:
            r.fail('python %s: %s expected %s %s' % (flags, got, exp, p.stderr.decode()[-500:]))
        return r
    with core.registries(W):
        if k == 'state':
            s = case[1]
            load(W, s)
            g = regs(W)
            for e, b in product(EF + ['E3'], ['B1', 'B2', 'B3']):
                for i, ns in enumerate(SUBS):
                    judge(r, W.WC(e, b, 91.2, {n: VAL[(i + j) % 5] for j, n in enumerate(ns)}, note='x'), accept(s, e, b, ns),
                          'registry %s: %s %s %s' % (s, e, b, ns))
                    r.state([s, e, b, ns])
            if regs(W) != g:
                r.fail('registry changed by validation')
        elif k == 'never':
            for c in (W.EFT, W.Basis):
                core.never(c)
            for e, b in product(EF, ['B1', 'B2']):
                for ns in SUBS:
                    judge(r, W.WC(e, b, 1, {n: 1 for n in ns}), False, 'never-filled registry')
                    r.state([e, b, ns])
            W.EFT('E1', {})
            for ns in SUBS:
                judge(r, W.WC('E1', 'B1', 1, {n: 1 for n in ns}), False, 'no basis ever defined')
            W.Basis('E1', 'B1', {'s': {'a': None}})
            for ns in SUBS:
                judge(r, W.WC('E1', 'B1', 1, {n: 1 for n in ns}), set(ns) <= {'a'}, 'first basis defined')
            W.Basis.instances = {}     # replaced by __exit__
        elif k == 'pair':
            # the same objects validated before and after the registry changed
            ws = [(e, b, ns, W.WC(e, b, 1, {n: 1 for n in ns})) for e, b in product(EF, ['B1', 'B2'])
                  for ns in ([], ['a'], ['c'], ['a', 'b', 'c'], ['d'], ['zz'])]
            for s in case[1:]:
                load(W, s)
                for e, b, ns, w in ws:
                    judge(r, w, accept(s, e, b, ns), 'after %s -> %s: %s %s %s' % (case[1], case[2], e, b, ns))
                    r.state([s, e, b, ns])
        else:
            # redefinition of a basis with other coefficients
            W.EFT('E1', {'s': {}})
            ws = [(ns, W.WC('E1', 'B1', 1, {n: 1 for n in ns})) for ns in SUBS[::3]]
            for i in case[1:]:
                W.Basis('E1', 'B1', {'s': {n: None for n in SUBS[i]}})
                for ns, w in ws:
                    judge(r, w, set(ns) <= set(SUBS[i]), 'redefined %s: %s' % (SUBS[i], ns))
                r.state(case[1:])
    return r
