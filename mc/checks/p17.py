from collections import OrderedDict
from itertools import product
import conv
import core
KEYS = {'EFT': ['E1', 'E1-4'], 'Basis': [('E1', 'B1'), ('E1', 'B1 up'), ('E1-4', 'B1')],
        'Translator': [('E1', 'B1', 'B1 up'), ('E1', 'B1 up', 'B1'), ('E1-4', 'B1', 'B1')],
        'Matcher': [('E1', 'B1', 'E1-4', 'B1'), ('E1-4', 'B1', 'E1', 'B1 up')]}
REG = list(KEYS)
BAD = ['nope', ('E1', 'nope'), ('E9', 'B1', 'B1 up'), 'e1', 'E1 ', 'E', 'E1-', None, ('E1', 'b1'), ('E1', 'B1 '), ('E1', 'B1', ''), ('E1',), ('B1', 'E1'), ('E1', 'B1', 'b1 up'),
       ('E1', 'B1', 'E1-4', 'B1 '), ('E1-4', 'B1', 'E1', 'B1 ')]
OPS = []
for R in REG:
    for i in range(len(KEYS[R])):
        OPS.append(['def', R, i, 0])
        if i == 0:
            OPS.append(['def', R, i, 1])
        OPS.append(['del', R, i])
    OPS.append(['clear', R])
OPS.append(['badparent'])
DEPTH = {'quick': 6, 'thorough': 7}
SEQ = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'breadth-first: every transition of %d operations from every model state reachable in fewer than %d steps (each replayed on the implementation through a shortest path); additionally all operation sequences of length %d without state merging; all observers after every operation' % (len(OPS), DEPTH[t], SEQ[t]) for t in DEPTH}
ASSUMPTIONS = []


def setup(tier):
    conv.init()


def step(st, op):
    """model transition on ((key index, version), ...) x 4 -> (state, success)"""
    st = [list(x) for x in st]
    if op[0] == 'badparent':
        return tuple(tuple(x) for x in st), False
    r = REG.index(op[1])
    ok = True
    if op[0] == 'clear':
        st[r] = []
    elif op[0] == 'del':
        ok = any(k == op[2] for k, v in st[r])
        st[r] = [x for x in st[r] if x[0] != op[2]]
    else:
        for j, x in enumerate(st[r]):
            if x[0] == op[2]:
                st[r][j] = (op[2], op[3])
                break
        else:
            st[r].append((op[2], op[3]))
    return tuple(tuple(x) for x in st), ok


def cases(tier):
    out = []
    start = ((), (), (), ())
    seen = {start: []}
    frontier = [start]
    for d in range(DEPTH[tier]):
        nxt = []
        for s in frontier:
            for i, op in enumerate(OPS):
                t, ok = step(s, op)
                if t not in seen:
                    seen[t] = seen[s] + [i]
                    nxt.append(t)
        out += [['bfs', [seen[s] for s in c]] for c in conv.chunks(frontier, 40)]
        frontier = nxt
    n = len(OPS)
    L = SEQ[tier]
    out += [['seq', list(p)] for p in product(range(n), repeat=L - 2)]
    return out


F = [lambda *a: 1, lambda *a: 2]


def impl(W, op, objs):
    cls = getattr(W, op[1]) if len(op) > 1 else None
    if op[0] == 'badparent':
        try:
            W.Basis('E1', 'B1', {}, parent='nonexistent')
        except ValueError:
            return False
        return True
    if op[0] == 'clear':
        cls.clear_all()
        return True
    k = KEYS[op[1]][op[2]]
    if op[0] == 'del':
        try:
            if op[2] % 2:
                cls.del_instance(k)
            else:
                del cls[k]
        except (KeyError, AttributeError):
            return False
        return True
    v = op[3]
    if op[1] == 'EFT':
        o = W.EFT(k, {'s%d' % v: {}})
    elif op[1] == 'Basis':
        o = W.Basis(k[0], k[1], {'s': {'c%d' % v: None}})
    elif op[1] == 'Translator':
        if op[2] % 2:
            W.translator(*k)(F[v])
            o = W.Translator[k]
        else:
            o = W.Translator(*(k + (F[v],)))
    else:
        if op[2] % 2:
            W.matcher(*k)(F[v])
            o = W.Matcher[k]
        else:
            o = W.Matcher(*(k + (F[v],)))
    objs[op[1], op[2]] = o
    return True


def observe(r, W, st, objs, hist):
    for R, content in zip(REG, st):
        cls = getattr(W, R)
        have = dict(content)
        for i, k in enumerate(KEYS[R]):
            for get in (lambda: cls[k], lambda: cls.get_instance(k)):
                try:
                    o = get()
                except (KeyError, AttributeError):
                    o = None
                if (o is not None) != (i in have):
                    r.fail('%s: lookup of %s %s %s' % (hist(), R, k, 'succeeds' if o is not None else 'fails'))
                elif o is not None:
                    if o is not objs[R, i]:
                        r.fail('%s: lookup of %s %s gives another object' % (hist(), R, k))
                    v = have[i]
                    good = {'EFT': lambda: o.sectors == {'s%d' % v: {}} and o.eft == k,
                            'Basis': lambda: o.sectors == {'s': {'c%d' % v: None}} and (o.eft, o.basis) == k,
                            'Translator': lambda: o.function is F[v] and (o.eft, o.from_basis, o.to_basis) == k,
                            'Matcher': lambda: o.function is F[v] and (o.from_eft, o.from_basis, o.to_eft, o.to_basis) == k}[R]()
                    if not good:
                        r.fail('%s: %s %s has wrong content' % (hist(), R, k))
        for bad in BAD:
            try:
                cls[bad]
                r.fail('%s: lookup of unknown name succeeds' % hist())
            except (KeyError, AttributeError):
                pass
    bases = [KEYS['Basis'][i] for i, v in st[1]]
    trans = [KEYS['Translator'][i] for i, v in st[2]]
    # also objects that have been deleted or replaced list the current content
    for (R, i), o in objs.items():
        k = KEYS[R][i]
        if R == 'EFT':
            if list(o.known_bases) != [b[1] for b in bases if b[0] == k]:
                r.fail('%s: known_bases of %s: %s expected %s' % (hist(), k, o.known_bases, [b[1] for b in bases if b[0] == k]))
            if list(o.known_translators) != [t for t in trans if t[0] == k]:
                r.fail('%s: known_translators of %s: %s' % (hist(), k, o.known_translators))
        elif R == 'Basis':
            kt = o.known_translators
            if list(kt['from']) != [t for t in trans if t[0] == k[0] and t[1] == k[1]] or \
                    list(kt['to']) != [t for t in trans if t[0] == k[0] and t[2] == k[1]]:
                r.fail('%s: known_translators of %s: %s' % (hist(), k, kt))


def play(r, W, path, every=False):
    with core.registries(W, ('EFT', 'Basis', 'Translator', 'Matcher')):
        core.never(W.EFT)
        core.never(W.Basis)
        st = ((), (), (), ())
        objs = {}
        for n, i in enumerate(path):
            op = OPS[i]
            st, exp = step(st, op)
            got = impl(W, op, objs)
            if got != exp:
                r.fail('%s: %s' % ([OPS[j] for j in path[:n + 1]], 'succeeded' if got else 'failed'))
                break
        r.calls += len(path)
        observe(r, W, st, objs, lambda: [OPS[j] for j in path])
        for c in (W.EFT, W.Basis):
            if 'instances' not in c.__dict__:
                c.instances = OrderedDict()
    r.state(st)


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    r.outcome = case[0]
    n = len(OPS)
    if case[0] == 'bfs':
        for path in case[1]:
            if not path:
                play(r, W, [])
            for i in range(n):
                play(r, W, path + [i])
    else:
        for a, b in product(range(n), repeat=2):
            play(r, W, case[1] + [a, b])
    return r
