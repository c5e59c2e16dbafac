import copy
import json
from collections import OrderedDict
from itertools import product
import conv
import core
SEC = [{}, {'s1': {'x': {'tex': 'x'}}}, {'s2': {'y': None, 'z': {}}, 's1': {'u': None}}, {'s3': {}, 's4': {'w': {'real': True}}}, {'s1': {}}, {'s1': {}, 's2': {'v': None}}]
NAMES = ['A', 'B', 'C']
PAR = [None, 'A', 'B', 'X']
OPS = [['def', 'E', n, p, s] for n in NAMES for p in PAR for s in range(3)] \
    + [['def', 'E-4', 'A', None, 3], ['def', 'E-4', 'B', 'A', 1], ['def', 'E-4', 'D', 'C', 0], ['del', 'E', 'A'], ['load', 'E', 'C', 'B', 3], ['clear']]
OPS = OPS + [['def', 'E', n, p, 4] for n in NAMES[1:] for p in ('A', 'B')] + [['load', 'E', 'C', 'B', 5]]
OPS4 = [['def', 'E', n, p, s] for n in ('A', 'B', 'C', 'D') for p in (None, 'A', 'B', 'C') for s in (1, 2)] + [['del', 'E', 'A']]
BOUNDS = {'quick': 'all sequences of 3 operations over an alphabet of %d (definitions of 3 names x 4 parents x 3 sector sets, second EFT, loading from text, deletion, clearing); all sequences of 4 definitions of distinct names; up to 70 generations' % len(OPS),
          'thorough': 'as quick plus all sequences of 4 operations over a %d-letter alphabet with 4 generations' % len(OPS4)}
ASSUMPTIONS = []


def setup(tier):
    conv.init()


def cases(tier):
    n = range(len(OPS))
    out = [['three', a, b] for a in n for b in n]
    out += [['chain', s] for s in range(6 ** 4)]
    out += [['deep', n, k] for n in (5, 6, 7, 9, 12, 17, 33, 70) for k in range(4)]
    if tier == 'thorough':
        m = range(len(OPS4))
        out += [['four', a, b] for a in m for b in m]
    return out


class Model:
    def __init__(self):
        self.reg = OrderedDict()

    def copy(self):
        m = Model()
        m.reg = OrderedDict(self.reg)
        return m

    def step(self, op):
        """returns True if the operation must succeed"""
        if op[0] == 'clear':
            self.reg = OrderedDict()
            return True
        k = (op[1], op[2])
        if op[0] == 'del':
            if k not in self.reg:
                return False
            del self.reg[k]
            return True
        secs = copy.deepcopy(SEC[op[4]])
        if op[3] is not None:
            p = (op[1], op[3])
            if p not in self.reg:
                return False
            merged = OrderedDict(copy.deepcopy(self.reg[p][0]))
            merged.update(secs)
            secs = merged
        self.reg[k] = (dict(secs), op[3])
        return True


def apply(W, op):
    if op[0] == 'clear':
        W.Basis.clear_all()
        return True
    if op[0] == 'del':
        try:
            del W.Basis[op[1], op[2]]
        except (KeyError, AttributeError):
            return False
        return True
    secs = copy.deepcopy(SEC[op[4]])
    kw = {} if op[3] is None else {'parent': op[3]}
    try:
        if op[0] == 'load':
            W.Basis.load(json.dumps(dict(eft=op[1], basis=op[2], sectors=secs, metadata={'a': 1}, **kw)))
        else:
            W.Basis(op[1], op[2], secs, **kw)
    except ValueError:
        return False
    finally:
        if secs != SEC[op[4]]:
            raise AssertionError('definition changed the sectors passed by the user')
    return True


def agree(r, W, m, hist, objs):
    reg = getattr(W.Basis, 'instances', {})
    if list(reg) != list(m.reg) and set(reg) != set(m.reg):
        r.fail('%s: registered %s expected %s' % (hist, list(reg), list(m.reg)))
        return
    for k, (secs, par) in m.reg.items():
        b = W.Basis[k]
        if (b.eft, b.basis) != k or getattr(b, 'parent', None) != par:
            r.fail('%s: labels of %s' % (hist, k))
        if dict(b.sectors) != secs:
            r.fail('%s: sectors of %s are %s expected %s' % (hist, k, dict(b.sectors), secs))
        elif sorted(b.all_wcs) != sorted(n for s in secs.values() for n in s):
            r.fail('%s: coefficients of %s are %s' % (hist, k, b.all_wcs))
    # objects that are no longer registered are not changed either
    for b, s in objs:
        if dict(b.sectors) != s:
            r.fail('%s: earlier object changed' % hist)
    r.state(sorted((k, repr(v)) for k, v in m.reg.items()))


def sequence(r, W, ops):
    with core.registries(W):
        core.never(W.Basis)
        m = Model()
        objs = []
        for i, op in enumerate(ops):
            exp = m.step(op)
            got = apply(W, op)
            r.calls += 1
            if got != exp:
                r.fail('%s: %s' % (ops[:i + 1], 'succeeded' if got else 'failed'))
                return
            agree(r, W, m, ops[:i + 1], objs)
            if op[0] in ('def', 'load') and got:
                objs.append((W.Basis[op[1], op[2]], m.reg[op[1], op[2]][0]))
        r.outcome = 'ok'


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    if case[0] == 'three':
        for o in OPS:
            sequence(r, W, [OPS[case[1]], OPS[case[2]], o])
    elif case[0] == 'deep':
        # many generations; every k-th one adds nothing, an own sector, or overrides the first one
        n, k = case[1:]
        with core.registries(W):
            core.never(W.Basis)
            exp, last, hist = {}, None, []
            for i in range(n):
                own = [{'s%d' % i: {'c%d' % i: None}}, {}, {'s0': {'o%d' % i: {'tex': str(i)}}, 's%d' % i: {}}, {'s%d' % (i // 2): {'d%d' % i: {}}}][k if i else 0]
                kw = {} if last is None else {'parent': last}
                W.Basis('E', 'B%d' % i, copy.deepcopy(own), **kw)
                r.calls += 1
                exp = dict(exp, **own)
                last = 'B%d' % i
                hist.append(copy.deepcopy(exp))
                for j, h in enumerate(hist):
                    if dict(W.Basis['E', 'B%d' % j].sectors) != h:
                        r.fail('generation %d of %d (kind %d): sectors %s expected %s' % (j, i, k, dict(W.Basis['E', 'B%d' % j].sectors), h))
                        return r
                if sorted(W.Basis['E', last].all_wcs) != sorted(c for x in exp.values() for c in x):
                    r.fail('generation %d: coefficients %s' % (i, W.Basis['E', last].all_wcs))
                r.state([n, k, i])
    elif case[0] == 'four':
        for o, q in product(OPS4, OPS4):
            sequence(r, W, [OPS4[case[1]], OPS4[case[2]], o, q])
    else:
        c = case[1]
        s = [c // 216, c // 36 % 6, c // 6 % 6, c % 6]
        for par in product((None, 0), (None, 0, 1), (None, 0, 1, 2)):
            nm = 'PQRS'
            ops = [['def', 'E', 'P', None, s[0]]] + [['def', 'E', nm[i + 1], None if p is None else nm[p], s[i + 1]] for i, p in enumerate(par)]
            sequence(r, W, ops)
    return r
