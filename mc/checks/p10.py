import copy
from itertools import product
import conv
import core
# variants: (values tag, scale, overrides)
VAR = [('a', 91.1876, None), ('b', 91.1876, None), ('a', 4.8, None),
       ('a', 91.1876, {'alpha_s': 0.12, 'Vus': 0.23, 'Vcb': 0.045, 'gamma': 1.1, 'm_b': 4.3, 'm_s': 0.1, 'GF': 1.2e-5, 'alpha_e': 1 / 130., 'm_W': 80.2}),
       ('a', 160., {}), ('b', 4.8, {'Vub': 4e-3, 'm_e': 6e-4, 'm_mu': 0.11, 'm_tau': 1.8, 'm_Z': 91.})]
NV = len(VAR)
# variants which differ from the first one in a single respect
import ref_qcd
VAR += [('a', 91.1876, {p: x * 1.06}) for p, x in ref_qcd.DEFAULTS.items()]
VAR += [('a', 91.1876 * (1 + 1e-4), None), ('half', 91.1876, None), ('other half', 91.1876, None), ('one', 91.1876, None), ('a', 91.1876, {'gamma': 1.27})]
AUX = ['validate', 'qcd', 'print', 'dump', 'fail', 'mutate', 'registry']
BOUNDS = {'quick': 'all ordered pairs of %d variants of every converter; %d single changes (each parameter, scale, subset of coefficients) one after the other and back; all ordered pairs of converters (override then default and default then override, two inputs); every converter before and after %d auxiliary operations; one object converted to all its targets in every order of two' % (NV, len(VAR) - NV, len(AUX)),
          'thorough': 'as quick plus all triples of variants per converter and all triples of converters of one EFT with varied variants'}
ASSUMPTIONS = ['results compared with the reference model to 1e-9 (SMEFT matching 1e-7)']


def setup(tier):
    conv.init()


ALL = [list(c) for c in conv.ALL]


def cases(tier):
    out = []
    nv = range(NV)
    for c in range(len(ALL)):
        hv = tuple(ALL[c]) in conv.SM_M
        for a in nv:
            if not hv:
                out.append(['seq', [[[c, a], [c, b], [c, a]] for b in nv]])
            else:
                out += [['seq', [[[c, a], [c, b]]]] for b in nv]
        for x in AUX:
            out.append(['aux', c, x])
        # single changes, one after the other and back
        out.append(['seq', [[[c, v] for e in range(NV, len(VAR)) for v in (0, e)] + [[c, 0]]]])
        out.append(['seq', [[[c, e] for e in range(len(VAR) - 1, NV - 1, -1)] + [[c, 0]]]])
        if tier == 'thorough':
            out += [['seq', [[[c, a], [c, b], [c, d]] for d in nv]] for a in nv for b in nv]
    for c1 in range(len(ALL)):
        out.append(['seq', [[[c1, 3], [c2, 0]] for c2 in range(len(ALL)) if c2 != c1]])
        out.append(['seq', [[[c1, 0], [c2, 5]] for c2 in range(len(ALL)) if c2 != c1]])
    for i, c1 in enumerate(ALL):
        for j, c2 in enumerate(ALL):
            if c1[1:3] == c2[1:3]:
                out.append(['shared', i, j])
    if tier == 'thorough':
        light = [i for i, c in enumerate(ALL) if tuple(c) not in conv.SM_M]
        for a in light:
            for b in light:
                out.append(['seq', [[[a, 3], [b, 2], [c, 0]] for c in light if len({a, b, c}) == 3]])
    return out


_R = {}
_V = {}


def values(c, tag):
    if (c[1:3], tag) not in _V:
        m = conv.size(c) * (100 if c in conv.SM_M else 1)
        nm = conv.names(c)
        nm = {'half': nm[::2], 'other half': nm[1::2], 'one': nm[len(nm) // 2:][:1]}.get(tag, nm)
        _V[c[1:3], tag] = core.dense(nm, tag if len(tag) == 1 else 'a', conv.real(c), m)
    return copy.deepcopy(_V[c[1:3], tag])


def refr(c, v):
    k = (c, v)
    if k not in _R:
        tag, s, over = VAR[v]
        _R[k] = conv.ref(c, {n: core.num(x) for n, x in values(c, tag).items()}, s, over)
    return _R[k]


def snap(w):
    return (copy.deepcopy({k: v for k, v in w.__dict__.items() if k[0] != '_'}),
            list(w.values))


def step(r, c, v, what, w=None):
    tag, s, over = VAR[v]
    if w is None:
        w = conv.wc(c, values(c, tag), s, metadata={'note': ['x', {'y': 1}]})
    b = snap(w)
    passed = copy.deepcopy(over)
    g = conv.global_state()
    o = conv.apply(c, w, passed)
    r.calls += 1
    if snap(w) != b:
        r.fail('%s: input object modified by %s' % (what, c[1:]))
    if w.dict != {k: core.num(x) for k, x in w.values.items()}:
        r.fail('%s: numeric values of the input modified by %s' % (what, c[1:]))
    if passed != over:
        r.fail('%s: parameters modified by %s' % (what, c[1:]))
    if conv.global_state() != g:
        r.fail('%s: defaults or registries modified by %s' % (what, c[1:]))
    C = {k: core.num(x) for k, x in w.values.items()}
    exp = refr(c, v)
    rt, at = conv.tol(c, C, exp, s)
    for d in core.compare(core.wc_out(o), exp, rt, at, what):
        r.fail(d)
    r.state([c, v, sorted((k, '%.6g' % abs(x)) for k, x in exp.items())])
    return w, o


def aux(x, c, w, o):
    import io
    if x == 'validate':
        w.validate()
        o.validate()
    elif x == 'qcd':
        from wcxf.util import qcd
        for i in range(40):
            qcd.alpha_s(10. + i, 5)
            qcd.m_b(4.0 + i / 100., 91.1876, 5, alphasMZ=0.119)
        qcd.m_s(0.11, 4.8, 5)
        qcd.m_c(1.3, 91.1876, 5)
    elif x == 'print':
        str(w), repr(w), str(o), w.dict, o.dict
    elif x == 'dump':
        conv.W.WC.load(o.dump(fmt='yaml'))
        w.dump(fmt='json')
        w.dump(io.StringIO(), fmt='yaml')
    elif x == 'fail':
        for f in (lambda: w.translate('nowhere'), lambda: w.match('nowhere', 'x'),
                  lambda: conv.apply(c, conv.wc(c, {'no such_9999': 1.}))):
            try:
                f()
            except Exception:
                pass
    elif x == 'mutate':
        # results share nothing with inputs or caches
        for k in list(o.values):
            o.values[k] = 12345.
        o.dict.clear()
        o.values.clear()
    elif x == 'registry':
        b = conv.W.Basis[conv.target(c)]
        b.all_wcs
        b.known_translators
        conv.W.EFT[c[1]].known_bases


def run(case):
    conv.init()
    r = core.Result()
    r.outcome = case[0]
    if case[0] == 'seq':
        for seq in case[1]:
            done = []
            for c, v in seq:
                step(r, tuple(ALL[c]), v, 'after %s: %s/%s' % (done, '->'.join(ALL[c][1:]), VAR[v][1:]))
                done.append('->'.join(ALL[c][1:]) + '/%d' % v)
    elif case[0] == 'aux':
        c = tuple(ALL[case[1]])
        w, o = step(r, c, 0, 'before ' + case[2])
        aux(case[2], c, w, o)
        step(r, c, 0, 'after ' + case[2], w)
        step(r, c, 3, 'after %s (new object, overrides)' % case[2])
        step(r, c, 0, 'after %s (new object)' % case[2])
    else:
        c1, c2 = tuple(ALL[case[1]]), tuple(ALL[case[2]])
        w, _ = step(r, c1, 0, 'first use')
        step(r, c2, 0, 'object already converted %s' % (c1[1:],), w)
        if w.metadata != {'note': ['x', {'y': 1}]}:
            r.fail('metadata changed')
    return r
