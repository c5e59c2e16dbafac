from itertools import combinations
import copy
import conv
import core
import ref_qcd
P = list(ref_qcd.DEFAULTS)
BOUNDS = {'quick': 'all %d converters x %d parameters x 4-8 values (factors between 0.01 and 100, and close to 1, zero where finite) x 2 scales; all parameters at once, {}, None, defaults passed explicitly, dict subclasses, int values; history default/override/default' % (len(conv.ALL), len(P)),
          'thorough': 'as quick plus all pairs of parameters'}
ASSUMPTIONS = ['ckmutil and compiled RunDec trusted', 'overrides of several parameters at once within 10 percent of the defaults (admissible CKM)']


def setup(tier):
    conv.init()


NEAR = (1 + 1e-4, 1 - 1e-6)
CKM = ('Vus', 'Vub', 'Vcb', 'gamma')
WIDE = {'Vus': (0.1, 2.), 'Vub': (0.1, 5.), 'Vcb': (0.1, 4.), 'gamma': (-1., 0.2, 2., -2.), 'alpha_s': (0.85, 1.12),
        'alpha_e': (0.5, 1.7), 'GF': (0.1, 10.), 'm_b': (0.6, 2.5), 'm_s': (0.01, 20.), 'm_e': (0.1, 100.), 'm_mu': (0.1, 100.),
        'm_tau': (0.1, 100.), 'm_W': (0.5, 1.9), 'm_Z': (0.5, 2.)}


def val(p, f):
    return ref_qcd.DEFAULTS[p] * f


def cases(tier):
    out = []
    for c in conv.ALL:
        for p in P:
            out.append(['single', list(c), p])
        out.append(['sets', list(c)])
        if tier == 'thorough':
            prs = [list(x) for x in combinations(P, 2)]
            out += [['pairs', list(c), x] for x in conv.chunks(prs, 13)]
    return out


def one(r, c, v, scale, over, base=None, kind=dict):
    import wcxf.parameters
    before = copy.deepcopy(dict(wcxf.parameters.p))
    passed = kind(over) if over is not None else None
    keep = copy.deepcopy(passed)
    w = conv.wc(c, v, scale)
    if passed is None:
        o = conv.apply(c, w)
    else:
        o = conv.apply(c, w, passed)
    r.calls += 1
    if passed is not None and (dict(passed) != dict(keep) or list(passed) != list(keep)):
        r.fail('%s: passed parameters modified: %s -> %s' % (c[1:], keep, passed))
    if dict(wcxf.parameters.p) != before:
        r.fail('%s: default parameters modified' % (c[1:],))
    got = core.wc_out(o)
    C = {k: core.num(x) for k, x in v.items()}
    exp = conv.ref(c, C, float(scale), None if over is None else dict(over))
    rt, at = conv.tol(c, C, exp, float(scale))
    r.state([c, over and sorted(over.items()), scale])
    for d in core.compare(got, exp, rt, at, '%s with %s' % ('->'.join(c[1:]), over)):
        r.fail(d)
    return got


def zero_ok(c, p):
    """parameters that may vanish"""
    if p in ('m_e', 'm_mu', 'm_tau'):
        return c[1:] != ('WET', 'JMS', 'FlavorKit')
    if p in ('Vub', 'Vcb'):
        return c[1] == 'SMEFT' and c[-1] in ('Warsaw', 'Warsaw up', 'Warsaw mass', 'JMS')
    return p == 'm_s'


class Sub(dict):
    pass


def run(case):
    conv.init()
    r = core.Result()
    r.outcome = case[0]
    c = tuple(case[1])
    v = core.dense(conv.names(c), 'p', conv.real(c), conv.size(c) * (100 if c in conv.SM_M else 1))
    heavy = c in conv.SM_M
    sc = [91.1876, 4.8] if not heavy else [91.1876]
    if case[0] == 'single':
        p = case[2]
        for s in sc:
            fs = (1.08, 0.93)
            if s == sc[0]:
                fs += NEAR + (() if heavy and not p in CKM else WIDE.get(p, ()))
            for f in fs:
                one(r, c, v, s, {p: val(p, f)})
        # massless fermions, vanishing mixing
        if zero_ok(c, p):
            one(r, c, v, sc[0], {p: 0.})
            one(r, c, v, sc[0], {p: 0})
        # no effect on the next conversion
        one(r, c, v, sc[0], None)
    elif case[0] == 'pairs':
        for a, b in case[2]:
            one(r, c, v, 4.8 if not heavy else 91.1876, {a: val(a, 1.07), b: val(b, 0.95)})
    else:
        every = {p: val(p, 1.05) for p in P}
        d = one(r, c, v, 91.1876, None)
        for over in ({}, dict(ref_qcd.DEFAULTS)):
            x = one(r, c, v, 91.1876, over)
            if x != d:
                bad = [k for k in set(x) | set(d) if x.get(k) != d.get(k)]
                r.fail('%s: %s overrides equal to defaults give a different result for %s'
                       % ('->'.join(c[1:]), len(over), bad[:3]))
        one(r, c, v, 91.1876, every)
        one(r, c, v, 91.1876, every, kind=Sub)
        one(r, c, v, 91.1876, {p: every[p] for p in reversed(P)})
        x = one(r, c, v, 91.1876, None)
        if x != d:
            r.fail('%s: result changed after overrides were used' % (c[1:],))
        # initial conditions at their own scale
        one(r, c, v, 4.0, {'m_b': 4.0})
        one(r, c, v, 4.18, None)
        one(r, c, v, 2.0, {'m_s': 0.1})
        one(r, c, v, 91.1876, {'alpha_s': 0.12})
        one(r, c, v, 5, {'m_b': 5, 'm_Z': 90, 'm_W': 80})
        one(r, c, v, 5, {'m_b': 5, 'unused': 3})
        # entries that are not parameters
        one(r, c, v, 5., {'scale': 90., 'f': 3, 'm_d': 0.1, 'eft': 'x', 'V': None, 'alpha': 1})
        # nearly diagonal and strongly mixing CKM matrices
        one(r, c, v, 91.1876, {'Vus': 2e-3, 'Vub': 3e-4, 'Vcb': 1e-3})
        one(r, c, v, 91.1876, {'Vus': 0.6, 'Vub': 0.4, 'Vcb': 0.5, 'gamma': 2.})
        # halves: some overridden, some not
        one(r, c, v, 91.1876, {p: every[p] for p in P[::2]})
        one(r, c, v, 91.1876, {p: every[p] for p in P[1::2]})
    return r
