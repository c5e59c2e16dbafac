"""Shared machinery of the conversion checks: list of converters, input
alphabets, execution of the real code and of the reference model."""
import numpy as np
import copy
import math
import core
import ref_qcd
import ref_smeft
import ref_wet

W = None            # the wcxf module


def init():
    global W
    if W is None:
        W = core.fresh()
    return W


# converter ids: ('T', eft, src, dst) or ('M', eft, src, eft2, dst)
WET_T = [('T',) + k for k in ref_wet.TRANSLATORS]
SM_T = [('T',) + k for k in ref_smeft.TRANSLATORS]
SM_M = [('M', 'SMEFT', 'Warsaw up', 'WET', 'JMS')] + \
    [('M', 'SMEFT', 'Warsaw', 'WET', b) for b in ('JMS', 'flavio', 'EOS', 'Bern')]
TH_M = [('M', a, b, c, b) for b in ('flavio', 'Bern', 'JMS')
        for a, c in (('WET', 'WET-4'), ('WET-4', 'WET-3'))] + \
    [('M', 'WET-3', 'JMS', 'WET-2', 'JMS')]
ALL = WET_T + SM_T + SM_M + TH_M

SCALES = [1.5, 4.18, 4.2, 4.8, 80., 91.1876, 160., 1000.]


def target(c):
    return (c[1], c[3]) if c[0] == 'T' else (c[3], c[4])


def source(c):
    return c[1], c[2]


def size(c):
    """natural magnitude of the coefficients of the source"""
    return 1e-8 if c in SM_M else 1.


def names(c):
    return core.names(*source(c))


def real(c):
    e, b = source(c)
    return {n for n in core.names(e, b) if core.is_real(e, b, n)}


def group(n):
    """operator group of a coefficient name"""
    for s in ('_', '::'):
        if s in n:
            a, b = n.split(s, 1)
            return a if s == '_' else b
    i = 0
    while i < len(n) and (n[i].isdigit()):
        i += 1
    j = i
    while i and j < len(n) and n[j] == 'p':
        j += 1
    if n.startswith('nu1'):
        return 'nu1' + ('p' if n[3:4] == 'p' else '')
    return n[:j] if j else n


def groups(c):
    out = {}
    for n in names(c):
        out.setdefault(group(n), []).append(n)
    return out


def ref(c, C, scale, over=None):
    """Reference result {name: complex} for input numbers C."""
    c = tuple(c)
    if c in TH_M:
        keep = set(core.names(*target(c)))
        return {k: complex(v) for k, v in C.items() if k in keep}
    if c[0] == 'T' and c[1] == 'SMEFT':
        return ref_smeft.TRANSLATORS[c[1:]](C, over)
    if c[0] == 'T':
        return ref_wet.translate(c[1], c[2], c[3], C, scale, over)
    return ref_smeft.match(c[4], C, scale, over, src=c[2])


def wc(c, values, scale=91.1876, **kw):
    return W.WC(c[1], c[2], scale, values, **kw)


def apply(c, w, parameters=None):
    if c[0] == 'T':
        if parameters is None:
            return w.translate(c[3])
        return w.translate(c[3], parameters=parameters)
    if parameters is None:
        return w.match(c[3], c[4])
    return w.match(c[3], c[4], parameters=parameters)


_PREF = {}


def pref(c, scale):
    """Largest conversion factor of each group of output coefficients."""
    k = (c, scale)
    if k not in _PREF:
        if c in SM_M:
            t = ('T', 'WET', 'JMS', c[4])
        else:
            t = c
        m = {}
        if c not in TH_M and t[2] != t[3]:
            d = core.dense(names(t), 'n', real(t))
            for n, v in ref(t, {n: core.num(v) for n, v in d.items()}, scale).items():
                m[group(n)] = max(m.get(group(n), 0), abs(v))
        _PREF[k] = m
    return _PREF[k]


def tol(c, C, exp, scale):
    """(rtol, atol(name)): rounding noise of a conversion.  The absolute part
    is set per group of output coefficients, which have very different
    conversion factors; in the matching it includes the noise of the
    subtracted SM part (about 1e-5/GeV^2)."""
    c = tuple(c)
    p = pref(c, scale)
    mi = max([abs(v) for v in C.values()] or [0])
    big = {}
    for k, v in exp.items():
        g = group(k)
        big[g] = max(big.get(g, 0), abs(v))
    sm = c in SM_M
    noise = 1e-13 * mi + (1e-19 if sm else 0)
    rel = 1e-9 if sm else 1e-12

    def atol(k):
        g = group(k)
        return max(noise * p.get(g, 1.), rel * big.get(g, 0))
    return (1e-7 if sm else 1e-9), atol


def check(r, c, values, scale, over=None, what=''):
    """Run converter on `values` and compare with the reference."""
    c = tuple(c)
    C = {k: core.num(v) for k, v in values.items()}
    w = wc(c, values, scale)
    out = apply(c, w, None if over is None else dict(over))
    r.calls += 1
    got = core.wc_out(out)
    exp = ref(c, C, scale, over)
    rt, at = tol(c, C, exp, scale)
    r.state([c, sorted((k, '%.6g' % abs(v)) for k, v in exp.items() if abs(v) > at(k))])
    for d in core.compare(got, exp, rt, at, '%s %s' % ('->'.join(c[1:]), what)):
        r.fail(d)
    return out, got, exp


def zval(n, tag='z', is_real=False):
    """non-trivial value attached to a name"""
    v = core.dense([n], tag, {n} if is_real else ())[n]
    return core.num(v)


def unitary(k):
    """fixed 3x3 unitary matrices (0: identity)"""
    out = np.eye(3, dtype=complex)
    for i, j, t, ph in (((0, 1, .6, .3), (1, 2, .8, -1.), (0, 2, .15, 2.))[:3] if k == 1 else ((0, 1, 1.2, 0.), (1, 2, .4, 0.)) if k else ()):
        g = np.eye(3, dtype=complex)
        g[i, i] = g[j, j] = np.cos(t)
        g[i, j] = np.sin(t) * np.exp(1j * ph)
        g[j, i] = -np.sin(t) * np.exp(-1j * ph)
        out = out @ g
    return out


def chunks(l, k):
    return [l[i:i + k] for i in range(0, len(l), k)]


# --------------------------------------------------------------- value cases
# the interior of every regime and wide tails
GRID = [1., 1.1, 1.27, 1.35, 1.8, 2., 2.2, 2.7, 3., 3.5, 4., 4.5, 5., 5.7, 7., 8.5, 10., 14., 20., 30., 42., 60., 75., 88., 95., 100., 125., 172.5,
        173., 246., 300., 500., 750., 1e3 + 1, 2e3, 5e3, 1e4, 1e5]


# files whose coefficients coincide (up to sign or phase)
UNI = ['one', 'i', 'phase', 'alt', 'integer']


def uniform(ns, kind, rl, sz):
    val = {'one': lambda i: 1., 'i': lambda i: 1j, 'phase': lambda i: 1 + 1j, 'alt': lambda i: (-1.) ** i, 'integer': lambda i: 2}[kind]
    if kind == 'integer' and sz == 1.:
        return {n: 2 for n in ns}
    return {n: core.enc(sz * (abs(val(i)) if n in rl and isinstance(val(i), complex) else val(i))) for i, n in enumerate(ns)}


def value_cases(convs, tier, singles=True, chunk=24, scales=SCALES, heavy=()):
    out = []
    for c in convs:
        c = list(c)
        for s in scales:
            out.append(['dense', c, 'a', s, 1.0])
        if scales is SCALES:
            for s in GRID:
                out.append(['dense', c, 's', s, 1.0])
            if tier == 'thorough':
                for i in range(1, 400):
                    out.append(['dense', c, 's', round(10 ** (i / 80.), 3), 1.0])
        for t in (['b'] if tier == 'quick' else ['b', 'c', 'd', 'e', 'f']):
            out.append(['dense', c, t, 91.1876, 1.0])
        for m in (1e-30, 1e-12, 1e-3, 1e6):
            if tuple(c) in SM_M and not 1e-4 <= m <= 1:
                continue
            out.append(['dense', c, 'm', 4.8, m])
        for g in groups(tuple(c)):
            for s in ([91.1876] if tier == 'quick' else [1.5, 4.8, 91.1876, 1000.]):
                out.append(['group', c, g, s])
        for k in UNI:
            out.append(['uni', c, k, None])
            out += [['uni', c, k, g] for g in chunks(sorted(groups(tuple(c))), 12)] if tuple(c) not in SM_M or tier == 'thorough' else []
        if singles and tuple(c) not in heavy or tier == 'thorough':
            kinds = ['z', 'one'] if tier == 'quick' else ['z', 'one', 'i', 'neg']
            if tuple(c) in SM_M and tier == 'quick':
                kinds = ['z', 'one']
            for kd in kinds:
                for ns in chunks(names(tuple(c)), chunk):
                    out.append(['single', c, kd, ns])
    return out


def value_run(case):
    init()
    r = core.Result()
    kind, c = case[0], tuple(case[1])
    sz = size(c)
    if kind == 'dense':
        tag, s, m = case[2:]
        check(r, c, core.dense(names(c), tag, real(c), sz * m), s, what='dense')
    elif kind == 'group':
        g, s = case[2:]
        ns = groups(c)[g]
        for m in ((1.,) if c not in SM_M else (1., 100., 1000.)):
            check(r, c, core.dense(ns, 'g', real(c), sz * m), s, what='group ' + g)
    elif kind == 'uni':
        k, gs = case[2:]
        for ns in [names(c)] if gs is None else [groups(c)[g] for g in gs]:
            check(r, c, uniform(ns, k, real(c), sz), 4.8, what='equal values')
    elif kind == 'single':
        kd, ns = case[2:]
        rl = real(c)
        for n in ns:
            v = {'z': zval(n, 'z', n in rl), 'one': 1., 'neg': -2.5,
                 'i': 1j if n not in rl else 3.}[kd]
            check(r, c, {n: core.enc(v * sz)}, 4.8 if kd == 'z' else 91.1876, what=n)
    r.outcome = kind
    return r


# --------------------------------------------------------------- global state
def global_state():
    """Hash of all state that conversions must leave alone."""
    import wcxf.parameters
    st = []
    st.append(sorted(wcxf.parameters.p.items()))
    for cls in (W.EFT, W.Basis, W.Translator, W.Matcher):
        st.append([str(k) for k in cls.instances])
    for k, b in W.Basis.instances.items():
        st.append((k, tuple(b.all_wcs), [(s, len(d), hash(tuple(d))) for s, d in b.sectors.items()]))
    return core.hash_obj(st)
