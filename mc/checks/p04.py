import conv
import core
CONV = conv.WET_T + conv.SM_T
MASS = ('T', 'SMEFT', 'Warsaw', 'Warsaw mass')
SLOW = conv.SM_T[:2]
FACT = [-1., 2., 0.5, 1e-12, 1e-3, 1e6, 1e-30, 1e-100, 1e60]
BOUNDS = '%d translators: leave-one-out and explicit zero (thorough: also doubling) for every coefficient of a dense file (explicit zeros for Warsaw <-> Warsaw up in the thorough tier); all pairs of operator groups; 9 scale factors from 1e-100 to 1e60; each operator group next to all others smaller by 1e-9; 4 key orders; 3 decompositions into real and imaginary part, two dense vectors, halves' % len(CONV)
ASSUMPTIONS = ['equality up to rounding (1e-9 relative, 1e-12 of the largest entry)']


def setup(tier):
    conv.init()


def gs(c):
    return [g for g in conv.groups(c) if not (c == MASS and g == 'llphiphi')]


def cases(tier):
    out = []
    for c in CONV:
        for ns in conv.chunks(conv.names(c), 24):
            out.append(['loo', list(c), ns, 3 if tier == 'thorough' else 1 if c in SLOW else 2])
        g = gs(c)
        prs = [[a, b] for i, a in enumerate(g) for b in g[i + 1:]]
        out += [['pairs', list(c), p] for p in conv.chunks(prs, 64)]
        out.append(['global', list(c)])
        out += [['hier', list(c), x] for x in conv.chunks(list(g), 8)]
        if tier == 'thorough':
            out += [['pairsI', list(c), p] for p in conv.chunks(prs, 64)]
    return out


_G = {}


def f(r, c, v, scale=4.8):
    r.calls += 1
    return core.wc_out(conv.apply(c, conv.wc(c, v, scale)))


def lin(a, x, b, y):
    return {k: a * x.get(k, 0) + b * y.get(k, 0) for k in set(x) | set(y)}


def eq(r, c, got, exp, scale_of, what, mi=5.):
    rt, at = conv.tol(c, {'': mi}, scale_of, 4.8)
    r.state(sorted((k, '%.5g' % abs(v)) for k, v in exp.items() if abs(v) > at(k)))
    for d in core.compare(got, exp, rt, at, what):
        r.fail(d)


def drop5(c, d):
    return {k: v for k, v in d.items() if not (c == MASS and k.startswith('llphiphi'))}


def full(c, tag='a'):
    if (c, tag) not in _G:
        _G[c, tag] = drop5(c, core.dense(conv.names(c), tag, conv.real(c)))
    return _G[c, tag]


def run(case):
    conv.init()
    r = core.Result()
    c = tuple(case[1])
    what = '->'.join(c[1:])
    r.outcome = case[0]
    if case[0] == 'loo':
        d = full(c)
        fd = f(r, c, d)
        for n in case[2]:
            if n not in d:
                continue
            one = f(r, c, {n: d[n]})
            e = dict(d)
            del e[n]
            absent = f(r, c, e)
            eq(r, c, absent, lin(1, fd, -1, one), fd, what + ' without ' + n)
            if case[3] < 2:
                continue
            e[n] = 0
            eq(r, c, f(r, c, e), absent, fd, what + ' zero ' + n)
            if case[3] < 3:
                continue
            e[n] = core.enc(2 * core.num(d[n]))
            eq(r, c, f(r, c, e), lin(1, fd, 1, one), fd, what + ' twice ' + n)
    elif case[0] == 'hier':
        # one group much larger than all others: the small ones must survive
        g, d, x = conv.groups(c), full(c), 1e-9
        for a in case[2]:
            big = {n: d[n] for n in g[a]}
            small = {n: core.enc(x * core.num(v)) for n, v in d.items() if n not in big}
            fa, fs = f(r, c, big), f(r, c, small)
            both = f(r, c, dict(small, **big))
            ks = set(fs) - set(fa)
            eq(r, c, {k: v for k, v in both.items() if k not in fa}, {k: fs[k] for k in ks}, {k: fs[k] for k in ks},
               '%s large %s' % (what, a))
    elif case[0] in ('pairs', 'pairsI'):
        g = conv.groups(c)
        d = full(c, 'b' if case[0] == 'pairs' else 'c')
        for a, b in case[2]:
            for x in (a, b):
                if (c, case[0], x) not in _G:
                    _G[c, case[0], x] = f(r, c, {n: d[n] for n in g[x]})
            fa, fb = _G[c, case[0], a], _G[c, case[0], b]
            v = {n: d[n] for n in g[a] + g[b]}
            s = lin(1, fa, 1, fb)
            eq(r, c, f(r, c, v), s, s, '%s %s + %s' % (what, a, b))
    else:
        d, e = full(c), full(c, 'b')
        fd, fe = f(r, c, d), f(r, c, e)
        for x in FACT:
            eq(r, c, f(r, c, {k: core.enc(x * core.num(v)) for k, v in d.items()}),
               lin(x, fd, 0, {}), lin(x, fd, 0, {}), what + ' factor %g' % x, 5 * abs(x))
        s = lin(1, fd, 1, fe)
        eq(r, c, f(r, c, {k: core.enc(core.num(d[k]) + core.num(e[k])) for k in d}), s, s, what + ' sum')
        re = {k: core.num(v).real for k, v in d.items()}
        im = {k: core.enc(1j * core.num(v).imag) for k, v in d.items()}
        s = lin(1, f(r, c, re), 1, f(r, c, im))
        eq(r, c, s, fd, fd, what + ' Re + Im')
        ks = list(d)
        for order in (ks[::-1], sorted(ks), ks[1::2] + ks[::2], sorted(ks, key=lambda k: k[::-1])):
            eq(r, c, f(r, c, {k: d[k] for k in order}), fd, fd, what + ' order')
        for h in (ks[::2], ks[1::2], ks[:len(ks) // 2]):
            a = {k: d[k] for k in h}
            b = {k: d[k] for k in ks if k not in a}
            b.update({k: 0.0 for k in h})
            s = lin(1, f(r, c, a), 1, f(r, c, b))
            eq(r, c, s, fd, fd, what + ' halves')
    return r
