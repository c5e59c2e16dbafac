"""QCD running: the grid of arguments is compared with the reference chain of
RunDec legs; invalid arguments and call histories (cache) are enumerated."""
import itertools
import math
import numpy as np
import conv
import core
import ref_qcd

SC = [1.0, 1.2, 1.27, 1.3, 1.5, 2, 2.0, 2.5, 3.0, 4, 4.18, 4.2, 4.8, 5.0, 10., 80.385, 91, 91.1876, 120, 160., 163.3, 170, 170.5, 200., 500, 1000., 1e4]
AS = [None, 0.1185, 0.118, 0.12, 0.1]
INIT = {'m_b': [4.18, 4.2, 4, 4.8], 'm_c': [1.27, 1.3, 1.4], 'm_s': [0.095, 0.1, 0.093]}
FINE = sorted({round(1 + 0.07 * i, 6) for i in range(130)} | {10 ** (1 + i / 20.) for i in range(70)})
BOUNDS = {'quick': 'alpha_s, m_b, m_c, m_s on %d scales x f=3..6 x %d values of alpha_s(MZ) x 3-4 initial masses; numerical solution of the RGE; every argument form; all invalid arguments of an alphabet; all ordered pairs of equal arguments of different types; all sequences of up to 4 calls out of 14 colliding calls and sequences overflowing the cache' % (len(SC) + len(FINE), len(AS)),
          'thorough': 'as quick, with sequences up to 5 calls'}
ASSUMPTIONS = ['the compiled RunDec routines are trusted; their composition (loop order, thresholds, initial conditions) is the model',
               'scales above 1 GeV (perturbative domain)', 'flavour numbers are integers']
BADSC = [0, -1, -2.5, 0.0, None, '4.2', 'x', 1j, (1,), float('-inf'), -1e-300]
BADF = {'alpha_s': [2, 7, 0, -3, 100, 3.5, 4.5, 2.5, 7.5], 'm_b': [2, 7, 0, -5, 3.5, 4.5], 'm_c': [2, 6, 7, 0, 3.5, 4.5], 'm_s': [2, 6, 7, 0, 3.5, 4.5]}
FLAV = {'alpha_s': (3, 4, 5, 6), 'm_b': (3, 4, 5, 6), 'm_c': (3, 4, 5), 'm_s': (3, 4, 5)}


def same(a, b):
    if isinstance(a, bool) or not isinstance(a, (int, float)):
        return False
    if math.isnan(b):
        return math.isnan(a)
    return abs(a - b) <= 1e-10 * abs(b)


def call(q, fn, m, mu, f, a, form=0):
    """All argument forms."""
    pos = () if fn == 'alpha_s' else (m,)
    name = {'m_b': 'mbmb', 'm_c': 'mcmc', 'm_s': 'ms2'}.get(fn)
    g = getattr(q, fn)
    if form == 0:
        return g(*(pos + (mu, f) + (() if a is None else (a,))))
    kw = {'scale': mu, 'f': f}
    if a is not None:
        kw['alphasMZ'] = a
    if form == 1:
        return g(*pos, **kw)
    if form == 2:
        if name:
            kw[name] = m
        return g(**kw)
    kw.pop('scale')
    return g(*(pos + (mu,)), **kw)


def expect(fn, m, mu, f, a):
    a = 0.1185 if a is None else a
    if fn == 'alpha_s':
        return ref_qcd.alpha_s(mu, f, a)
    return getattr(ref_qcd, fn)(m, mu, f, a)


def ms(fn):
    return INIT.get(fn, [None])


def clear(q):
    for fn in FLAV:
        c = getattr(getattr(q, fn), 'cache_clear', None)
        if c:
            c()


# calls which share some or all argument values
HIST = [('alpha_s', None, 4.18, 5, None), ('alpha_s', None, 4.18, 4, None), ('alpha_s', None, 4.18, 5, 0.12), ('alpha_s', None, 91.1876, 5, 0.12), ('alpha_s', None, 2, 3, None),
        ('m_b', 4.18, 4.18, 5, None), ('m_b', 4.18, 4.18, 4, None), ('m_b', 4.18, 160., 5, 0.12), ('m_b', 4.18, 160., 5, None), ('m_b', 4.2, 160., 5, None),
        ('m_c', 1.3, 1.3, 4, None), ('m_c', 1.3, 1.3, 3, None), ('m_s', 0.095, 2, 3, None), ('m_s', 0.095, 160., 5, None)]


def rge(a, mu0, mu1, nf, n=400):
    b = [11 - 2 * nf / 3., 102 - 38 * nf / 3., 2857 / 2. - 5033 * nf / 18. + 325 * nf ** 2 / 54.]

    def f(a):
        x = a / (4 * math.pi)
        return -2 * a * (b[0] * x + b[1] * x ** 2 + b[2] * x ** 3)
    h = math.log(mu1 / mu0) / n
    for _ in range(n):
        k1 = f(a)
        k2 = f(a + h * k1 / 2)
        k3 = f(a + h * k2 / 2)
        k4 = f(a + h * k3)
        a += h * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    return a


def setup(tier):
    conv.init()


def cases(tier):
    out = [['grid', fn, f, i, j, 0] for fn in FLAV for f in FLAV[fn] for i in range(len(ms(fn))) for j in range(len(AS))]
    out += [['forms', fn, f] for fn in FLAV for f in FLAV[fn]]
    out += [['bad', fn] for fn in FLAV] + [['init', fn] for fn in FLAV]
    out += [['mono', fn, f] for fn in FLAV for f in FLAV[fn]]
    out += [['hist', i, j, 2 if tier == 'quick' else 3] for i in range(len(HIST)) for j in range(len(HIST))]
    out += [['overflow', fn, k] for fn in FLAV for k in (31, 32, 33, 64, 65)]
    out += [['near', fn, f, w] for fn in FLAV for f in FLAV[fn] for w in ('scale', 'mass', 'alphas')]
    out += [['types', fn, f] for fn in FLAV for f in FLAV[fn]]
    out += [['rge', a] for a in AS[1:]]
    if True:
        out += [['grid', fn, f, i, j, 1] for fn in FLAV for f in FLAV[fn] for i in range(len(ms(fn))) for j in range(len(AS))]
    return out


def run(case):
    conv.init()
    from wcxf.util import qcd as q
    r = core.Result()
    k = r.outcome = case[0]

    def go(fn, m, mu, f, a, form=0, what=''):
        x = call(q, fn, m, mu, f, a, form)
        e = expect(fn, m, mu, f, a)
        r.calls += 1
        r.state([fn, m, float(mu), f, a])
        if not same(x, e):
            r.fail('%s%s(m=%s, scale=%s, f=%s, alphasMZ=%s) = %r, expected %r' % (what, fn, m, mu, f, a, x, e))
        return x
    if k == 'grid':
        fn, f, i, j, fine = case[1:]
        for mu in (FINE if fine else SC):
            go(fn, ms(fn)[i], mu, f, AS[j])
    elif k == 'near':
        # almost equal arguments one after the other, in both directions
        fn, f, what = case[1:]
        for mu in (1.3, 2.0, 4.18, 91.1876, 163.3):
            for m in ms(fn)[:2]:
                for eps in (0.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8):
                    for sg in (1, -1):
                        clear(q)
                        x = 1 + sg * eps
                        n = (fn, m, mu, f, 0.1185)
                        if what == 'scale':
                            n = (fn, m, mu * x, f, 0.1185)
                        elif what == 'mass' and m is not None:
                            n = (fn, m * x, mu, f, 0.1185)
                        elif what == 'alphas':
                            n = (fn, m, mu, f, 0.1185 * x)
                        go(fn, m, mu, f, 0.1185, 0, 'near: ')
                        go(*n, 0, 'near: ')
                        go(fn, m, mu, f, 0.1185, 0, 'near: ')
    elif k == 'types':
        # arguments that are equal but of different type, one after the other;
        # every pair has a scale of its own
        fn, f = case[1:]
        var = list(itertools.product((int, float, np.float64, np.int64, np.float32, complex, str), (int, float, np.int64))) + [(int, str), (int, complex)]
        mu = 100

        def attempt(v, mu):
            r.calls += 1
            try:
                x = call(q, fn, ms(fn)[0], v[0](mu), v[1](f), None)
            except ValueError:
                return 'ValueError'
            except Exception as e:
                return type(e).__name__
            if not same(x, expect(fn, ms(fn)[0], mu, f, None)):
                r.fail('%s(scale=%r, f=%r) = %r' % (fn, v[0](mu), v[1](f), x))
            return 'value'
        alone = {}
        for v in var:
            mu += 1
            alone[v] = attempt(v, mu)
        for v, w in itertools.product(var, var):
            mu += 1
            attempt(v, mu)
            x = attempt(w, mu)
            r.state([fn, f, mu])
            if x != alone[w]:
                r.fail('%s(scale=%r, f=%r): %s, but %s after the call with (%r, %r)' % (fn, w[0](mu), w[1](f), alone[w], x, v[0](mu), v[1](f)))
        if alone[int, int] != 'value' or alone[float, int] != 'value' or alone[str, int] != 'ValueError':
            r.fail('%s f=%s: %s' % (fn, f, alone))
    elif k == 'forms':
        fn, f = case[1:]
        for form, a, mu in itertools.product(range(4), (None, 0.1185, 0.12), (1.3, 4.18, 91.1876)):
            go(fn, ms(fn)[0], mu, f, a, form, 'form %d: ' % form)
    elif k == 'bad':
        fn = case[1]
        for b in BADSC:
            for f in FLAV[fn]:
                for a in (None, 0.12):
                    try:
                        x = call(q, fn, ms(fn)[0], b, f, a)
                    except ValueError:
                        pass
                    except Exception as e:
                        r.fail('%s scale=%r f=%s: %s' % (fn, b, f, core.exc_name(e)))
                    else:
                        r.fail('%s scale=%r f=%s accepted: %r' % (fn, b, f, x))
                    r.calls += 1
                    r.state([fn, str(b), f])
        for f in BADF[fn]:
            for mu in (2, 4.18, 91.1876, 1.27, 200.):
                for a in (None, 0.12):
                    try:
                        x = call(q, fn, ms(fn)[0], mu, f, a)
                    except ValueError:
                        pass
                    except Exception as e:
                        r.fail('%s scale=%r f=%r: %s' % (fn, mu, f, core.exc_name(e)))
                    else:
                        r.fail('%s scale=%r f=%r accepted: %r' % (fn, mu, f, x))
                    r.calls += 1
                    r.state([fn, mu, f])
    elif k == 'init':
        # the initial condition is returned at its own scale
        fn = case[1]
        for a in AS[1:]:
            for m in (ms(fn) if fn != 'alpha_s' else [None]):
                if fn == 'alpha_s':
                    x, e = q.alpha_s(91.1876, 5, a), a
                elif fn == 'm_b':
                    x, e = q.m_b(m, m, 5, a), m
                elif fn == 'm_c':
                    x, e = q.m_c(m, m, 4, a), m
                else:
                    x, e = q.m_s(m, 2, 3, a), m
                    if q.m_s(m, 2.0, 3, a) != m:
                        r.fail('m_s(2.0)')
                r.calls += 1
                r.state([fn, m, a])
                if x != e:
                    r.fail('%s: initial condition %s returned as %r' % (fn, e, x))
    elif k == 'mono':
        # physics sanity, independent of RunDec's composition: monotonically
        # falling with the scale in the perturbative range
        fn, f = case[1:]
        xs = [s for s in FINE if 2 <= s <= 1000]
        ys = [call(q, fn, ms(fn)[0], s, f, None) for s in xs]
        r.calls += len(xs)
        r.state([fn, f])
        if not all(a > b > 0 for a, b in zip(ys, ys[1:])):
            r.fail('%s f=%s is not falling with the scale' % (fn, f))
    elif k == 'rge':
        # independent numerical solution of the 3-loop RGE with 5 flavours
        for mu in SC:
            if mu < 4:
                continue
            e = rge(case[1], 91.1876, mu, 5)
            x = q.alpha_s(mu, 5, case[1])
            r.calls += 1
            r.state([case[1], mu])
            if abs(x - e) > 2e-6 * e:
                r.fail('alpha_s(%s) = %r, numerical solution of the RGE: %r' % (mu, x, e))
    elif k == 'hist':
        i, j, depth = case[1:]
        for tail in itertools.product(range(len(HIST)), repeat=depth):
            clear(q)
            for n in (i, j) + tail:
                go(*HIST[n], what='after %s: ' % (case[1:],))
    elif k == 'overflow':
        fn, n = case[1:]
        clear(q)
        seq = [(fn, ms(fn)[0], 2. + 0.5 * t, FLAV[fn][t % len(FLAV[fn])], None if t % 2 else 0.12) for t in range(n)]
        for t in seq + seq + seq[::-1]:
            go(*t, what='overflow: ')
    return r
