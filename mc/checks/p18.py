import copy
from itertools import product
import numpy as np
import conv
import core
# converter output numbers
OUTV = [0, 0.0, -0.0, 1, 2.5, -1e-300, 1j, 3 - 4j, 0j, complex(2, 0), np.float64(0), np.float64(1.5), np.complex128(0), np.complex128(1j), np.complex128(2), np.int64(3), 1e300 + 0j]
INV = [1.5, '2', {'Re': 1, 'Im': -1}, {'Im': 3}, 0, {'Re': 0}]
SC = [1.5, 91.1876, '160', 1000, 0.1 + 0.2, 91.18760000000001, 123456789.12345679]
PARS = ['none', 'default', {}, {'m_b': 4.5}, {'x': object}, {'scale': 7., 'eft': 'X', 'basis': 'Y', 'to_basis': 'Z', 'to_eft': 'X', 'values': {}}]
# fields of the input file that have no meaning for a conversion
EXTRA = {'parameters': {'GF': 2., 'x': 1}, 'metadata': {'scale': 5}, 'to_basis': 'C', 'function': 'f', 'from_basis': 'B'}
NM = ['A', 'B', 'C']
BOUNDS = 'real registry: every (EFT, basis, target) triple and (EFT, basis, EFT, basis) quadruple over all known names and unknown ones, in both argument forms, compared with the list of documented converters; small registries: all subsets of 5 converters x all requests, all ordered pairs of registrations, all outputs over %d numbers in ordered pairs, inputs, scales and parameters' % len(OUTV)
ASSUMPTIONS = ['converter list: 20 translators, 12 matchers']


def setup(tier):
    conv.init()


TR = {c[1:] for c in conv.WET_T + conv.SM_T}
MA = {c[1:] for c in conv.SM_M + conv.TH_M}
CUST = [('E', 'A', 'B'), ('E', 'B', 'A'), ('F', 'A', 'B'), ('E', 'A', 'C'), ('E', 'A', 'A')]
CUSTM = [('E', 'A', 'F', 'A'), ('E', 'A', 'F', 'B'), ('F', 'A', 'E', 'A'), ('E', 'B', 'F', 'A'), ('E', 'A', 'E', 'A')]


def cases(tier):
    es, bs = core.definitions()
    efts = [e['eft'] for e in es] + ['SMEFT-5', '', 'wet']
    bases = sorted({b['basis'] for b in bs}) + ['nobasis', '', 'jms', 'Warsaw ']
    out = [['realT', e, b, bases] for e in efts for b in bases]
    out += [['realM', e, b, efts, bases] for e in efts for b in bases]
    out += [['subT', m] for m in range(32)] + [['subM', m] for m in range(32)]
    out += [['out', i] for i in range(len(OUTV))]
    out += [['args', s, p] for s in range(len(SC)) for p in range(len(PARS))]
    out += [['latest', k] for k in range(4)]
    out += [['dict']]
    return out


def attempt(f):
    try:
        return f(), None
    except ValueError as x:
        return None, 'ValueError'
    except Exception as x:
        return None, core.exc_name(x)


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    k = r.outcome = case[0]
    if k == 'realT':
        e, b = case[1:3]
        for t in case[3]:
            for f in (lambda w: w.translate(t), lambda w: w.translate(t, None), lambda w: w.translate(to_basis=t, parameters={})):
                w = W.WC(e, b, 91.1876, {})
                o, err = attempt(lambda: f(w))
                r.calls += 1
                known = (e, b, t) in TR
                r.state([e, b, t])
                if known and err:
                    r.fail('translate %s %s -> %s: %s' % (e, b, t, err))
                elif not known and err != 'ValueError':
                    r.fail('translate %s %s -> %s: expected ValueError, got %s' % (e, b, t, err or 'a result'))
                elif known and (o.eft, o.basis, o.scale) != (e, t, 91.1876):
                    r.fail('translate %s %s -> %s: labels %s %s %s' % (e, b, t, o.eft, o.basis, o.scale))
        return r
    if k == 'realM':
        e, b = case[1:3]
        for e2, b2 in product(case[3], case[4]):
            w = W.WC(e, b, 91.1876, {})
            forms = [lambda: w.match(e2, b2), lambda: w.match(to_eft=e2, to_basis=b2, parameters={})]
            for f in forms[:1 if (e, b, e2, b2) in MA and e == 'SMEFT' else 2]:
                o, err = attempt(f)
                r.calls += 1
                known = (e, b, e2, b2) in MA
                r.state([e, b, e2, b2])
                if known and err:
                    r.fail('match %s %s -> %s %s: %s' % (e, b, e2, b2, err))
                elif not known and err != 'ValueError':
                    r.fail('match %s %s -> %s %s: expected ValueError, got %s' % (e, b, e2, b2, err or 'a result'))
                elif known and (o.eft, o.basis, o.scale) != (e2, b2, 91.1876):
                    r.fail('match %s %s -> %s %s: labels %s %s' % (e, b, e2, b2, o.eft, o.basis))
        return r
    with core.registries(W, ('EFT', 'Basis', 'Translator', 'Matcher')):
        log = []

        def conv_fn(tag, out=None):
            def f(C, scale, parameters):
                log.append((tag, dict(C), {n: type(v) for n, v in C.items()}, scale, parameters))
                return {'x': float(tag) + 1} if out is None else out
            return f
        if k in ('subT', 'subM'):
            cust = CUST if k == 'subT' else CUSTM
            other = CUSTM if k == 'subT' else CUST
            have = [c for i, c in enumerate(cust) if case[1] >> i & 1]
            for deco in (False, True):
                W.Translator.clear_all()
                W.Matcher.clear_all()
                # the other registry is filled completely: must not matter
                for i, c in enumerate(other):
                    (W.Matcher if k == 'subT' else W.Translator)(*(c + (conv_fn(100 + i),)))
                for i, c in enumerate(cust):
                    if c in have:
                        f = conv_fn(i)
                        if deco:
                            g = (W.translator if k == 'subT' else W.matcher)(*c)(f)
                            if g is not f:
                                r.fail('decorator does not return the function')
                        else:
                            (W.Translator if k == 'subT' else W.Matcher)(*(c + (f,)))
                for e, b, t, u in product('EFG', NM + ['D'], 'EFG' if k == 'subM' else 'E', NM + ['D']):
                    w = W.WC(e, b, 5, {'a': 1})
                    del log[:]
                    if k == 'subT':
                        key, lab = (e, b, u), (e, u)
                        o, err = attempt(lambda: w.translate(u))
                    else:
                        key, lab = (e, b, t, u), (t, u)
                        o, err = attempt(lambda: w.match(t, u))
                    r.calls += 1
                    r.state([have, key])
                    if key in have:
                        i = cust.index(key)
                        if err or [l[0] for l in log] != [i]:
                            r.fail('%s with %s: %s, called %s' % (key, have, err, [l[0] for l in log]))
                        elif (o.eft, o.basis, o.scale, o.values) != lab + (5., {'x': i + 1.}):
                            r.fail('%s with %s: result %s %s %s %s' % (key, have, o.eft, o.basis, o.scale, o.values))
                        elif o is w:
                            r.fail('result is the input object')
                    elif err != 'ValueError' or log:
                        r.fail('%s with %s: expected ValueError, got %s' % (key, have, err or 'a result'))
        elif k == 'out':
            for j in range(len(OUTV)):
                d = {'p': OUTV[case[1]], 'q r': OUTV[j], 'one': 1.}
                for kind in 'TM':
                    keep = dict(d)
                    if kind == 'T':
                        W.Translator('E', 'A', 'B', conv_fn(0, d))
                        o = W.WC('E', 'A', 7, {}).translate('B')
                    else:
                        W.Matcher('E', 'A', 'F', 'B', conv_fn(0, d))
                        o = W.WC('E', 'A', 7, {}).match('F', 'B')
                    r.calls += 1
                    if list(d.items()) != list(keep.items()):
                        r.fail('converter output modified')
                    exp = {n: v for n, v in keep.items() if complex(v) != 0}
                    r.state(sorted((n, str(v)) for n, v in exp.items()))
                    if set(o.values) != set(exp) or core.wc_out(o) != {n: complex(v) for n, v in exp.items()}:
                        r.fail('output %s stored as %s' % (keep, o.values))
                    for v in o.values.values():
                        parts = list(v.values()) if isinstance(v, dict) else [v]
                        if any(type(x) is not float for x in parts) or isinstance(v, dict) and v['Im'] == 0:
                            r.fail('output %s stored as %r' % (keep, v))
        elif k == 'args':
            s, p = SC[case[1]], PARS[case[2]]
            vals = {'v%d' % i: copy.deepcopy(v) for i, v in enumerate(INV)}
            for kind in 'TM':
                del log[:]
                w = W.WC('E', 'A', s, copy.deepcopy(vals), note='keep', **copy.deepcopy(EXTRA))
                W.Translator('E', 'A', 'B', conv_fn(0))
                W.Matcher('E', 'A', 'F', 'B', conv_fn(0))
                a = ('B',) if kind == 'T' else ('F', 'B')
                f = w.translate if kind == 'T' else w.match
                if p == 'none':
                    o = f(*a, parameters=None)
                elif p == 'default':
                    o = f(*a)
                else:
                    o = f(*a, parameters=p)
                r.calls += 1
                r.state([kind, str(s), str(p)])
                exp = {n: core.num(v) for n, v in vals.items()}
                if len(log) != 1:
                    r.fail('converter called %d times' % len(log))
                    continue
                tag, C, types, sc, pp = log[0]
                if {n: complex(v) for n, v in C.items()} != exp or any(issubclass(t, (dict, str)) for t in types.values()):
                    r.fail('converter received %s' % C)
                if sc != float(s) or type(sc) is not float:
                    r.fail('converter received scale %r' % (sc,))
                if p in ('none', 'default'):
                    if pp is not None:
                        r.fail('converter received parameters %r' % (pp,))
                elif pp != p:
                    r.fail('converter received parameters %r instead of %r' % (pp, p))
                if o.scale != float(s) or w.values != vals or w.note != 'keep' or any(getattr(w, a, None) != x for a, x in EXTRA.items()):
                    r.fail('scale %r or input changed' % (o.scale,))
        elif k == 'latest':
            for a, b, c in product(range(3), repeat=3):
                for t in (a, b, c):
                    if case[1] == 0:
                        W.Translator('E', 'A', 'B', conv_fn(t))
                    elif case[1] == 1:
                        W.translator('E', 'A', 'B')(conv_fn(t))
                    elif case[1] == 2:
                        W.Matcher('E', 'A', 'F', 'B', conv_fn(t))
                    else:
                        W.matcher('E', 'A', 'F', 'B')(conv_fn(t))
                    w = W.WC('E', 'A', 1, {})
                    o = w.translate('B') if case[1] < 2 else w.match('F', 'B')
                    r.calls += 1
                    r.state([case[1], a, b, c])
                    if o.values != {'x': t + 1.}:
                        r.fail('%s: registration %s not used: %s' % (case[1], t, o.values))
                # deleted again
                if case[1] < 2:
                    del W.Translator['E', 'A', 'B']
                    _, err = attempt(lambda: W.WC('E', 'A', 1, {}).translate('B'))
                else:
                    del W.Matcher['E', 'A', 'F', 'B']
                    _, err = attempt(lambda: W.WC('E', 'A', 1, {}).match('F', 'B'))
                if err != 'ValueError':
                    r.fail('deleted converter: %s' % err)
        else:
            # direct use of the converter objects
            t = W.Translator('E', 'A', 'B', conv_fn(4))
            m = W.Matcher('E', 'A', 'F', 'B', conv_fn(5))
            w = W.WC('E', 'A', 3, {'a': 1})
            for o, lab, x in ((t.translate(w), ('E', 'B'), 5.), (m.match(w), ('F', 'B'), 6.),
                              (t.translate(w, parameters={}), ('E', 'B'), 5.), (m.match(w, {}), ('F', 'B'), 6.)):
                r.calls += 1
                r.state(lab)
                if (o.eft, o.basis) != lab or o.values != {'x': x} or o.scale != 3.:
                    r.fail('direct use: %s %s %s' % (o.eft, o.basis, o.values))
            # output names need not be known; a converter failing propagates
            def boom(C, s, p):
                raise RuntimeError('boom')
            W.Translator('E', 'A', 'B', boom)
            try:
                w.translate('B')
                r.fail('exception of the converter swallowed')
            except RuntimeError:
                pass
            r.calls += 1

            def kerr(C, s, p):
                return {}['missing']
            W.Translator('E', 'A', 'B', kerr)
            try:
                w.translate('B')
                r.fail('KeyError of the converter swallowed')
            except KeyError:
                pass
            except ValueError:
                r.fail('KeyError inside a converter reported as missing converter')
            r.calls += 1
    return r
