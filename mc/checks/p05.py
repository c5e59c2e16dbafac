from itertools import product
import numpy as np
import conv
import core
import ref_smeft
CONV = conv.SM_T
CKM = [{'Vus': 0.3}, {'Vub': 0.05}, {'Vcb': 0.2}, {'gamma': -2.}, {'gamma': 0.001},
       {'Vus': 0.3, 'Vub': 0.05, 'Vcb': 0.1, 'gamma': 3.0},
       {'Vus': 2e-3, 'Vub': 3e-4, 'Vcb': 1e-3}, {'Vus': 2e-6, 'Vub': 3e-7, 'Vcb': 1e-6, 'gamma': -0.4}, {'Vus': 0.6, 'Vub': 0.4, 'Vcb': 0.5, 'gamma': 2.}, {'gamma': 3.141592653589793}]
# hierarchical neutrino masses: relative sizes of the singular values, mixing angles, overall size
HIER = [list(x) for x in product((1e-6, 1e-3, 1.), (1e-4, 1., 1.), (0, 1, 2), (1e-16, 1e-7, 1.))]
ENT = [0, 1., -2., 0.5 + 1j]
BOUNDS = 'all coefficients singly, groups, dense vectors, %d CKM sets, round trips, all dimension-5 matrices over %s on 6 entries (quick: 3 entries values)' % (len(CKM), ENT)
ASSUMPTIONS = ['ckmutil.ckm.ckm_tree trusted', 'reconstructed basis names']


def setup(tier):
    conv.init()


def cases(tier):
    out = conv.value_cases(CONV, tier, scales=[91.1876, 1000., 2e4, 1e16])
    for c in CONV:
        for i in range(len(CKM)):
            out.append(['ckm', list(c), i])
    for a, b in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw')):
        c = ('T', 'SMEFT', a, b)
        out += [['trip', list(c), ns, None] for ns in conv.chunks(conv.names(c), 24)]
        out += [['trip', list(c), None, i] for i in range(len(CKM))]
    ent = range(3) if tier == 'quick' else range(4)
    mats = [list(m) for m in product(ent, repeat=6)]
    out += [['mass', m] for m in conv.chunks(mats, 16)]
    out += [['hier', h] for h in HIER]
    return out


LAB = ['11', '12', '13', '22', '23', '33']


def run(case):
    if case[0] in ('dense', 'group', 'single', 'uni'):
        return conv.value_run(case)
    conv.init()
    r = core.Result()
    r.outcome = case[0]
    if case[0] == 'ckm':
        c = tuple(case[1])
        conv.check(r, c, core.dense(conv.names(c), 'k', conv.real(c)), 1000., CKM[case[2]],
                   what='ckm')
    elif case[0] == 'trip':
        c, ns, i = tuple(case[1]), case[2], case[3]
        rl = conv.real(c)
        par = None if i is None else CKM[i]
        for n in (ns or ['*']):
            v = {n: core.enc(conv.zval(n, 't', n in rl))} if ns else \
                core.dense(conv.names(c), 't', rl)
            w = conv.wc(c, v)
            x = w.translate(c[3], parameters=par).translate(c[2], parameters=par)
            r.calls += 2
            exp = core.wc_out(w)
            r.state(sorted(exp))
            for d in core.compare(core.wc_out(x), exp, 1e-9, 1e-13 * max(abs(z) for z in exp.values()),
                                  'round trip ' + n):
                r.fail(d)
    elif case[0] == 'hier':
        c = ('T', 'SMEFT', 'Warsaw', 'Warsaw mass')
        a, b, k, size = case[1]
        U = conv.unitary(k)
        M = U.T @ np.diag([a * b, b, 1.]) @ U * size
        v = {'llphiphi_' + l: core.enc(complex(M[int(l[0]) - 1, int(l[1]) - 1])) for l in LAB}
        got = core.wc_out(conv.apply(c, conv.wc(c, v)))
        r.calls += 1
        r.state(case)
        for i, x in enumerate(sorted([a * b, b, 1.])):
            z = got.get('llphiphi_%d%d' % (i + 1, i + 1), 0)
            if abs(z - x * size) > 1e-12 * size:
                r.fail('singular value %d of %s is %s instead of %s' % (i + 1, case[1], z, x * size))
    elif case[0] == 'mass':
        c = ('T', 'SMEFT', 'Warsaw', 'Warsaw mass')
        for m in case[1]:
            v = {'llphiphi_' + l: core.enc(ENT[k]) for l, k in zip(LAB, m) if ENT[k] != 0}
            v['phiG'] = 0.25
            w = conv.wc(c, v)
            got = core.wc_out(conv.apply(c, w))
            r.calls += 1
            exp = ref_smeft.warsaw_to_mass({k: core.num(z) for k, z in v.items()})
            r.state(sorted((k, '%.6g' % abs(z)) for k, z in exp.items()))
            # a vanishing singular value is only zero up to rounding
            for d in core.compare(got, exp, 1e-9, 1e-7, 'mass %s' % m):
                r.fail(d)
            s = [got.get('llphiphi_%d%d' % (i, i), 0) for i in (1, 2, 3)]
            if any(abs(complex(z).imag) > 0 or complex(z).real < 0 for z in s):
                r.fail('singular values not real and non-negative: %s' % s)
    return r
