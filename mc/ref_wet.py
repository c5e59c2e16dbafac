"""Reference model of the WET basis changes.

Written as tables over the operator definitions of the bases (arXiv:1704.06639
for Bern, 1709.04486 for JMS, the flavio/EOS/formflavor conventions), using the
following structure instead of explicit formulas per flavour:

 * J(name, indices): the JMS coefficient with any index assignment, resolved
   through the permutation/conjugation symmetry group of its operator class;
 * P (parity): exchanging L and R; used to obtain all primed coefficients;
 * colour: a singlet/octet pair (c1, c8) -> (c1 - c8/6, c8/2), and the colour
   rotation singlet/octet of the Bern basis (Fodd + Feven/3, 2 Feven);
 * fixed small matrices between Dirac structures.
"""
from math import sqrt, pi
import ckmutil.ckm
import bases
import ref_qcd

D = {'d': 0, 's': 1, 'b': 2}
U = {'u': 0, 'c': 1}
L = {'e': 0, 'mu': 1, 'tau': 2}

_LOOK = {}


def _lookup():
    """(name, idx) -> (label, conj) for every index combination."""
    if not _LOOK:
        for n, (f, cls) in bases.JMS.items():
            if not f:
                continue
            ranges = tuple(bases.RANGE[x] for x in f)
            for idx, real in bases.canonical(cls, ranges):
                lab = bases.label(n, idx)
                for j, c in bases.orbit(idx, cls):
                    if (n, j) not in _LOOK or not c:
                        _LOOK[n, j] = (lab, c)
    return _LOOK


class Jms:
    def __init__(self, C):
        self.C = C
        self.look = _lookup()

    def __call__(self, name, *idx):
        lab, c = self.look[name, idx]
        v = complex(self.C.get(lab, 0))
        return v.conjugate() if c else v


def ckm(p):
    return ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])


def xi(p, dd):
    """V_t{heavy} V_t{light}^* for dd = light+heavy."""
    V = ckm(p)
    return V[2, D[dd[1]]] * V[2, D[dd[0]]].conjugate()


def e_(p):
    return sqrt(4 * pi * p['alpha_e'])


def gs_(p):
    return sqrt(4 * pi * p['alpha_s'])


# ---------------------------------------------------------------- Delta F = 2
def susy(J, qq):
    """1..5, 1p..3p of the SUSY basis for the transition qq = light+heavy."""
    if qq[0] in 'uc' and qq[1] in 'uc':
        t, i, j = 'uu', U[qq[0]], U[qq[1]]
    else:
        t, i, j = 'dd', D[qq[0]], D[qq[1]]
    s = 'S%d' + t + 'RR'
    a1, a8 = J(s % 1, i, j, i, j), J(s % 8, i, j, i, j)
    b1, b8 = (J(s % 1, j, i, j, i).conjugate(),
              J(s % 8, j, i, j, i).conjugate())
    v1, v8 = J('V1' + t + 'LR', i, j, i, j), J('V8' + t + 'LR', i, j, i, j)
    return {'1': J('V' + t + 'LL', i, j, i, j), '1p': J('V' + t + 'RR', i, j, i, j),
            '2': b1 - b8 / 6, '3': b8 / 2, '2p': a1 - a8 / 6, '3p': a8 / 2,
            '4': -v8, '5': -2 * v1 + v8 / 3}


def df2_vlr(x, sign):
    """V/S/T chirality names from the SUSY numbers; `sign` of the S-T mixing
    (-1 for flavio, +1 for formflavor)."""
    return {'VLL': x['1'], 'VRR': x['1p'],
            'SLL': x['2'] + sign * x['3'] / 2, 'SRR': x['2p'] + sign * x['3p'] / 2,
            'TLL': -x['3'] / 8, 'TRR': -x['3p'] / 8,
            'VLR': -x['5'] / 2, 'SLR': x['4']}


# ---------------------------------------------------------------- charged currents
CC = [('1', 'VnueduLL', 'VL'), ('1p', 'VnueduLR', 'VR'),
      ('5', 'SnueduRL', 'SR'), ('5p', 'SnueduRR', 'SL'),
      ('7p', 'TnueduRR', 'T')]


def cc(J, u, d, l, lp):
    """5 numbers of the charged current u dbar l nubar_lp, by Bern number."""
    return {n: J(name, L[lp], L[l], D[d], U[u]).conjugate()
            for n, name, _ in CC}


# ---------------------------------------------------------------- four quarks
def _pair(c1, c8):
    """colour singlet/octet -> (F_odd, F_even)"""
    return c1 - c8 / 6, c8 / 2


def fierz4(J, q):
    """The 20 Fierz numbers of the four-quark flavour structure q."""
    F = {}
    if q[2] in 'uc':
        f1, f2, f3, f4 = D[q[0]], D[q[1]], U[q[2]], U[q[3]]
        F['1'], F['2'] = _pair(J('V1udLL', f3, f4, f1, f2), J('V8udLL', f3, f4, f1, f2))
        F['1p'], F['2p'] = _pair(J('V1udRR', f3, f4, f1, f2), J('V8udRR', f3, f4, f1, f2))
        F['3'], F['4'] = _pair(J('V1duLR', f1, f2, f3, f4), J('V8duLR', f1, f2, f3, f4))
        F['3p'], F['4p'] = _pair(J('V1udLR', f3, f4, f1, f2), J('V8udLR', f3, f4, f1, f2))

        def sc(pr):
            a = (f3, f4, f1, f2) if not pr else (f4, f3, f2, f1)
            x = (f3, f2, f1, f4) if not pr else (f4, f1, f2, f3)
            r = [J('S1udRR', *a), J('S8udRR', *a), J('S1udduRR', *x), J('S8udduRR', *x)]
            return [z.conjugate() for z in r] if pr else r

        def lr(pr):
            if pr:
                return J('V1udduLR', f3, f2, f1, f4), J('V8udduLR', f3, f2, f1, f4)
            return (J('V1udduLR', f4, f1, f2, f3).conjugate(),
                    J('V8udduLR', f4, f1, f2, f3).conjugate())
    else:
        f1, f2, f3, f4 = (D[x] for x in q)
        for pr, n in (('', 'VddLL'), ('p', 'VddRR')):
            F['1' + pr] = J(n, f1, f2, f3, f4)
            F['2' + pr] = J(n, f1, f4, f3, f2)
        F['3'], F['4'] = _pair(J('V1ddLR', f1, f2, f3, f4), J('V8ddLR', f1, f2, f3, f4))
        F['3p'], F['4p'] = _pair(J('V1ddLR', f3, f4, f1, f2), J('V8ddLR', f3, f4, f1, f2))

        def sc(pr):
            a = (f3, f4, f1, f2) if not pr else (f4, f3, f2, f1)
            x = (f3, f2, f1, f4) if not pr else (f4, f1, f2, f3)
            r = [J('S1ddRR', *a), J('S8ddRR', *a), J('S1ddRR', *x), J('S8ddRR', *x)]
            return [z.conjugate() for z in r] if pr else r

        def lr(pr):
            i = (f3, f2, f1, f4) if pr else (f1, f4, f3, f2)
            return J('V1ddLR', *i), J('V8ddLR', *i)
    for pr in ('', 'p'):
        s1, s8, x1, x8 = sc(bool(pr))
        F['5' + pr] = s1 - s8 / 6 - x8 / 4
        F['6' + pr] = s8 / 2 - x1 / 2 + x8 / 12
        F['9' + pr] = -x8 / 16
        F['10' + pr] = -x1 / 8 + x8 / 48
        w1, w8 = lr(bool(pr))
        F['7' + pr] = -w8
        F['8' + pr] = -2 * w1 + w8 / 3
    return F


def _vec(f1, f3):
    return (4 * f3 - f1) / 3, (f1 - f3) / 12


def _scal(f5, f7, f9):
    return (4 * f7 - f5) / 3, (f5 - f7) / 3 + f9, (f5 - f7) / 48


SAME_UP = ('dbbb', 'sbbb', 'dsss')     # 2nd = 4th field
SAME = ('sbss', 'dbdd', 'dbds', 'sbsd', 'dsdd') + SAME_UP


def bern4(F, q):
    out = {}
    for pr in ('', 'p'):
        # for identical first fields the scalar operators are named with the
        # opposite chirality
        ps = pr if q not in SAME or q in SAME_UP else ('' if pr else 'p')
        odd = {n: F[str(n) + pr] for n in (1, 3)}
        odd.update({n: F[str(n) + ps] for n in (5, 7, 9)})
        ev = {n: F[str(n) + pr] for n in (2, 4)}
        ev.update({n: F[str(n) + ps] for n in (6, 8, 10)})
        if q in SAME:
            v = [(_vec(odd[1], odd[3]), _scal(odd[5], odd[7], odd[9]), (1, 3), (5, 7, 9))]
        else:
            o = {n: odd[n] + ev[n + 1] / 3 for n in odd}
            v = [(_vec(o[1], o[3]), _scal(o[5], o[7], o[9]), (1, 3), (5, 7, 9)),
                 (_vec(2 * ev[2], 2 * ev[4]), _scal(2 * ev[6], 2 * ev[8], 2 * ev[10]),
                  (2, 4), (6, 8, 10))]
        for vv, ss, nv, ns in v:
            for n, x in zip(nv + ns, vv + ss):
                out['%d%s%s' % (n, pr, q)] = x
    return out


# rows: coefficients c1..c6 of the EOS basis
EOS4 = {
    'ud1': (1, 1 / 6, 0, 0, 0, 0), 'ud2': (0, 1 / 2, 0, 0, 0, 0),
    '3': (0, 0, 4 / 15, 0, -1 / 60, 0),
    '4': (0, 0, 4 / 45, 8 / 15, -1 / 180, -1 / 30),
    'dd1': (-6 / 5, 1 / 5, -7 / 45, 4 / 15, 7 / 180, -1 / 15),
    'dd2': (4 / 5, -7 / 15, 1 / 15, -2 / 5, -1 / 60, 1 / 10),
    'qq1': (-2 / 5, -4 / 15, -4 / 45, -2 / 15, 1 / 45, 1 / 30)}


# ---------------------------------------------------------------- semileptonic
def lep(J, dd, l, lp):
    """Fierz numbers 9, 10, S, P, T, T5, nu and primed."""
    s, b, i, j = D[dd[0]], D[dd[1]], L[l], L[lp]
    rl = J('SedRL', j, i, b, s).conjugate()
    rlp = J('SedRL', i, j, s, b)
    rr = J('SedRR', i, j, s, b)
    rrp = J('SedRR', j, i, b, s).conjugate()
    t, tp = J('TedRR', i, j, s, b), J('TedRR', j, i, b, s).conjugate()
    LL, LR = J('VedLL', i, j, s, b), J('VdeLR', s, b, i, j)
    RL, RR = J('VedLR', i, j, s, b), J('VedRR', i, j, s, b)
    return {'9': (LR + LL) / 2, '10': (LR - LL) / 2,
            '9p': (RR + RL) / 2, '10p': (RR - RL) / 2,
            'S': (rr + rl) / 2, 'P': (rr - rl) / 2,
            'Sp': (rlp + rrp) / 2, 'Pp': (rlp - rrp) / 2,
            'T': (t + tp) / 2, 'T5': (t - tp) / 2,
            'nu': J('VnudLL', i, j, s, b), 'nup': J('VnudLR', i, j, s, b)}


def bern_lep(F):
    out = {'nu1': F['nu'], 'nu1p': F['nup']}
    if '9' in F:
        for pr, sg in (('', 1), ('p', -1)):
            v, a = F['9' + pr], sg * F['10' + pr]
            s, ps = F['S' + pr], sg * F['P' + pr]
            out.update({'1' + pr: v + 5 * a / 3, '3' + pr: -a / 6,
                        '5' + pr: s - 5 * ps / 3, '9' + pr: ps / 24,
                        '7' + pr: 2 * ps / 3 + F['T'] + sg * F['T5']})
    return out


def unbern_lep(B):
    F = {'nu': B['nu1'], 'nup': B['nu1p']}
    for pr, sg in (('', 1), ('p', -1)):
        a, ps = -6 * B['3' + pr], 24 * B['9' + pr]
        F['9' + pr] = B['1' + pr] - 5 * a / 3
        F['10' + pr] = sg * a
        F['S' + pr] = B['5' + pr] + 5 * ps / 3
        F['P' + pr] = sg * ps
    return F


def _flavio_lep_norm(p, dd):
    n = sqrt(2) / p['GF'] / xi(p, dd) / 4 * 16 * pi ** 2 / e_(p) ** 2
    return {'V': n, 'S': n / p['m_b'], 'nu': n / 2}


def _flavio_dip_norm(p, dd):
    n = sqrt(2) / p['GF'] / xi(p, dd) / 4 * 16 * pi ** 2 / p['m_b']
    return {'7': n / e_(p), '8': n / gs_(p)}


def _bern_dip_norm(p):
    return {'7': gs_(p) ** 2 / e_(p) / p['m_b'], '8': gs_(p) / p['m_b']}


def dip(J, dd):
    s, b = D[dd[0]], D[dd[1]]
    return {'7': J('dgamma', s, b), '8': J('dG', s, b),
            '7p': J('dgamma', b, s).conjugate(), '8p': J('dG', b, s).conjugate()}


FL_LEP = [('9', 'V'), ('9p', 'V'), ('10', 'V'), ('10p', 'V'),
          ('S', 'S'), ('Sp', 'S'), ('P', 'S'), ('Pp', 'S')]


def _flavio_of(p, df2, ccs, leps, dips):
    out = {}
    for qq, x in df2.items():
        for n, v in df2_vlr(x, -1).items():
            out['C%s_%s' % (n, 2 * qq[::-1])] = v
    V = ckm(p)
    for (u, d, l, lp), x in ccs.items():
        n0 = -sqrt(2) / p['GF'] / V[U[u], D[d]] / 4
        for n, _, fl in CC:
            out['C%s_%s%s%snu%s' % (fl, d, u, l, lp)] = n0 * x[n]
    for (dd, l, lp), F in leps.items():
        n0 = _flavio_lep_norm(p, dd)
        q = dd[::-1]
        out['CL_%snu%snu%s' % (q, l, lp)] = n0['nu'] * F['nu']
        out['CR_%snu%snu%s' % (q, l, lp)] = n0['nu'] * F['nup']
        if dd != 'ds':
            for n, k in FL_LEP:
                out['C%s_%s%s%s' % (n, q, l, lp)] = n0[k] * F[n]
    for dd, x in dips.items():
        n0 = _flavio_dip_norm(p, dd)
        for n in ('7', '8', '7p', '8p'):
            out['C%s_%s' % (n, dd[::-1])] = n0[n[0]] * x[n]
    return out


DD = ['sb', 'db', 'ds']
UD = [(u, d) for u in 'uc' for d in 'dsb']
LL = [(l, lp) for l in L for lp in L]


def jms_to_flavio(C, p):
    J = Jms(C)
    return _flavio_of(p, {q: susy(J, q) for q in DD},
                      {(u, d, l, m): cc(J, u, d, l, m) for u, d in UD for l, m in LL},
                      {(q, l, m): lep(J, q, l, m) for q in DD for l, m in LL},
                      {q: dip(J, q) for q in DD[:2]})


def jms_to_bern(C, p):
    J = Jms(C)
    out = {}
    for q in DD:
        out.update({n + 2 * q: v for n, v in susy(J, q).items()})
        for l, m in LL:
            out.update({n + q + l + m: v
                        for n, v in bern_lep(lep(J, q, l, m)).items()})
        n0 = _bern_dip_norm(p)
        for n, v in dip(J, q).items():
            nm = {'7': '7gamma', '7p': '7pgamma', '8': '8g', '8p': '8pg'}[n]
            out[nm + q] = n0[n[0]] * v
    for u, d in UD:
        for l, m in LL:
            out.update({n + u + d + l + m: v for n, v in cc(J, u, d, l, m).items()})
    for q in [q + a + b for q in DD for a in 'uc' for b in 'uc'] \
            + ['sbdd', 'dbss', 'dsbb'] + list(SAME):
        out.update(bern4(fierz4(J, q), q))
    n0 = sqrt(2) / p['GF'] / 4
    return {k: n0 * v for k, v in out.items()}


def jms_to_eos(C, p):
    J = Jms(C)
    out = {}
    V = ckm(p)
    n0 = -sqrt(2) / p['GF'] / V[0, 2] / 4
    for l in ('e', 'mu'):
        x = cc(J, 'u', 'b', l, l)
        for n, _, fl in CC:
            out['b->u%snu%s::c%s' % (l, l, fl)] = n0 * x[n]
    n0 = sqrt(2) / p['GF'] / xi(p, 'sb') / 4
    c = [0] * 6

    def add(row, z):
        for i in range(6):
            c[i] += EOS4[row][i] * z
    for q in ('uu', 'cc', 'dd', 'ss', 'bb'):
        F = fierz4(J, 'sb' + q)
        add('3', F['3'])
        add('4', F['4'])
        if q in ('uu', 'cc'):
            add('ud1', F['1'])
            add('ud2', F['2'])
        elif q == 'dd':
            add('dd1', F['1'])
            add('dd2', F['2'])
        else:
            add('qq1', F['1'])
    for i in range(6):
        out['b->s::c%d' % (i + 1)] = n0 * c[i]
    for l in ('e', 'mu'):
        F = lep(J, 'sb', l, l)
        for n in ('9', '9p', '10', '10p', 'S', 'Sp', 'P', 'Pp', 'T', 'T5'):
            out['b->s%s%s::c%s' % (l, l, n.replace('p', "'"))] = \
                n0 * 16 * pi ** 2 / e_(p) ** 2 * F[n]
    x = dip(J, 'sb')
    mb, ms = p['m_b'], p['m_s']
    for n, g in (('7', e_(p)), ('8', gs_(p))):
        k = n0 * 16 * pi ** 2 / g / (mb ** 2 - ms ** 2)
        out["b->s::c%s" % n] = k * (mb * x[n] - ms * x[n + 'p'])
        out["b->s::c%s'" % n] = k * (mb * x[n + 'p'] - ms * x[n])
    return out


def jms_to_formflavor(C, p):
    J = Jms(C)
    out = {}
    for q in ('sb', 'db', 'ds', 'uc'):
        for n, v in df2_vlr(susy(J, q), +1).items():
            out['C%s_%s' % (n, 2 * q[::-1])] = v
    for q in ('bs', 'bd'):
        b, s = D[q[0]], D[q[1]]
        for n, v in {
                'VLL': J('VedLL', 1, 1, s, b), 'VRR': J('VedRR', 1, 1, s, b),
                'VLR': J('VdeLR', s, b, 1, 1), 'VRL': J('VedLR', 1, 1, s, b),
                'SLL': J('SedRR', 1, 1, b, s).conjugate(),
                'SRR': J('SedRR', 1, 1, s, b),
                'SLR': J('SedRL', 1, 1, s, b),
                'SRL': J('SedRL', 1, 1, b, s).conjugate(),
                'TLL': J('TedRR', 1, 1, b, s).conjugate(),
                'TRR': J('TedRR', 1, 1, s, b)}.items():
            out['C%s_%smm' % (n, q)] = v
    out['CVLL_sdnn'] = sum(J('VnudLL', i, i, 0, 1) for i in range(3)) / 3
    out['CVRL_sdnn'] = sum(J('VnudLR', i, i, 0, 1) for i in range(3)) / 3
    for q, A, G, i, j in [('sb', 'dgamma', 'dG', 1, 2), ('db', 'dgamma', 'dG', 0, 2),
                          ('dd', 'dgamma', 'dG', 0, 0), ('uu', 'ugamma', 'uG', 0, 0),
                          ('mt', 'egamma', None, 1, 2), ('em', 'egamma', None, 0, 1),
                          ('et', 'egamma', None, 0, 2)]:
        for X, name, g in (('A', A, e_(p)), ('G', G, gs_(p))):
            if name:
                out['C%sR_%s' % (X, q)] = J(name, i, j) / g
                out['C%sL_%s' % (X, q)] = J(name, j, i).conjugate() / g
    return out


def bern_to_flavio(C, p):
    B = lambda n: complex(C.get(n, 0))
    n0 = sqrt(2) / p['GF'] / 4
    df2 = {q: {n: B(n + 2 * q) for n in ('1', '2', '3', '4', '5', '1p', '2p', '3p')}
           for q in DD}
    ccs = {(u, d, l, m): {n: B(n + u + d + l + m) for n, _, _ in CC}
           for u, d in UD for l, m in LL}
    leps = {}
    for q in DD:
        for l, m in LL:
            leps[q, l, m] = unbern_lep(
                {n: B(n + q + l + m) for n in
                 ('nu1', 'nu1p', '1', '3', '5', '7', '9', '1p', '3p', '5p', '7p', '9p')})
    bd = _bern_dip_norm(p)
    dips = {q: {'7': B('7gamma' + q) / bd['7'], '8': B('8g' + q) / bd['8'],
                '7p': B('7pgamma' + q) / bd['7'], '8p': B('8pg' + q) / bd['8']}
            for q in DD[:2]}
    return {k: v / n0 for k, v in _flavio_of(p, df2, ccs, leps, dips).items()}


def flavio_to_bern(C, p):
    X = lambda n: complex(C.get(n, 0))
    out = {}
    for q in DD:
        f = '_' + 2 * q[::-1]
        for pr, ch in (('', 'LL'), ('p', 'RR')):
            out['1' + pr + 2 * q] = X('CV' + ch + f)
            out['2' + pr + 2 * q] = X('CS' + ch + f) - 4 * X('CT' + ch + f)
            out['3' + pr + 2 * q] = -8 * X('CT' + ch + f)
        out['4' + 2 * q] = X('CSLR' + f)
        out['5' + 2 * q] = -2 * X('CVLR' + f)
        n0 = _flavio_lep_norm(p, q)
        for l, m in LL:
            F = {'nu': X('CL_%snu%snu%s' % (q[::-1], l, m)) / n0['nu'],
                 'nup': X('CR_%snu%snu%s' % (q[::-1], l, m)) / n0['nu']}
            if q != 'ds':
                for n, k in FL_LEP:
                    F[n] = X('C%s_%s%s%s' % (n, q[::-1], l, m)) / n0[k]
                F['T'] = F['T5'] = 0
            out.update({n + q + l + m: v for n, v in bern_lep(F).items()})
        if q != 'ds':
            fd, bd = _flavio_dip_norm(p, q), _bern_dip_norm(p)
            for n, nm in (('7', '7gamma'), ('7p', '7pgamma'), ('8', '8g'), ('8p', '8pg')):
                out[nm + q] = X('C%s_%s' % (n, q[::-1])) / fd[n[0]] * bd[n[0]]
    V = ckm(p)
    for u, d in UD:
        n0 = -sqrt(2) / p['GF'] / V[U[u], D[d]] / 4
        for l, m in LL:
            for n, _, fl in CC:
                out[n + u + d + l + m] = X('C%s_%s%s%snu%s' % (fl, d, u, l, m)) / n0
    k = sqrt(2) / p['GF'] / 4
    return {n: k * v for n, v in out.items()}


# ---------------------------------------------------------------- FlavorKit
_FK = None


def _fk():
    global _FK
    if _FK is None:
        import core
        _FK = core.flavorkit_tables()
    return _FK


def _mlep(p, i):
    return p[['m_e', 'm_mu', 'm_tau'][int(i) - 1]]


FK_EXTRA = {'AVLL_2231': 'VeeLL_1223', 'AVRR_2231': 'VeeRR_1223'}


def flavorkit_to_jms(C, p):
    direct, conj = _fk()
    out = {}
    for k, v in C.items():
        v = complex(v)
        if k in direct:
            out[direct[k]] = v
        elif k in conj:
            out[conj[k]] = v.conjugate()
        elif k in FK_EXTRA:
            out[FK_EXTRA[k]] = v
        else:
            i, j = k[4], k[5]
            # K2R_ij multiplies e m_i / 2 with swapped indices
            out['egamma_' + j + i] = e_(p) * _mlep(p, i) / 2 * v
    return out


def jms_to_flavorkit(C, p):
    direct, conj = _fk()
    inv = {v: k for k, v in direct.items()}
    invc = {v: k for k, v in conj.items()}
    ex = {v: k for k, v in FK_EXTRA.items()}
    out = {}
    for k, v in C.items():
        v = complex(v)
        if k in inv:
            out[inv[k]] = v
        elif k in invc:
            out[invc[k]] = v.conjugate()
        elif k in ex:
            out[ex[k]] = v
        elif k.startswith('egamma_') and k[-1] != k[-2]:
            i, j = k[-1], k[-2]
            out['K2R_' + i + j] = 2 / e_(p) / _mlep(p, i) * v
    return out


def flavorkit_to_flavio(C, p):
    return jms_to_flavio(flavorkit_to_jms(C, p), p)


TRANSLATORS = {}
for _e in ('WET', 'WET-4', 'WET-3'):
    TRANSLATORS[_e, 'JMS', 'flavio'] = jms_to_flavio
    TRANSLATORS[_e, 'JMS', 'Bern'] = jms_to_bern
    TRANSLATORS[_e, 'Bern', 'flavio'] = bern_to_flavio
    TRANSLATORS[_e, 'flavio', 'Bern'] = flavio_to_bern
TRANSLATORS['WET', 'JMS', 'EOS'] = jms_to_eos
TRANSLATORS['WET', 'JMS', 'formflavor'] = jms_to_formflavor
TRANSLATORS['WET', 'FlavorKit', 'JMS'] = flavorkit_to_jms
TRANSLATORS['WET', 'JMS', 'FlavorKit'] = jms_to_flavorkit
TRANSLATORS['WET', 'FlavorKit', 'flavio'] = flavorkit_to_flavio


def translate(eft, src, dst, C, scale, overrides=None):
    """Reference translation of {name: number}."""
    return TRANSLATORS[eft, src, dst](C, ref_qcd.parameters(scale, overrides))
