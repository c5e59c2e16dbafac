"""Reference model of the SMEFT part: redundancy (symmetrisation), flavour
rotations, the Warsaw bases and the tree-level matching onto WET
(arXiv:1709.04486).  Everything is written with explicit index loops or one
generic rotation rule driven by the field content of each operator."""
from itertools import product
from math import sqrt, pi
import numpy as np
import ckmutil.ckm
import bases
import ref_qcd

# field content, per index: (field, barred?)   q,u,d,l,e
FIELDS = {
    'uphi': 'Qu', 'dphi': 'Qd', 'ephi': 'Le', 'eW': 'Le', 'eB': 'Le',
    'uG': 'Qu', 'uW': 'Qu', 'uB': 'Qu', 'dG': 'Qd', 'dW': 'Qd', 'dB': 'Qd',
    'phil1': 'Ll', 'phil3': 'Ll', 'phie': 'Ee', 'phiq1': 'Qq', 'phiq3': 'Qq',
    'phiu': 'Uu', 'phid': 'Dd', 'phiud': 'Ud', 'llphiphi': 'll',
    'll': 'LlLl', 'qq1': 'QqQq', 'qq3': 'QqQq', 'lq1': 'LlQq', 'lq3': 'LlQq',
    'ee': 'EeEe', 'uu': 'UuUu', 'dd': 'DdDd', 'eu': 'EeUu', 'ed': 'EeDd',
    'ud1': 'UuDd', 'ud8': 'UuDd', 'le': 'LlEe', 'lu': 'LlUu', 'ld': 'LlDd',
    'qe': 'QqEe', 'qu1': 'QqUu', 'qd1': 'QqDd', 'qu8': 'QqUu', 'qd8': 'QqDd',
    'ledq': 'LeDq', 'quqd1': 'QuQd', 'quqd8': 'QuQd', 'lequ1': 'LeQu',
    'lequ3': 'LeQu', 'duql': 'duql', 'qque': 'qque', 'qqql': 'qqql',
    'duue': 'duue'}           # upper case = barred field


def ckm(p):
    return ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])


def params(overrides=None):
    p = dict(ref_qcd.DEFAULTS)
    p.update(overrides or {})
    return p


def shape(n):
    return (3,) * len(FIELDS[n])


def _parse(k):
    if '_' not in k:
        return k, None
    n, i = k.split('_')
    return n, tuple(int(c) - 1 for c in i)


_CAN = {}


def _canon(cls):
    if cls not in _CAN:
        m = {}
        for idx, real in bases.canonical(cls, ((0, 1, 2),) * int(cls[-1])):
            for j, c in bases.orbit(idx, cls):
                m.setdefault(j, set()).add((idx, c))
        _CAN[cls] = m
    return _CAN[cls]


def symmetrize_array(name, A):
    """Project an array on the one determined by its independent entries."""
    cls = bases.SMEFT_CLASS[name]
    A = np.array(A, dtype=complex)
    if cls in ('gen2', 'gen4'):
        return A
    out = np.zeros(A.shape, dtype=complex)
    if cls == 'qqql4':
        for t in range(3):
            a = A[..., t]
            o = out[..., t]
            for i in product(range(3), repeat=3):
                if i not in bases.QQQL_RED:
                    o[i] = a[i]
            # C_prs + C_rps = C_spr + C_srp
            for i in range(3):
                for j in range(i + 1, 3):
                    o[j, i, i] = o[i, i, j]
                    o[j, j, i] = o[i, j, j]
            o[2, 0, 1] = o[1, 2, 0] + o[1, 0, 2] - o[0, 2, 1]
            o[2, 1, 0] = o[0, 2, 1] + o[0, 1, 2] - o[1, 2, 0]
        return out
    for j, srcs in _canon(cls).items():
        vals = [A[i].conjugate() if c else A[i] for i, c in srcs]
        if len(srcs) > 1:      # self-conjugate entry: real part
            out[j] = A[next(iter(srcs))[0]].real
        else:
            out[j] = vals[0]
    return out


def arrays(C):
    """{label: number} -> {name: symmetrised array} (all names present)."""
    out = {n: 0.0 for n in bases.SM_0F}
    raw = {}
    for k, v in C.items():
        n, i = _parse(k)
        if i is None:
            out[n] = complex(v).real
        else:
            if n not in raw:
                raw[n] = np.zeros(shape(n), dtype=complex)
            raw[n][i] = v
    for n in FIELDS:
        out[n] = symmetrize_array(n, raw[n]) if n in raw \
            else np.zeros(shape(n), dtype=complex)
    return out


def rotate(A, U):
    """Rotate all arrays; U: {field letter: 3x3 matrix}, field -> U field."""
    out = {}
    for n, a in A.items():
        if n not in FIELDS:
            out[n] = a
            continue
        for k, f in enumerate(FIELDS[n]):
            M = U.get(f.lower())
            if M is None:
                continue
            M = np.array(M, dtype=complex)
            if f.isupper():
                M = M.conj()
            a = np.moveaxis(np.tensordot(a, M, axes=([k], [0])), -1, k)
        out[n] = a
    return out


def labels(A, names):
    out = {}
    for k in names:
        n, i = _parse(k)
        if n in A:
            out[k] = complex(A[n]) if i is None else complex(A[n][i])
    return out


def warsaw_to_up(C, overrides=None):
    return _wtu(C, overrides, lambda V: V.conj().T)


def up_to_warsaw(C, overrides=None):
    return _wtu(C, overrides, lambda V: V)


def _names(basis):
    import core
    return core.names('SMEFT', basis)


def _wtu(C, overrides, f):
    V = ckm(params(overrides))
    present = {k.split('_')[0] for k in C}
    A = {n: a for n, a in arrays(C).items() if n in present}
    return labels(rotate(A, {'q': f(V)}), _names('Warsaw up'))


def warsaw_to_mass(C, overrides=None):
    out = {k: complex(v) for k, v in C.items()}
    V = ckm(params(overrides))
    A = arrays(C)
    for n in ('uphi', 'uG', 'uW', 'uB'):
        a = V @ A[n]
        for i in product(range(3), repeat=2):
            out[bases.label(n, i)] = complex(a[i])
    # singular values of the symmetric Weinberg matrix, ascending
    M = A['llphiphi']
    s = np.linalg.svd(M, compute_uv=False)[::-1]
    for i in product(range(3), repeat=2):
        out[bases.label('llphiphi', i)] = complex(s[i[0]]) if i[0] == i[1] else 0
    return out


# ---------------------------------------------------------------- matching
Q_ = {'nu': 0, 'e': -1, 'u': 2 / 3, 'd': -1 / 3}
T3 = {'nu': 1 / 2, 'e': -1 / 2, 'u': 1 / 2, 'd': -1 / 2}
I3 = np.eye(3)


class Sm:
    """Effective couplings in presence of the SMEFT coefficients A."""

    def __init__(self, A, p):
        GF = p['GF'] - sqrt(2) / 4 * (
            2 * A['phil3'][0, 0] + 2 * A['phil3'][1, 1]
            - A['ll'][0, 1, 1, 0] - A['ll'][1, 0, 0, 1])
        v2 = 1 / (sqrt(2) * abs(GF))
        self.v = v = sqrt(v2)
        x = float(A['phiWB']) * v2                    # epsilon
        g2 = 2 * p['m_W'] / v
        e2 = 4 * pi * p['alpha_e']
        e = sqrt(e2)
        d = g2 ** 2 - e2
        g1 = e * g2 / sqrt(d) + e2 * g2 / d * x
        G = g1 ** 2 + g2 ** 2
        r = (g2 ** 2 - g1 ** 2) / G
        s = g1 / sqrt(G) * (1 + x / 2 * g2 / g1 * r)
        c = g2 / sqrt(G) * (1 - x / 2 * g1 / g2 * r)
        ebar = g2 * s - c * g2 * x / 2
        gz = ebar / (s * c) * (1 + G / (2 * g1 * g2) * x)
        self.s, self.c = s, c
        self.kz = (gz / p['m_Z']) ** 2                # gZ^2/mZ^2
        self.kw = g2 ** 2 / (2 * p['m_W'] ** 2)
        h = v2 / 2
        self.Z = {}
        for f, (singlet, triplet) in {
                'nu': ('phil1', 'phil3'), 'e': ('phil1', 'phil3'),
                'u': ('phiq1', 'phiq3'), 'd': ('phiq1', 'phiq3')}.items():
            self.Z[f + 'L'] = I3 * (T3[f] - Q_[f] * s ** 2) \
                - h * A[singlet] + 2 * T3[f] * h * A[triplet]
        for f, op in (('e', 'phie'), ('u', 'phiu'), ('d', 'phid')):
            self.Z[f + 'R'] = -I3 * Q_[f] * s ** 2 - h * A[op]
        self.Wl = I3 + v2 * A['phil3']
        self.Wq = I3 + v2 * A['phiq3']
        self.Wr = h * A['phiud']



def _match(A, p):
    S = Sm(A, p)
    Z = S.Z

    def zz(a, b):
        return S.kz * np.multiply.outer(Z[a], Z[b])

    def tr(X, perm):            # X'[prst] = X[perm]
        return np.transpose(X, perm)

    def ww(a, b):               # a[p,t] conj(b[r,s])
        return S.kw * np.transpose(np.multiply.outer(a, b.conj()), (0, 2, 3, 1))

    def wn(a, b):               # a[p,r] conj(b[t,s])
        return S.kw * np.transpose(np.multiply.outer(a, b.conj()), (0, 1, 3, 2))

    R = {}
    for n, g3 in (('e', -1), ('u', 1), ('d', -1)):
        R[n + 'gamma'] = S.v / sqrt(2) * (g3 * S.s * A[n + 'W'] + S.c * A[n + 'B'])
    R['uG'] = S.v / sqrt(2) * A['uG']
    R['dG'] = S.v / sqrt(2) * A['dG']
    R['G'], R['Gtilde'] = A['G'], A['Gtilde']
    for n, z, op in (('VnunuLL', 'nuL', 'll'), ('VeeLL', 'eL', 'll'), ('VeeRR', 'eR', 'ee')):
        x = zz(z, z)
        R[n] = A[op] - (x + tr(x, (0, 3, 2, 1))) / 4
    for n, z, op in (('VuuLL', 'uL', ('qq1', 'qq3')), ('VddLL', 'dL', ('qq1', 'qq3')),
                     ('VuuRR', 'uR', ('uu',)), ('VddRR', 'dR', ('dd',))):
        R[n] = sum(A[o] for o in op) - zz(z, z) / 2
    ll = A['ll']
    R['VnueLL'] = ll + tr(ll, (2, 3, 0, 1)) - ww(S.Wl, S.Wl) - zz('nuL', 'eL')
    for n, a, b, sg in (('VnuuLL', 'nuL', 'uL', 1), ('VnudLL', 'nuL', 'dL', -1),
                        ('VeuLL', 'eL', 'uL', -1), ('VedLL', 'eL', 'dL', 1)):
        R[n] = A['lq1'] + sg * A['lq3'] - zz(a, b)
    for n, a, b, op in (('VeuRR', 'eR', 'uR', 'eu'), ('VedRR', 'eR', 'dR', 'ed'),
                        ('VnueLR', 'nuL', 'eR', 'le'), ('VeeLR', 'eL', 'eR', 'le'),
                        ('VnuuLR', 'nuL', 'uR', 'lu'), ('VnudLR', 'nuL', 'dR', 'ld'),
                        ('VeuLR', 'eL', 'uR', 'lu'), ('VedLR', 'eL', 'dR', 'ld'),
                        ('VueLR', 'uL', 'eR', 'qe'), ('VdeLR', 'dL', 'eR', 'qe'),
                        ('V1uuLR', 'uL', 'uR', 'qu1'), ('V1udLR', 'uL', 'dR', 'qd1'),
                        ('V1duLR', 'dL', 'uR', 'qu1'), ('V1ddLR', 'dL', 'dR', 'qd1')):
        R[n] = A[op] - zz(a, b)
    for n, op in (('V8uuLR', 'qu8'), ('V8udLR', 'qd8'), ('V8duLR', 'qu8'),
                  ('V8ddLR', 'qd8'), ('SedRL', 'ledq'), ('SnueduRL', 'ledq'),
                  ('SnueduRR', 'lequ1'), ('TnueduRR', 'lequ3'),
                  ('S1udRR', 'quqd1'), ('S8udRR', 'quqd8')):
        R[n] = A[op]
    R['SeuRR'], R['TeuRR'] = -A['lequ1'], -A['lequ3']
    # C^{S1,RR}_{uddu, prst} = -C_quqd1, stpr
    R['S1udduRR'] = -tr(A['quqd1'], _einsum_perm('stpr'))
    R['S8udduRR'] = -tr(A['quqd8'], _einsum_perm('stpr'))
    R['VnueduLL'] = 2 * A['lq3'] - wn(S.Wl, S.Wq)
    R['VnueduLR'] = -wn(S.Wl, S.Wr)
    R['V1udduLR'] = -wn(S.Wq, S.Wr)
    q1, q3 = A['qq1'], A['qq3']
    x3 = tr(q3, _einsum_perm('ptsr')) + tr(q3, _einsum_perm('srpt'))
    st = _einsum_perm('stpr')
    w = ww(S.Wq, S.Wq)
    R['V1udLL'] = q1 + tr(q1, st) - q3 - tr(q3, st) + 2 / 3 * x3 - w / 3 - zz('uL', 'dL')
    R['V8udLL'] = 4 * x3 - 2 * w
    w = ww(S.Wr, S.Wr)
    R['V1udRR'] = A['ud1'] - w / 3 - zz('uR', 'dR')
    R['V8udRR'] = A['ud8'] - 2 * w
    return R


def _einsum_perm(s):
    """numpy.einsum('stpr', X): the axes are relabelled alphabetically
    (p,r,s,t), i.e. out[p,r,s,t] = X[s,t,p,r]."""
    order = sorted(s)
    return tuple(s.index(x) for x in order)


# which JMS index is a left-handed down quark (barred: upper case)
def _down_left():
    out = {}
    for n, (f, cls) in bases.JMS.items():
        if not f:
            continue
        ch = None
        if n in ('dgamma', 'dG'):
            ch = 'LR'
        elif n in ('egamma', 'ugamma', 'uG'):
            ch = 'LR'
        elif n[0] in 'ST':
            # (Lbar R)(Lbar R) for RR, (Lbar R)(Rbar L) for RL
            ch = 'LRLR' if n.endswith('RR') else 'LRRL'
        else:
            ch = {'LL': 'LLLL', 'RR': 'RRRR', 'LR': 'LLRR'}[n[-2:]]
        out[n] = [k for k in range(len(f)) if f[k] == 'd' and ch[k] == 'L']
    return out


DL = _down_left()


def rotate_down(R, p):
    V = ckm(p)
    out = {}
    for n, a in R.items():
        for k in DL.get(n, []):
            M = V.conj() if k % 2 == 0 else V
            a = np.moveaxis(np.tensordot(a, M, axes=([k], [0])), -1, k)
        out[n] = a
    return out


_SM = {}


def match_up(C, overrides=None):
    """Warsaw up -> WET JMS."""
    import core
    p = params(overrides)
    key = tuple(sorted(p.items()))
    if key not in _SM:
        _SM.clear()
        _SM[key] = _match(arrays({}), p)
    A = arrays(C)
    R, R0 = _match(A, p), _SM[key]
    return labels(rotate_down({n: R[n] - R0[n] for n in R}, p),
                  core.names('WET', 'JMS'))


def match(dst, C, scale, overrides=None, src='Warsaw'):
    import ref_wet
    if src == 'Warsaw':
        C = warsaw_to_up(C, overrides)
    J = match_up(C, overrides)
    if dst == 'JMS':
        return J
    return ref_wet.translate('WET', 'JMS', dst, J, scale, overrides)


TRANSLATORS = {('SMEFT', 'Warsaw', 'Warsaw up'): warsaw_to_up,
               ('SMEFT', 'Warsaw up', 'Warsaw'): up_to_warsaw,
               ('SMEFT', 'Warsaw', 'Warsaw mass'): warsaw_to_mass}
