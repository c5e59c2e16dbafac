from itertools import product, permutations
import numpy as np
import bases
import conv
import core
import ref_smeft as R
FLD = ['q', 'u', 'd', 'l', 'e']
OPS = list(R.FIELDS)
VAL = {'1': 1., 'i': 1j, 'z': 0.7 - 1.3j}
BOUNDS = 'symmetrize: every entry of all %d tensors x {1, i}, all scalars, dense, float/int/complex arrays; rotation: every entry x generic rotation of all five fields, every tensor x 5 fields x 12 matrices, all ordered pairs of 8 matrices for composition/inverse; add_missing: every coefficient alone and every one missing; label/array conversion of every label' % len(OPS)
ASSUMPTIONS = ['numpy trusted']


def gen(seed):
    """deterministic generic unitary matrix"""
    h = np.array([[core._h('u%d' % seed, '%d%d' % (i, j), 101) / 50. - 1 for j in range(3)] for i in range(3)]) \
        + 1j * np.array([[core._h('v%d' % seed, '%d%d' % (i, j), 103) / 50. - 1 for j in range(3)] for i in range(3)])
    return np.linalg.qr(h)[0]


PERM = [np.eye(3)[list(p)] for p in permutations(range(3))]
MATS = PERM + [np.diag([1j, 1, -1]), np.diag(np.exp([0.3j, -1.1j, 2j])), gen(1), gen(2), gen(3), gen(4)]
PAIR = [PERM[1], PERM[3], MATS[6], MATS[7], gen(1), gen(2), gen(3), PERM[5]]


def setup(tier):
    conv.init()


def dens(n, tag):
    sh = R.shape(n)
    return np.array([core.num(core.dense(['%s_%s' % (n, i)], tag)['%s_%s' % (n, i)])
                     for i in range(int(np.prod(sh)))]).reshape(sh)


def cases(tier):
    out = []
    for n in OPS:
        for v in VAL:
            out.append(['symm', n, v])
        out.append(['rot', n])
        out.append(['rotm', n])
        out.append(['symmd', n])
        out.append(['compose', n])
    for n in bases.SM_0F:
        out.append(['scalar', n])
    out += [['all', t] for t in 'abc']
    out.append(['missing'])
    for ns in conv.chunks(core.names('SMEFT', 'Warsaw'), 64):
        out.append(['label', ns])
    out += [['toarray', n] for n in OPS]
    return out


def same(r, a, b, what, tol=1e-12):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        r.fail('%s: shape %s expected %s' % (what, a.shape, b.shape))
    elif not np.all(np.abs(a - b) <= tol * max(1, np.abs(b).max() if b.size else 0)):
        i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape) if a.shape else ()
        r.fail('%s: entry %s is %s expected %s' % (what, [int(j) + 1 for j in i], a[i], b[i]))


def allU(k=0):
    return {f: gen(10 + 7 * k + i) for i, f in enumerate(FLD)}


def rot(su, C, U):
    I = np.eye(3)
    return su.flavor_rotation(C, *[U.get(f, I) for f in FLD])


def run(case):
    conv.init()
    from wcxf.util import smeftutil as su
    from wcxf.translators import smeft as ts
    r = core.Result()
    k = r.outcome = case[0]

    def symm(n, A, what):
        keep = np.array(A, copy=True)
        out = su.symmetrize({n: A})
        r.calls += 1
        if set(out) != {n}:
            r.fail('%s: keys %s' % (what, sorted(out)))
            return None
        if not np.array_equal(A, keep):
            r.fail('%s: input modified' % what)
        same(r, out[n], R.symmetrize_array(n, keep), what)
        again = su.symmetrize(out)[n]
        same(r, again, out[n], what + ' (idempotence)')
        r.state([n, np.round(np.asarray(out[n], dtype=complex), 9).tolist()])
        return out[n]

    if k == 'symm':
        n, v = case[1], VAL[case[2]]
        for i in product(range(3), repeat=len(R.FIELDS[n])):
            A = np.zeros(R.shape(n), dtype=complex)
            A[i] = v
            symm(n, A, 'symmetrize %s_%s=%s' % (n, ''.join(str(j + 1) for j in i), v))
    elif k == 'symmd':
        n = case[1]
        d = dens(n, 's')
        symm(n, d, 'symmetrize dense ' + n)
        symm(n, np.array(d.real), 'symmetrize float ' + n)
        symm(n, np.asfortranarray(d), 'symmetrize fortran-order ' + n)
        ro = np.array(d)
        ro.setflags(write=False)
        symm(n, ro, 'symmetrize read-only ' + n)
        symm(n, np.array([[core._h('i', '%s%d' % (n, j), 7) - 3 for j in range(d.size)]], dtype=int).reshape(d.shape),
             'symmetrize int ' + n)
    elif k == 'scalar':
        n = case[1]
        for v in (1.5, -2, 0., 1e-30, 2 + 0j, 3 - 1j, np.float64(0.5), np.complex128(1 + 2j)):
            o = su.symmetrize({n: v})
            r.calls += 1
            r.state([n, str(v)])
            same(r, o[n], complex(v).real, 'symmetrize %s=%r' % (n, v))
            o = rot(su, {n: v}, allU())
            r.calls += 1
            same(r, o[n], v, 'rotation of %s=%r' % (n, v))
    elif k == 'rot':
        n = case[1]
        U = allU()
        for i in product(range(3), repeat=len(R.FIELDS[n])):
            for v in (1, 1j):
                A = np.zeros(R.shape(n), dtype=complex)
                A[i] = v
                C = {n: A}
                keep = A.copy()
                o = rot(su, C, U)
                r.calls += 1
                if not np.array_equal(A, keep) or set(C) != {n}:
                    r.fail('rotation modifies its input ' + n)
                same(r, o[n], R.rotate({n: keep}, U)[n], 'rotation %s_%s' % (n, ''.join(str(j + 1) for j in i)))
                r.state([n, i, v])
    elif k == 'rotm':
        n = case[1]
        A = dens(n, 'm')
        for f in FLD:
            for m, M in enumerate(MATS):
                o = rot(su, {n: A}, {f: M})
                r.calls += 1
                same(r, o[n], R.rotate({n: A}, {f: M})[n], 'rotation of %s: field %s matrix %d' % (n, f, m))
                r.state([n, f, m])
                S = su.symmetrize({n: A})[n]
                o = rot(su, {n: S}, {f: M})[n]
                r.calls += 2
                same(r, su.symmetrize({n: o})[n], o, 'rotation keeps symmetry of %s: field %s matrix %d' % (n, f, m), 1e-11)
    elif k == 'compose':
        n = case[1]
        A = dens(n, 'c')
        same(r, rot(su, {n: A}, {})[n], A, 'identity rotation of ' + n)
        for a, U in enumerate(PAIR):
            for b, V in enumerate(PAIR):
                x = rot(su, rot(su, {n: A}, {f: U for f in FLD}), {f: V for f in FLD})[n]
                y = rot(su, {n: A}, {f: U @ V for f in FLD})[n]
                r.calls += 3
                r.state([n, a, b])
                same(r, x, y, 'composition %s %d %d' % (n, a, b), 1e-11)
            x = rot(su, rot(su, {n: A}, {f: U for f in FLD}), {f: U.conj().T for f in FLD})[n]
            r.calls += 2
            same(r, x, A, 'inverse %s %d' % (n, a), 1e-11)
    elif k == 'all':
        C = {n: dens(n, case[1]) for n in OPS}
        C.update({n: conv.zval(n, case[1], True).real for n in bases.SM_0F})
        S = su.symmetrize(C)
        U = allU(1)
        Q = rot(su, C, U)
        ref = R.rotate(C, U)
        r.calls += 2
        r.state(case[1])
        if set(S) != set(C) or set(Q) != set(C):
            r.fail('coefficients lost or added: %s' % sorted(set(S) ^ set(C) | set(Q) ^ set(C)))
        for n in C:
            if n in S and n in Q:
                same(r, S[n], R.symmetrize_array(n, C[n]) if n in R.FIELDS else C[n], 'symmetrize all ' + n)
                same(r, Q[n], ref[n], 'rotate all ' + n)
    elif k == 'missing':
        allk = OPS + bases.SM_0F
        base = {n: dens(n, 'x') for n in OPS}
        base.update({n: conv.zval(n, 'x', True).real for n in bases.SM_0F})
        for mode in ('empty', 'full', 'one', 'drop'):
            for n in (allk if mode in ('one', 'drop') else [None]):
                C = {} if mode == 'empty' else dict(base) if mode == 'full' else {n: base[n]} if mode == 'one' \
                    else {m: base[m] for m in allk if m != n}
                before = dict(C)
                o = su.add_missing(C)
                r.calls += 1
                r.state([mode, n])
                if set(C) != set(before) or any(C[m] is not before[m] for m in C):
                    r.fail('add_missing modifies its input')
                if set(o) != set(allk):
                    r.fail('add_missing %s %s: keys %s' % (mode, n, sorted(set(o) ^ set(allk))))
                for m in o:
                    if m in before:
                        if not np.array_equal(o[m], before[m]):
                            r.fail('add_missing %s %s changed %s' % (mode, n, m))
                    else:
                        same(r, o[m], np.zeros(R.shape(m)) if m in R.FIELDS else 0., 'add_missing adds ' + m)
    elif k == 'label':
        for l in case[1]:
            n, i = R._parse(l)
            for v in (1., 0.5 - 2j) if i is not None else (1., -3.):
                A = ts.wcxf2arrays({l: v})
                r.calls += 1
                r.state([l, str(v)])
                exp = v if i is None else np.zeros(R.shape(n), dtype=complex)
                if i is not None:
                    exp[i] = v
                if set(A) != {n}:
                    r.fail('wcxf2arrays(%s): keys %s' % (l, sorted(A)))
                    continue
                same(r, A[n], exp, 'wcxf2arrays ' + l)
                d = ts.arrays2wcxf(A)
                r.calls += 1
                full = {l: v} if i is None else {bases.label(n, j): exp[j] for j in product(range(3), repeat=len(i))}
                if set(d) != set(full) or any(d[q] != full[q] for q in full):
                    r.fail('arrays2wcxf of %s: %s' % (l, {q: d.get(q) for q in list(full)[:2]}))
    elif k == 'toarray':
        n = case[1]
        A = dens(n, 't')
        d = {bases.label(n, j): A[j] for j in product(range(3), repeat=A.ndim)}
        other = {'phiG': 1., 'phiq1_12': 2., 'qq1_1111': 3., 'll_1122': 4., 'llphiphi_11': 5., 'uphi_11': 2j}
        full = dict(other, **d)
        o = ts.smeft_toarray(n, full)
        r.calls += 1
        exp = dict(d)
        same(r, o, R.symmetrize_array(n, A), 'smeft_toarray ' + n)
        same(r, ts.smeft_toarray(n, {}), np.zeros(R.shape(n)), 'smeft_toarray empty ' + n)
        back = ts.smeft_fromarray(n, A)
        r.calls += 2
        r.state(n)
        if set(back) != set(exp) or any(back[q] != exp[q] for q in exp):
            r.fail('smeft_fromarray ' + n)
        x = ts.arrays2wcxf({n: A})
        y = ts.wcxf2arrays(x)
        r.calls += 2
        same(r, y[n], A, 'array -> labels -> array ' + n)
    return r
