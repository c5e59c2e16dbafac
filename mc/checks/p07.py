import conv
import core
JM = [c for c in conv.SM_M if c[4] == 'JMS']
OTHER = [c for c in conv.SM_M if c[4] != 'JMS']
BOUNDS = 'every Warsaw / Warsaw up coefficient (complex) to JMS; every operator group at 3 magnitudes and dense vectors to all targets; routes; scales'
ASSUMPTIONS = ['coefficients up to about 1e-5/GeV^2', 'ckmutil and compiled RunDec trusted',
               'agreement to 1e-7 relative']


def setup(tier):
    conv.init()


def cases(tier):
    out = conv.value_cases(JM, tier, chunk=8, scales=[91.1876, 160., 5., 1e4], heavy=())
    out += conv.value_cases(OTHER, tier, singles=False, chunk=8, scales=[80., 91.1876, 160., 1000., 1e4])
    for t in 'xy':
        for dst in ('JMS', 'flavio', 'EOS', 'Bern'):
            for m in (1., 100., 1000.):
                out.append(['route', dst, t, m])
    for g in EXT_SRC + ['ll', 'phil3', '*']:
        out += [['ext', g, t] for t in 'xy']
    gs = sorted(conv.groups(JM[1]))
    out += [['pair', a, b] for i, a in enumerate(NL) for b in NL[i + 1:]]
    if tier == 'thorough':
        out += [['pair', a, b] for i, a in enumerate(gs) for b in gs[i + 1:] if not (a in NL and b in NL)]
    return out


# groups entering the couplings (non-linear dependence)
NL = ['ll', 'phil3', 'phiWB', 'phil1', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid', 'phiud',
      'eW', 'uB', 'dW']


# coefficients which a JMS basis definition with neutrino masses and baryon-number
# violating sectors would contain: (1709.04486, tables 9 and 20)
EXT_SRC = ['llphiphi', 'duql', 'qque', 'qqql', 'duue']
EXT = ['SuddLL', 'SduuLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SduuRR']
ALIGNED = {'Vus': 1e-9, 'Vub': 1e-9, 'Vcb': 1e-9}      # unit CKM matrix to the accuracy of the comparison


def run_ext(case, r):
    W = conv.W
    import ref_smeft as R
    c = JM[0]
    g = conv.groups(c)
    gs = EXT_SRC + ['ll', 'phil3'] if case[1] == '*' else [case[1]] + (['phil3'] if case[1] == 'llphiphi' else [])
    v = {}
    for x in gs:
        v.update(core.dense(g[x], case[2], conv.real(c), 1e-6))
    old = W.Basis['WET', 'JMS']
    sec = {k: dict(d) for k, d in old.sectors.items()}
    sec['ext'] = {}
    for n in EXT:
        for i in range(81):
            sec['ext'][n + '_%d%d%d%d' % (i // 27 + 1, i // 9 % 3 + 1, i // 3 % 3 + 1, i % 3 + 1)] = {}
    for i in (1, 2, 3):
        for j in range(i, 4):
            sec['ext']['nu_%d%d' % (i, j)] = {}
    try:
        W.Basis('WET', 'JMS', sec)
        got = core.wc_out(conv.wc(c, v, 91.1876).match('WET', 'JMS', parameters=dict(ALIGNED)))
    finally:
        W.Basis.instances[('WET', 'JMS')] = old
    r.calls += 1
    num = {k: core.num(x) for k, x in v.items()}
    A = R.arrays(num)
    vt = R.Sm(A, R.params(ALIGNED)).v
    q, e, d = A['qqql'], A['qque'], A['duql']
    T = {'nu': A['llphiphi'] * vt ** 2 / 2,
         'SuddLL': -q - q.swapaxes(0, 1), 'SduuLL': -q - q.swapaxes(0, 1),
         'SduuLR': -e - e.swapaxes(0, 1), 'SduuRL': d, 'SdudRL': -d, 'SduuRR': A['duue']}
    exp = {}
    for k in sec['ext']:
        n, i = k.split('_')
        z = complex(T[n][tuple(int(x) - 1 for x in i)])
        if abs(z) > 0:
            exp[k] = z
    r.state(sorted(exp.items(), key=str))
    got = {k: z for k, z in got.items() if k in sec['ext']}
    for m in core.compare(got, exp, 1e-6, lambda k: 1e-13 * (vt ** 2 if k[:3] == 'nu_' else 1), 'ext %s' % case[1]):
        r.fail(m)


def run(case):
    if case[0] in ('dense', 'group', 'single', 'uni'):
        return conv.value_run(case)
    conv.init()
    r = core.Result()
    r.outcome = case[0]
    if case[0] == 'ext':
        run_ext(case, r)
        return r
    if case[0] == 'route':
        dst, tag, m = case[1:]
        c = JM[1]
        v = core.dense(conv.names(c), tag, conv.real(c), 1e-8 * m)
        w = conv.wc(c, v, 91.1876)
        a = core.wc_out(w.match('WET', dst))
        up = w.translate('Warsaw up')
        b = up.match('WET', 'JMS')
        r.calls += 3
        if dst != 'JMS':
            b = b.translate(dst)
        b = core.wc_out(b)
        rt, at = conv.tol(('M', 'SMEFT', 'Warsaw', 'WET', dst), {k: core.num(x) for k, x in v.items()}, b, 91.1876)
        r.state(sorted(b))
        for d in core.compare(a, b, rt, at, 'route to ' + dst):
            r.fail(d)
    else:
        c = JM[0]
        g = conv.groups(c)
        v = core.dense(g[case[1]], 'p', conv.real(c), 1e-5)
        v.update(core.dense(g[case[2]], 'p', conv.real(c), 1e-5))
        conv.check(r, c, v, 91.1876, what='pair %s %s' % (case[1], case[2]))
    return r
