"""Reference model of the QCD running: 3-loop RunDec chains.

The model is a table: (quantity, f) -> list of legs; a leg either runs at fixed
number of flavours or crosses one threshold.  Only the compiled RunDec
routines are shared with the implementation."""
import rundec

MZ = 91.1876
LOOP = 3
TH = {4: 1.3, 5: 4.8, 6: 170.}     # matching scale and threshold mass for nf


def _crd(nf=None):
    c = rundec.CRunDec()
    if nf is not None:
        c.nfMmu.Mth = TH[nf]
        c.nfMmu.muth = TH[nf]
        c.nfMmu.nf = nf
    return c


def alpha_s(mu, f, asmz=0.1185):
    if f == 5:
        if mu == MZ:
            return asmz
        return _crd().AlphasExact(asmz, MZ, mu, 5, LOOP)
    if f == 6:
        c = _crd(6)
        return c.AlL2AlH(asmz, MZ, c.nfMmu, mu, LOOP)
    c = _crd(5)
    if f == 4:
        return c.AlH2AlL(asmz, MZ, c.nfMmu, mu, LOOP)
    if f == 3:
        a = c.AlH2AlL(asmz, MZ, c.nfMmu, TH[4], LOOP)
        c = _crd(4)
        return c.AlH2AlL(a, TH[4], c.nfMmu, mu, LOOP)
    raise ValueError(f)


def _run(m, a0, a1, f):
    return _crd().mMS2mMS(m, a0, a1, f, LOOP)


def _down(m, a, mu0, mu, nf):
    c = _crd(nf)
    return c.mH2mL(m, a, mu0, c.nfMmu, mu, LOOP)


def _up(m, a, mu0, mu, nf):
    c = _crd(nf)
    return c.mL2mH(m, a, mu0, c.nfMmu, mu, LOOP)


def m_b(m0, mu, f, asmz=0.1185):
    if f == 5 and mu == m0:
        return m0
    a = alpha_s(m0, 5, asmz)
    if f == 5:
        return _run(m0, a, alpha_s(mu, 5, asmz), 5)
    if f == 4:
        return _down(m0, a, m0, mu, 5)
    if f == 3:
        mc = TH[4]
        return _down(_down(m0, a, m0, mc, 5), alpha_s(mc, 4, asmz), mc, mu, 4)
    if f == 6:
        return _up(m0, a, m0, mu, 6)
    raise ValueError(f)


def m_c(m0, mu, f, asmz=0.1185):
    if f == 4 and mu == m0:
        return m0
    a = alpha_s(m0, 4, asmz)
    if f == 4:
        return _run(m0, a, alpha_s(mu, 4, asmz), 4)
    if f == 3:
        return _down(m0, a, m0, mu, 4)
    if f == 5:
        return _up(m0, a, m0, mu, 5)
    raise ValueError(f)


def m_s(m0, mu, f, asmz=0.1185):
    if f == 3 and mu == 2:
        return m0
    a = alpha_s(2, 3, asmz)
    if f == 3:
        return _run(m0, a, alpha_s(mu, 3, asmz), 3)
    if f == 4:
        return _up(m0, a, 2, mu, 4)
    if f == 5:
        mc = TH[4]
        return _up(_up(m0, a, 2, mc, 4), alpha_s(mc, 4, asmz), mc, mu, 5)
    raise ValueError(f)


DEFAULTS = {
    'm_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9,
    'alpha_s': 0.1185, 'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2,
    'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095, 'm_e': 0.0005109989461,
    'm_mu': 0.1056583745, 'm_tau': 1.77686}

_cache = {}


def parameters(scale, overrides=None):
    """Parameters at `scale` in 5-flavour QCD."""
    key = (scale, tuple(sorted((overrides or {}).items())))
    if key not in _cache:
        p = dict(DEFAULTS)
        p.update(overrides or {})
        q = dict(p)
        q['m_b'] = m_b(p['m_b'], scale, 5, p['alpha_s'])
        q['m_s'] = m_s(p['m_s'], scale, 5, p['alpha_s'])
        q['alpha_s'] = alpha_s(scale, 5, p['alpha_s'])
        if len(_cache) > 5000:
            _cache.clear()
        _cache[key] = q
    return dict(_cache[key])
