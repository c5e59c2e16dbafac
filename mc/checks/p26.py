"""Path independence: all routes through the graph of converters which start
and end at the same bases (and do not pass through a basis that cannot
represent everything) give the same coefficients."""
import conv
import core

# bases that represent only part of the coefficients: a route may start there
# or end there (the matching over a threshold stays within the basis), but a
# translation out of them loses information
PARTIAL = ('flavio', 'EOS', 'formflavor', 'FlavorKit', 'Warsaw mass')
LEN = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'all routes of up to %d conversions over the graph of %d converters (round trips included) not passing through an incomplete basis, compared pairwise per (source, target) on dense vectors for 4 parameter sets x 5 scales (quick: a covering subset), groups of coefficients (quick: up to 3 conversions) and every coefficient alone (up to 2 conversions, quick: not from SMEFT); shortest route against every other one' % (n, len(conv.ALL)) for t, n in LEN.items()}
ASSUMPTIONS = ['reconstructed basis names']
PAR = [None, {'Vus': 0.3, 'Vub': 0.05, 'Vcb': 0.1, 'gamma': 2.}, {'GF': 2e-5, 'alpha_e': 0.01, 'm_b': 5., 'm_s': 0.2}, {'alpha_s': 0.11, 'm_W': 70., 'm_Z': 80., 'm_e': 1e-3, 'm_mu': 0.2, 'm_tau': 2.}]
SC = {'SMEFT': [91.1876, 160., 1000., 80., 4.2], 'WET': [1.5, 4.18, 4.8, 20., 160.]}


def routes(n):
    """{(source, target): [route]}; a route is a list of converters"""
    out = {}

    def extend(src, node, path):
        if len(path) >= n:
            return
        for c in conv.ALL:
            if conv.source(c) != node:
                continue
            if path and c[0] == 'T' and node[1] in PARTIAL:
                # only what started in this basis is complete in it
                if node[1] != src[1]:
                    continue
            p = path + [c]
            t = conv.target(c)
            out.setdefault((src, t), []).append(p)
            extend(src, t, p)
    for s in sorted({conv.source(c) for c in conv.ALL}):
        out.setdefault((s, s), []).append([])
        extend(s, s, [])
    return {k: sorted(v, key=len) for k, v in out.items() if len(v) > 1}


def setup(tier):
    conv.init()


def cases(tier):
    out = []
    for (s, t), rs in sorted(routes(LEN[tier]).items()):
        nm = core.names(*s)
        for j in range(1, len(rs)):
            pair = [[list(c) for c in rs[0]], [list(c) for c in rs[j]]]
            sm = s[0] == 'SMEFT'
            full = tier == 'thorough'
            for i, sc in enumerate(SC['SMEFT' if sm else 'WET']):
                for p in range(len(PAR)):
                    if full or (i + p + len(rs[j])) % 4 == 0 and (i < 4 or len(rs[j]) < 4):
                        out.append(['dense', s, t, pair, sc, p])
            g = {}
            for n in nm:
                g.setdefault(conv.group(n), []).append(n)
            if full or len(rs[j]) <= 3:
                out.append(['groups', s, t, pair, sorted(g)])
            if len(rs[j]) <= 2 and (not sm or full):
                out += [['single', s, t, pair, x] for x in conv.chunks(nm, 40)]
    return out


_PREF = {}


def walk(r, w, route, par):
    for c in route:
        w = conv.apply(tuple(c), w, par)
        r.calls += 1
    return w


def size(s):
    return 1e-8 if s[0] == 'SMEFT' else 1.


def pref(s, t, route, scale):
    k = (tuple(s), tuple(t), scale)
    if k not in _PREF:
        rl = {n for n in core.names(*s) if core.is_real(s[0], s[1], n)}
        w = conv.W.WC(s[0], s[1], scale, core.dense(core.names(*s), 'n', rl, size(s)))
        m = {}
        for n, v in core.wc_out(walk(core.Result(), w, route, None)).items():
            m[conv.group(n)] = max(m.get(conv.group(n), 0), abs(v) / size(s))
        _PREF[k] = m
    return _PREF[k]


def compare(r, s, t, pair, vals, scale, par):
    w = conv.W.WC(s[0], s[1], scale, vals)
    a = core.wc_out(walk(r, w, pair[0], par))
    b = core.wc_out(walk(r, w, pair[1], par))
    p = pref(s, t, pair[0], scale)
    mi = max(abs(core.num(v)) for v in vals.values())
    sm = s[0] == 'SMEFT' and t[0] != 'SMEFT'
    big = {}
    for k, v in a.items():
        big[conv.group(k)] = max(big.get(conv.group(k), 0), abs(v))
    noise = 1e-12 * mi + (1e-18 if sm else 0)
    rel = 1e-8 if sm else 1e-11

    def atol(k):
        g = conv.group(k)
        return max(noise * p.get(g, 1.), rel * big.get(g, 0))
    r.state([s, t, sorted((k, '%.5g' % abs(v)) for k, v in a.items() if abs(v) > atol(k))])
    what = ' / '.join('>'.join([' '.join(s)] + [' '.join(conv.target(tuple(c))) for c in x]) for x in pair)
    for d in core.compare(b, a, 1e-7 if sm else 1e-9, atol, what):
        r.fail(d)


def run(case):
    conv.init()
    r = core.Result()
    k, s, t, pair = case[:4]
    r.outcome = k
    rl = {n for n in core.names(*s) if core.is_real(s[0], s[1], n)}
    if k == 'dense':
        compare(r, s, t, pair, core.dense(core.names(*s), 'p%d' % case[5], rl, size(s)), case[4], PAR[case[5]])
    elif k == 'groups':
        for g in case[4]:
            compare(r, s, t, pair, core.dense([n for n in core.names(*s) if conv.group(n) == g], 'g', rl, size(s)), 91.1876, None)
    else:
        for n in case[4]:
            compare(r, s, t, pair, {n: core.enc(conv.zval(n, 't', n in rl) * size(s))}, 91.1876, None)
    return r
