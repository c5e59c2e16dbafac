import conv
import core
CONV = conv.TH_M
VALS = [1.0, -0.5, 1e-30, -1e6, {'Re': 0.3, 'Im': -0.7}, {'Re': 0.0, 'Im': 1e-12}, {'Im': 2}, '0.25', 7]
PARS = [None, {}, {'m_b': 4.0, 'alpha_s': 0.12, 'Vus': 0.3}]
BOUNDS = '7 matchers x every coefficient x 9 values; dense, equal values, leave-one-out, explicit zeros, parameter overrides, scales'
ASSUMPTIONS = ['reconstructed basis names']


def setup(tier):
    conv.init()


def cases(tier):
    out = []
    for c in CONV:
        for ns in conv.chunks(conv.names(c), 48):
            out.append(['single', list(c), ns])
            out.append(['loo', list(c), ns])
        for s in conv.SCALES:
            for i in range(len(PARS)):
                out.append(['dense', list(c), s, i])
        out += [['uni', list(c), k] for k in conv.UNI]
    return out


def one(r, c, values, scale=4.8, par=None):
    w = conv.wc(c, values, scale)
    o = conv.apply(c, w, par)
    r.calls += 1
    keep = set(core.names(*conv.target(c)))
    exp = {k: core.num(v) for k, v in values.items() if k in keep and core.num(v) != 0}
    got = core.wc_out(o)
    r.state([c, sorted(exp)])
    if got != exp:
        bad = [k for k in set(got) | set(exp) if got.get(k) != exp.get(k)]
        r.fail('%s: differs for %s (got %s expected %s)' % (
            '->'.join(c[1:]), bad[:3], [got.get(k) for k in bad[:3]], [exp.get(k) for k in bad[:3]]))
    if (o.eft, o.basis, o.scale) != conv.target(c) + (float(scale),):
        r.fail('labels %s %s %s' % (o.eft, o.basis, o.scale))


def run(case):
    conv.init()
    r = core.Result()
    c = tuple(case[1])
    r.outcome = case[0]
    if case[0] == 'single':
        for n in case[2]:
            for v in VALS:
                one(r, c, {n: v})
            one(r, c, {n: 0})
            one(r, c, {n: {'Re': 0, 'Im': 0.}})
    elif case[0] == 'loo':
        full = core.dense(conv.names(c), 'l', ())
        for n in case[2]:
            d = dict(full)
            del d[n]
            one(r, c, d)
            d[n] = 0.0
            one(r, c, d)
    elif case[0] == 'uni':
        one(r, c, conv.uniform(conv.names(c), case[2], (), 1.))
    else:
        one(r, c, core.dense(conv.names(c), 'a', ()), case[2], PARS[case[3]])
    return r
