import conv
import core
CONV = [c for c in conv.WET_T if c[2] in ('Bern', 'flavio', 'FlavorKit') or c[3] == 'FlavorKit']
EFTS = ('WET', 'WET-4', 'WET-3')
# (eft, [first, second, ...], direct or None): route must equal direct / identity
ROUTES = [[e, ['flavio', 'Bern', 'flavio'], None] for e in EFTS] \
    + [['WET', ['FlavorKit', 'JMS', 'FlavorKit'], None]] \
    + [[e, ['JMS', 'Bern', 'flavio'], 'flavio'] for e in EFTS] \
    + [['WET', ['FlavorKit', 'JMS', 'flavio'], 'flavio'],
       ['WET', ['JMS', 'FlavorKit', 'JMS', 'FlavorKit'], 'FlavorKit'],
       ['WET', ['flavio', 'Bern', 'flavio', 'Bern'], 'Bern'],
       ['WET', ['Bern', 'flavio', 'Bern', 'flavio'], 'flavio']]
BOUNDS = 'all coefficients singly, groups, dense vectors, scale alphabet; %d multi-step routes on every coefficient' % len(ROUTES)
ASSUMPTIONS = ['ckmutil and compiled RunDec trusted', 'reconstructed basis names',
               'FlavorKit name tables frozen in mc/ref_flavorkit.json']


def setup(tier):
    conv.init()


def cases(tier):
    out = conv.value_cases(CONV, tier)
    for i, (e, path, d) in enumerate(ROUTES):
        c = ('T', e, path[0], path[1])
        out += [['route', i, ns, None] for ns in conv.chunks(conv.names(c), 24)]
        for s in conv.SCALES:
            out.append(['route', i, None, s])
    return out


def route(r, spec, values, scale):
    e, path, direct = spec
    w0 = w = conv.W.WC(e, path[0], scale, values)
    for b in path[1:]:
        w = w.translate(b)
        r.calls += 1
    exp = w0.translate(direct) if direct else w0
    got, exp = core.wc_out(w), core.wc_out(exp)
    r.state([spec, sorted((k, '%.6g' % abs(v)) for k, v in exp.items())])
    for d in core.compare(got, exp, 1e-9, 1e-13 * max([abs(v) for v in exp.values()] or [0]),
                          '%s %s' % (e, '->'.join(path))):
        r.fail(d)


def run(case):
    if case[0] != 'route':
        return conv.value_run(case)
    conv.init()
    r = core.Result()
    spec = ROUTES[case[1]]
    c = ('T', spec[0], spec[1][0], spec[1][1])
    rl = conv.real(c)
    if case[2] is None:
        route(r, spec, core.dense(conv.names(c), 'r', rl), case[3])
    else:
        for n in case[2]:
            route(r, spec, {n: core.enc(conv.zval(n, 'q', n in rl))}, 4.8)
    r.outcome = 'route'
    return r
