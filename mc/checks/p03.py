import math
import conv
import core
HEAVY = conv.SM_M
BOUNDS = {'quick': 'all %d converters x {empty, all-zero, every group, every group + explicit zeros, dense with float/int/str/Re-Im representations at 4 scales}; every single coefficient as value and as explicit zero for all but the SMEFT matchers' % len(conv.ALL),
          'thorough': 'as quick, single coefficients also for the SMEFT matchers, two values'}
ASSUMPTIONS = ['reconstructed basis definitions']


def setup(tier):
    conv.init()


def cases(tier):
    out = []
    for c in conv.ALL:
        out.append(['trivial', list(c)])
        for s in (1.5, 4.18, 91.1876, 1000.):
            for rep in ('float', 'half', 'str', 'reim', 'int'):
                if c in HEAVY and (rep, s) not in (('float', 1.5), ('half', 91.1876), ('str', 91.1876), ('reim', 1000.)):
                    continue
                out.append(['dense', list(c), s, rep])
        for g in conv.groups(c):
            out.append(['group', list(c), g])
        if c not in HEAVY or tier == 'thorough':
            for ns in conv.chunks(conv.names(c), 24 if c not in HEAVY else 6):
                out.append(['single', list(c), ns])
    return out


def closure(r, c, values, scale=91.1876, empty=False):
    w = conv.wc(c, values, scale)
    w.validate()
    o = conv.apply(c, w)
    r.calls += 1
    what = '->'.join(c[1:])
    e, b = conv.target(c)
    if (o.eft, o.basis) != (e, b) or o.scale != float(scale) or type(o.scale) is not float:
        r.fail('%s: labels %r %r %r' % (what, o.eft, o.basis, o.scale))
    allowed = core.names(e, b)
    allowed = set(allowed)
    for p in core.key_problems(o.values, allowed, what):
        r.fail(p)
    for k, v in o.values.items():
        if isinstance(v, dict):
            parts = [v.get('Re'), v.get('Im')]
            if set(v) != {'Re', 'Im'}:
                r.fail('%s: %s = %r' % (what, k, v))
        else:
            parts = [v]
        if any(type(x) not in (float, int) for x in parts):
            r.fail('%s: %s is not a plain number: %r' % (what, k, v))
        elif not all(math.isfinite(x) for x in parts):
            r.fail('%s: %s is not finite: %r' % (what, k, v))
        elif not any(parts):
            r.fail('%s: %s is zero: %r' % (what, k, v))
    try:
        o.validate()
    except Exception as x:
        r.fail('%s: output does not validate: %s' % (what, core.exc_name(x)))
    if empty and len(o.values):
        r.fail('%s: output of zero input not empty: %s' % (what, list(o.values.items())[:3]))
    r.state([c, sorted(o.values)])
    return o


def rep(v, how, i):
    z = core.num(v)
    if how == 'str':
        return {'Re': repr(z.real), 'Im': repr(z.imag)} if z.imag else repr(z.real)
    if how == 'reim':
        return {'Im': z.imag} if z.imag else {'Re': z.real}
    if how == 'int':
        return 1 + i % 5
    if how == 'half':
        return v if i % 2 else 0
    return v


def run(case):
    conv.init()
    r = core.Result()
    c = tuple(case[1])
    r.outcome = case[0]
    sz = conv.size(c)
    rl = conv.real(c)
    if case[0] == 'trivial':
        for s in (1.5, 4.18, 91.1876, 1000, '160'):
            closure(r, c, {}, s, True)
        for z in (0, 0.0, -0.0, '0', {'Re': 0, 'Im': 0}, {'Im': 0.0}, {}):
            closure(r, c, {n: z for n in conv.names(c)}, 91.1876, True)
    elif case[0] == 'dense':
        d = core.dense(conv.names(c), 'a', rl, sz)
        if case[3] == 'int' and sz != 1:
            return closure(r, c, d) and r
        closure(r, c, {k: rep(v, case[3], i) for i, (k, v) in enumerate(d.items())}, case[2])
    elif case[0] == 'group':
        g = conv.groups(c)[case[2]]
        d = core.dense(g, 'g', rl, sz)
        closure(r, c, d)
        d2 = {n: 0 for n in conv.names(c)}
        d2.update(d)
        closure(r, c, d2)
    else:
        for n in case[2]:
            closure(r, c, {n: core.enc(conv.zval(n, 's', n in rl) * sz)}, 4.18)
            closure(r, c, {n: 0.0}, 91.1876, True)
    return r
