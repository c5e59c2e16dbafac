import copy
from collections import OrderedDict
from itertools import product
import math
import numpy as np
import conv
import core
N = [0, 1, -3, 0.0, -0.0, 2.5, -1e-30, 1e300, 5e-324, 0.1 + 0.2, 1 / 3, 123456789012345680, float('inf')]
ST = ['0', '1', '-2.5', '1e-3', '1E5', '+4', ' 7 ', '.5', '3.', '1e-300', '-0.0']
PART = [None, 0, 2, -0.5, 1e-40, '3', '-1e-2', '1.5E3']
REPS = [['n', x] for x in N] + [['s', x] for x in ST] \
    + [['d', re, im, k] for re in PART for im in PART for k in (0, 1)] + [['np', x] for x in range(4)]
NPV = [np.float64(0.25), np.int64(3), np.float32(0.5), np.bool_(True)]
SCALES = [91.1876, 91, '91.1876', '1e3', 1e-3, np.float64(4.2), np.int64(7), ' 160 ', 1, '4.18', 0.1 + 0.2, 91.18760000000001, '91.18760000000001', 1e-300, 123456789.12345679, 1 / 3, '1e22', 5e-324, 1.7976931348623157e308, 4.1800000001]
NUMS = [0, 1, -2, 0.0, -0.0, 1.5, 1e-320, -1e300, 1 + 0j, 0j, -2.5 + 0j, 1j, -1e-30j, 3 - 4j, 1e300 + 1e-300j,
        complex(0., -0.), complex(-1.5, -0.0), np.float64(0.1), np.complex128(1 - 1j), np.complex128(2), np.int64(-5),
        np.float32(0.5), np.complex64(0.5 + 0.25j), True, 0.1 + 0.2, 1 / 3, -math.pi * 1e-9, complex(1 / 3, 2 / 3), 9007199254740993., complex(0.1 + 0.2, -1e-17), complex(1e-9, 1e300)]
BOUNDS = '%d value representations alone and in all ordered pairs; %d scales; %d numbers (Python and numpy) through dict2values and back, alone and in pairs; additional fields' % (len(REPS), len(SCALES), len(NUMS))
ASSUMPTIONS = []


def setup(tier):
    conv.init()


def make(rep):
    """(value, exact meaning (re, im))"""
    k = rep[0]
    if k == 'n':
        return rep[1], (float(rep[1]), 0.)
    if k == 's':
        return rep[1], (float(rep[1]), 0.)
    if k == 'np':
        return NPV[rep[1]], (float(NPV[rep[1]]), 0.)
    re, im = rep[1], rep[2]
    d = OrderedDict() if rep[3] else {}
    if rep[3]:
        if im is not None:
            d['Im'] = im
        if re is not None:
            d['Re'] = re
    else:
        if re is not None:
            d['Re'] = re
        if im is not None:
            d['Im'] = im
    return d, (float(re or 0), float(im or 0))


def cases(tier):
    n = len(REPS)
    out = [['single', i] for i in range(n)]
    out += [['pair', i] for i in range(n)]
    out += [['scale', i] for i in range(len(SCALES))]
    out += [['num', i] for i in range(len(NUMS))]
    out += [['extra']]
    if tier == 'thorough':
        out += [['triple', i, j] for i in range(n) for j in range(n)]
    return out


def make_pair(x):
    return (x['Re'], x['Im']) if isinstance(x, dict) else (x, 0)


def same(x, m):
    z = complex(x)
    return (z.real, z.imag) == m and not isinstance(x, (dict, str))


def read(r, ks, reps):
    vals = OrderedDict((k, make(REPS[i])[0]) for k, i in zip(ks, reps))
    exp = {k: make(REPS[i])[1] for k, i in zip(ks, reps)}
    before = [(k, repr(v)) for k, v in vals.items()]
    w = conv.W.WC('E', 'B', 91, vals)
    for t in (0, 1):
        d = w.dict
        r.calls += 1
        if len(d) != len(ks) or set(d) != set(ks):
            r.fail('names %s expected %s' % (list(d), list(ks)))
        for k in ks:
            if k in d and not same(d[k], exp[k]):
                r.fail('%r read as %r, expected %r' % (vals[k], d[k], exp[k]))
    if [(k, repr(v)) for k, v in w.values.items()] != before or [(k, repr(v)) for k, v in vals.items()] != before:
        r.fail('values changed by reading: %s -> %s' % (before, w.values))
    r.state(sorted(exp.items()))


def write(r, d):
    before = dict(d)
    v = conv.W.WC.dict2values(d)
    r.calls += 1
    if set(v) != set(d) or d != before:
        r.fail('dict2values %s -> %s' % (d, v))
    for k in d:
        z = complex(d[k])
        if z.imag != 0:
            ok = isinstance(v[k], dict) and set(v[k]) == {'Re', 'Im'} and type(v[k]['Re']) is float \
                and type(v[k]['Im']) is float and (v[k]['Re'], v[k]['Im']) == (z.real, z.imag)
        else:
            ok = type(v[k]) is float and v[k] == z.real
        if not ok:
            r.fail('dict2values: %r -> %r' % (d[k], v[k]))
    w = conv.W.WC('E', 'B', 1, v)
    r.calls += 1
    for k in d:
        z = complex(d[k])
        if not same(w.dict[k], (z.real, z.imag)):
            r.fail('round trip of %r gives %r' % (d[k], w.dict[k]))
    r.state(sorted((k, str(x)) for k, x in d.items()))


def run(case):
    conv.init()
    r = core.Result()
    r.outcome = case[0]
    n = len(REPS)
    if case[0] == 'single':
        read(r, ['C1'], [case[1]])
    elif case[0] == 'pair':
        for j in range(n):
            read(r, ['C1', 'a b:{'], [case[1], j])
    elif case[0] == 'triple':
        for j in range(0, n):
            read(r, ['x', 'y', 'z'], [case[1], case[2], j])
    elif case[0] == 'scale':
        s = SCALES[case[1]]
        w = conv.W.WC('E', 'B', s, {})
        r.calls += 1
        r.state(str(s))
        if type(w.scale) is not float or w.scale != float(s):
            r.fail('scale %r read as %r' % (s, w.scale))
    elif case[0] == 'num':
        x = NUMS[case[1]]
        write(r, {'a': x})
        for y in NUMS:
            write(r, {'a': x, 'b': y})
    else:
        # files are independent of each other, also empty ones
        for vals in ({}, {'a': 1}, {'a': {'Re': 1, 'Im': 2}}):
            w, v = [conv.W.WC('E', 'B', 1., copy.deepcopy(vals)) for _ in '12']
            r.calls += 2
            w.values['b'] = 5
            if w.dict != {**{k: complex(*make_pair(x)) for k, x in vals.items()}, 'b': 5} or v.values != vals or set(v.dict) != set(vals):
                r.fail('adding a coefficient to a file: %s, another file: %s' % (w.dict, v.values))
        for kw in ({}, {'metadata': {'a': 1}}, {'parameters': {'b': [1, 2]}, 'foo': None, 'bar_x': 'y'}, {'description': 'é'}):
            w = conv.W.WC('E', 'B', 1., {'a': 1}, **kw)
            r.calls += 1
            r.state(sorted(kw))
            for k, v in kw.items():
                if getattr(w, k, 'MISSING') != v:
                    r.fail('additional field %s lost' % k)
            if (w.eft, w.basis, w.scale, w.values) != ('E', 'B', 1., {'a': 1}):
                r.fail('fields changed by additional fields')
    return r
