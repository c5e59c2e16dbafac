import copy
import io
import json
import os
import shutil
import tempfile
from collections import OrderedDict
from itertools import product
import conv
import core
NAMES = ['a', 'C9_bsmumu', 'é', 'µ→eγ', 'yes', 'no', 'null', '~', '1', '1.0', '1e5', '-', '- x', '#c', 'a: b', 'a:b', '{x}', '[y]',
         "don't", '"q"', ' lead', 'trail ', '', 'true', 'a\nb', 'tab\t', '0x1F', '*ref', '&anc', '!tag', '%dir', '@at', '`tick`',
         '>', '|', ',', '?', 'x' * 200, 'two  spaces', '12:30:45', '\\alpha', '😀', '.inf', 'NaN', '=', '<<x', '_p', 'eft', 'Re', 'values']
DEFS = [None, {}, {'tex': 'x'}, {'real': True}, {'tex': r'\bar q \gamma^\mu P_L q', 'real': False}, {'tex': 'é'},
        {'tex': 'a\nb: c'}, {'tex': '', 'real': True, 'extra': [1, 2.5, None, {'z': 'y'}]}]
VALS = [0, 1, -3, 0.1, 1e-30, -1e300, 5e-324, 1.7976931348623157e308, 123456789012345678, {'Re': 1, 'Im': -2.5}, {'Re': 1e-5},
        {'Im': 3e-20}, {}, '1e-3', '0.5', 0.30000000000000004, 1e22, 1e16, 100000.0, 1e-5, float('inf'), -0.0, {'Re': '1', 'Im': '2e5'}]
META = [{}, {'metadata': {'generator': 'x', 'description': 'é: "y"\n\nz', 'n': [1, 2, [3]], 'b': True, 'o': None}},
        {'parameters': {'m_b': 4.2, 'x': {'y': 1e-10}}, 'comment': 'long ' * 40}, {'x1': [], 'x2': {}, 'x3': '', 'x4': False}, {'metadata': None, 'x5': 0, 'x6': 0.0, 'x7': [None], 'x8': {'': None}},
        {'metadata': {}, 'Metadata': 1, 'sector': {'a': {'b': {'c': []}}}, 'x9': True, 'scale2': 1e-320}]
FMT = ['json', 'JSON', 'Json', 'yaml', 'YAML', 'Yaml']
BAD = ['yml', 'xml', '', 'jsonx', 'json ', 'ya ml']
KW = {'json': [{}, {'indent': None}, {'indent': 4}, {'sort_keys': True}, {'ensure_ascii': False}],
      'yaml': [{}, {'default_flow_style': True}, {'allow_unicode': True}, {'indent': 4}, {'width': 30}]}
SCALES = [91.1876, 91, '160', 0.1 + 0.2, 91.18760000000001, 123456789.12345679, 1 / 3, 1e22, 1e16, 1e-300, 5e-324, 1e5, 100000, 1.7976931348623157e308]
KINDS = ['EFT', 'Basis', 'Child', 'WC']
BOUNDS = '4 object kinds x 6 format spellings x 4 routes (string, StringIO, file, second generation); %d names in every position; %d definitions; %d values; %d metadata sets; all ordered pairs of values and definitions; dump options; unknown formats; handwritten documents' % (len(NAMES), len(DEFS), len(VALS), len(META))
ASSUMPTIONS = ['PyYAML and json trusted', 'string keys']


def setup(tier):
    conv.init()


def cases(tier):
    out = []
    for kind in KINDS:
        for i in range(len(NAMES)):
            out.append(['name', kind, i])
        for i in range(len(META)):
            out.append(['meta', kind, i])
        out.append(['bad', kind])
        out.append(['size', kind])
    out += [['scale', i] for i in range(len(SCALES))]
    out += [['defs', i] for i in range(len(DEFS))]
    out += [['vals', i] for i in range(len(VALS))]
    out += [['namepair', i] for i in range(len(NAMES))]
    out += [['hand', i] for i in range(len(HAND))]
    for e, b in sorted({x for c in conv.ALL for x in (conv.source(c), conv.target(c))}):
        out.append(['real', e, b])
    return out


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    return float(x) if isinstance(x, float) else x


def typed(x):
    """content with types (1 and 1.0 and True are different)"""
    if isinstance(x, dict):
        return ('map', sorted((k, typed(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('seq', [typed(v) for v in x])
    return (type(x).__name__, repr(x))


def public(o):
    return {k: v for k, v in o.__dict__.items() if k[0] != '_'}


def make(kind, content, meta, od=False):
    """content: {sector: {name: def}} or {name: value}"""
    W = conv.W
    mk = OrderedDict if od else dict
    if kind == 'EFT':
        return W.EFT('E', mk((s, mk(content[s])) for s in content), **copy.deepcopy(meta))
    if kind == 'Basis':
        return W.Basis('E', 'B', mk((s, mk(content[s])) for s in content), **copy.deepcopy(meta))
    if kind == 'Child':
        W.Basis('E', 'parent', {'p1': {'c1': None, 'c2': {'tex': 'y'}}, 'p2': {}})
        return W.Basis('E', 'B', mk((s, mk(content[s])) for s in content), parent='parent', **copy.deepcopy(meta))
    return W.WC('E', 'B', 91.1876, copy.deepcopy(content), **copy.deepcopy(meta))


def trips(r, o, fmts=('json', 'yaml'), files=True, kws=False):
    W = conv.W
    cls = type(o)
    # fill the private caches
    if cls is W.WC:
        o.dict
    elif cls is W.Basis:
        o.all_wcs
    pub = copy.deepcopy(public(o))
    exp = typed(pub)
    r.state(repr(exp))
    tmp = tempfile.mkdtemp() if files else None
    try:
        for fmt in fmts:
            base = 'json' if fmt.lower() == 'json' else 'yaml'
            for kw in (KW[base] if kws else [{}]):
                texts = [o.dump(fmt=fmt, **kw)]
                s = io.StringIO()
                o.dump(s, fmt=fmt, **kw)
                texts.append(s.getvalue())
                r.calls += 2
                if files:
                    p = os.path.join(tmp, 'f')
                    with open(p, 'w', encoding='utf-8', newline='') as f:
                        o.dump(stream=f, fmt=fmt, **kw)
                    with open(p, encoding='utf-8', newline='') as f:
                        texts.append(f.read())
                    r.calls += 1
                if base == 'json':
                    try:
                        d = json.loads(texts[0])
                        if set(d) != set(pub):
                            r.fail('JSON fields written: %s' % sorted(set(d) ^ set(pub)))
                    except ValueError:
                        r.fail('not JSON: %s' % texts[0][:200])
                if typed(public(o)) != exp:
                    r.fail('dumping changed the object')
                for src in ([texts[0], io.StringIO(texts[0])] + sorted(set(texts[1:]) - {texts[0]}) + ([open(p, encoding='utf-8', newline='')] if files else [])):
                    n = cls.load(src)
                    if hasattr(src, 'close'):
                        src.close()
                    r.calls += 1
                    if type(n) is not cls:
                        r.fail('loaded a %s' % type(n))
                    got = typed(public(n))
                    if got != exp:
                        r.fail('%s round trip of %s: %s' % (fmt, str(exp)[:300], diff(pub, public(n))))
                    # second generation in the other format
                    m = cls.load(n.dump(fmt='yaml' if base == 'json' else 'json'))
                    r.calls += 2
                    if typed(public(m)) != exp:
                        r.fail('second generation differs: %s' % diff(pub, public(m)))
    finally:
        if tmp:
            shutil.rmtree(tmp)


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if typed(a.get(k, 'ABSENT')) != typed(b.get(k, 'ABSENT')):
            return '%s: %s became %s' % (k, str(a.get(k, 'ABSENT'))[:300], str(b.get(k, 'ABSENT'))[:300])
    return '?'


def content(kind, nm, i=0):
    if kind == 'WC':
        return {nm: VALS[i % len(VALS)], 'other': {'Re': 1.5, 'Im': 2}}
    if kind == 'EFT':
        return {nm: {}, 'sm': {}}
    return {nm: {'c': DEFS[4], nm: DEFS[i % len(DEFS)]}, 'sm': {}}


HAND = [
    ('eft: E\nbasis: B\nscale: 1e3\nvalues:\n  C1: 1e-3\n  C2: {Re: 1e5, Im: -2}\n  C3:\n    Im: 4\n',
     1000., {'C1': 1e-3, 'C2': 1e5 - 2j, 'C3': 4j}),
    ('# comment\neft: "E"\nbasis: \'B\'\nscale: 91.1876 # GeV\nvalues: {C1: 1, C2: -2.5e-9}\nmetadata: {x: y}\n',
     91.1876, {'C1': 1, 'C2': -2.5e-9}),
    ('---\neft: E\nbasis: B\nscale: 160\nvalues:\n  "C1": .5\n  ? C2\n  : 3.\n...\n', 160., {'C1': .5, 'C2': 3.}),
    ('\t{"eft": "E",\n\t"basis": "B", "scale": "4.8",\n\t\t"values": {"C1": "2e1", "C2": {"Im": 1}}}\n',
     4.8, {'C1': 20., 'C2': 1j}),
    ('{"eft":"E","basis":"B","scale":5,"values":{}}', 5., {}),
    ('  eft: E\n  basis: B\n  scale: 7\n  values:\n    C1: 2\n', 7., {'C1': 2.}),
    ('# one\n\n# two\n   eft: E\n   values:\n     C1: {Im: 2.5}\n     C2: 1\n   scale: 7\n   basis: B\n', 7., {'C1': 2.5j, 'C2': 1.}),
    ('eft: E\r\nbasis: B\r\nscale: 7.5\r\nvalues:\r\n  C1: 2\r\n', 7.5, {'C1': 2.}),
    ('\r\n {\r\n"eft": "E", "basis": "B",\r\n "scale": 7.5, "values": {"C1": 2e0}}\r\n\r\n', 7.5, {'C1': 2.}),
    ('eft: E\nbasis: B\nscale: 1\nvalues:\n  C1: &a {Re: 1, Im: 2}\n  C2: *a\n', 1., {'C1': 1 + 2j, 'C2': 1 + 2j}),
    ('{"values": {"b": 1, "a": {"Im": -1, "Re": 2}}, "scale": 1, "basis": "B", "eft": "E", "x": "{"}', 1., {'b': 1., 'a': 2 - 1j}),
    ('{eft: E, basis: B, scale: 5, values: {}}', 5., {}),
    ('eft: E\nbasis: B\nscale: 1\nvalues:\n  C1: +1.5e+2\n  C2: -1.\n  C3: 0\n', 1., {'C1': 150., 'C2': -1., 'C3': 0.}),
    ('\n\neft: E\nbasis: B\nscale: 1.0e2\nvalues:\n    C1: {Re: 0.1}\n    C2: {Re: 1, Im: 0}\n', 100., {'C1': .1, 'C2': 1.}),
]


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    r.outcome = case[0]
    with core.registries(W):
        if case[0] == 'name':
            kind, i = case[1:]
            for meta in META[:2]:
                trips(r, make(kind, content(kind, NAMES[i], i), meta, od=bool(i % 2)), FMT)
            # the name as EFT/basis name and in the metadata
            nm = NAMES[i]
            if kind == 'WC':
                trips(r, W.WC(nm, nm, 1, {'x': 1.}, metadata={nm: nm}))
            elif kind == 'EFT':
                trips(r, W.EFT(nm, {'s': {}}, metadata={nm: nm}))
            elif kind == 'Basis':
                trips(r, W.Basis(nm, nm, {'s': {'x': None}}, metadata={nm: [nm]}))
        elif case[0] == 'meta':
            trips(r, make(case[1], content(case[1], 'n'), META[case[2]]), FMT, kws=True)
        elif case[0] == 'bad':
            o = make(case[1], content(case[1], 'n'), META[1])
            for f in BAD:
                for s in (None, io.StringIO()):
                    try:
                        o.dump(s, fmt=f)
                        r.fail('format %r accepted' % f)
                    except ValueError:
                        pass
                    r.calls += 1
                    r.state(f)
            default = o.dump()
            if json.loads(default) != json.loads(o.dump(fmt='json')):
                r.fail('default format is not JSON')
        elif case[0] == 'size':
            for n in (0, 1, 2, 50, 500):
                if case[1] == 'WC':
                    c = {'C%d' % i: VALS[i % len(VALS)] for i in range(n)}
                else:
                    c = {'s%d' % i: ({} if case[1] == 'EFT' else {'C%d_%d' % (i, j): DEFS[j % len(DEFS)] for j in range(3)})
                         for i in range(n)}
                trips(r, make(case[1], c, META[1], od=True), files=False)
        elif case[0] == 'scale':
            for n in (0, 3):
                trips(r, W.WC('E', 'B', SCALES[case[1]], {'C%d' % i: VALS[i] for i in range(n)}), FMT, kws=True)
        elif case[0] == 'defs':
            for j in range(len(DEFS)):
                for kind in ('Basis', 'Child'):
                    trips(r, make(kind, {'s1': {'a': DEFS[case[1]], 'b': DEFS[j]}, 's2': {'c': DEFS[j]}}, {}), files=False)
        elif case[0] == 'vals':
            for j in range(len(VALS)):
                for od in (False, True):
                    v = {'a': VALS[case[1]], 'b': VALS[j]}
                    o = make('WC', OrderedDict(v) if od else v, {})
                    trips(r, o, files=False)
                    for f in ('json', 'yaml'):
                        n = W.WC.load(o.dump(fmt=f))
                        r.calls += 1
                        for k in v:
                            if complex(n.dict[k]) != core.num(v[k]):
                                r.fail('value %r read back as %r' % (v[k], n.dict[k]))
        elif case[0] == 'namepair':
            for j in range(len(NAMES)):
                if j != case[1]:
                    a, b = NAMES[case[1]], NAMES[j]
                    trips(r, make('Basis', {a: {a: None, b: DEFS[2]}, b: {'x': DEFS[3]}}, {}), files=False)
                    trips(r, make('WC', {a: 1., b: {'Re': 0, 'Im': 1}}, {}), files=False)
        elif case[0] == 'hand':
            text, scale, vals = HAND[case[1]]
            for src in (text, io.StringIO(text)):
                w = W.WC.load(src)
                r.calls += 1
                r.state([text])
                if (w.eft, w.basis, w.scale) != ('E', 'B', scale) or {k: complex(v) for k, v in w.dict.items()} != {k: complex(v) for k, v in vals.items()}:
                    r.fail('document %r read as %s %s' % (text, w.scale, w.dict))
                trips(r, w, files=False)
        elif case[0] == 'real':
            d = [b for b in core.definitions()[1] if (b['eft'], b['basis']) == (case[1], case[2])][0]
            e = [x for x in core.definitions()[0] if x['eft'] == case[1]][0]
            W.EFT(**copy.deepcopy(e))
            trips(r, W.EFT[case[1]], files=False)
            d = copy.deepcopy(d)
            par = d.get('parent')
            if par:
                W.Basis(**copy.deepcopy([b for b in core.definitions()[1] if (b['eft'], b['basis']) == (case[1], par)][0]))
            b = W.Basis(**d)
            trips(r, b, files=False)
            trips(r, W.WC(case[1], case[2], 91.1876, core.dense(core.names(case[1], case[2]), 'd')), files=False)
    return r
