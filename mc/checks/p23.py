"""Summaries.  The text of str(Basis) and str(WC) is parsed back by an own
parser and compared with the object."""
import copy
import itertools
import re
import conv
import core

DEFS = [None, {}, {'tex': r'(\bar s \gamma^\mu P_L b)'}, {'tex': 'O_1', 'real': True}, {'real': True}, {'tex': 'a | b', 'real': False}, {'tex': r'\alpha', 'real': None}, {'real': 'yes', 'tex': ''}]
VALS = [0, 0.0, 1, -2.5, 1e-30, '3.25', '1e5', {'Re': 1, 'Im': -2}, {'Im': 3}, {'Re': -4}, {}, {'Re': '1.5', 'Im': '2'}, 1e300, 0.1 + 0.2]
SCALES = [1, 91.1876, '160', 4.2, 1e4]
SECT = ['sb', 'dB=dL=0', 'muemu']
META = [None, {}, {'description': 'Some **text**'}, {'source': 'x'}]
BOUNDS = 'bases: all assignments of 3 coefficients to {absent} + %d definitions in one sector, all pairs in two sectors, all orders of 3 sectors, metadata variants; files: all ordered pairs and triples of %d values, scales; all reconstructed bases and dense files; registries untouched' % (len(DEFS), len(VALS))
ASSUMPTIONS = ['one table row per coefficient with name, operator code and type, as in the documentation of the bases']


def setup(tier):
    conv.init()


def cases(tier):
    out = [['one', i] for i in range(-1, len(DEFS))]
    out += [['two', i] for i in range(len(DEFS))]
    out += [['order', list(p)] for k in range(4) for p in itertools.permutations(SECT, k)]
    out += [['meta', i] for i in range(len(META))]
    out += [['real', b['eft'], b['basis']] for b in core.definitions()[1]]
    out += [['vals', i] for i in range(len(VALS))]
    out += [['dense', b['eft'], b['basis']] for b in core.definitions()[1]]
    out += [['scale', i] for i in range(len(SCALES))] + [['late']]
    return out


ROW = re.compile(r'^\|\s*`(.*?)`\s*\|\s*\$(.*)\$\s*\|\s*([A-Za-z]+)\s*\|\s*$')


def parse_basis(text):
    """[(sector, [(name, tex, type)])]"""
    out = []
    for l in text.split('\n'):
        if l.startswith('### '):
            out.append((l[4:].strip().strip('`'), []))
        elif l.startswith('| `'):
            m = ROW.match(l)
            if not m or not out:
                return 'unreadable row %r' % l
            out[-1][1].append(m.groups())
    return out


def want_basis(sectors):
    out = []
    for s, wcs in sectors.items():
        rows = []
        for n, d in (wcs or {}).items():
            d = d or {}
            rows.append((n, d.get('tex', ''), 'R' if d.get('real') else 'C'))
        out.append((s, rows))
    return out


def check_basis(r, W, b, defn, what):
    r.calls += 3
    before = copy.deepcopy(b.sectors)
    t = str(b)
    p = parse_basis(t)
    w = want_basis(defn['sectors'])
    r.state([defn['eft'], defn['basis'], str(w)])
    if p != w:
        r.fail('%s: summary lists %s, expected %s' % (what, str(p)[:300], str(w)[:300]))
    head = b._repr_markdown_() if hasattr(b, '_repr_markdown_') else t
    for x in (t, head):
        first = x.strip().split('\n')[0]
        if defn['basis'] not in first or defn['eft'] not in first:
            r.fail('%s: header %r' % (what, first))
    d = (defn.get('metadata') or {}).get('description')
    if d and (d not in t or d not in head):
        r.fail('%s: description not shown' % what)
    rp = repr(b)
    if defn['basis'] not in rp or defn['eft'] not in rp or 'Basis' not in rp or '\n' in rp:
        r.fail('%s: repr %s' % (what, rp))
    if str(b) != t or b.sectors != before or list(b.sectors) != list(before):
        r.fail('%s: summary changes the basis' % what)


VROW = re.compile(r'^\|\s*`(.*?)`\s*\|\s*(\S+)\s*\|\s*$')


def check_wc(r, W, eft, basis, scale, values, what):
    w = W.WC(eft, basis, scale, copy.deepcopy(values))
    t = str(w)
    r.calls += 2
    rows = []
    for l in t.split('\n'):
        if l.startswith('| `'):
            m = VROW.match(l)
            if not m:
                r.fail('%s: unreadable row %r' % (what, l))
                return
            rows.append((m.group(1), complex(m.group(2))))
    exp = [(n, core.num(v)) for n, v in values.items()]
    r.state([eft, basis, str(scale), str(exp)])
    if rows != exp:
        r.fail('%s: summary lists %s, expected %s' % (what, str(rows)[:300], str(exp)[:300]))
    head = t.split('\n|')[0]
    nums = [float(x) for x in re.findall(r'(?<![\w.])\d+(?:\.\d+)?(?:e[+-]?\d+)?(?![\w.])', head)]
    if '`%s`' % eft not in head or '`%s`' % basis not in head or float(scale) not in nums or 'GeV' not in head:
        r.fail('%s: header %r' % (what, head))
    if w._repr_markdown_() != t:
        r.fail('%s: notebook representation differs' % what)
    rp = repr(w)
    if not all(x in rp for x in ('WC', eft, basis, str(float(scale)))) or '\n' in rp:
        r.fail('%s: repr %s' % (what, rp))
    if w.values != values or str(w) != t:
        r.fail('%s: summary changes the file' % what)


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    k = r.outcome = case[0]
    if k in ('real', 'dense'):
        d = [b for b in core.definitions()[1] if (b['eft'], b['basis']) == tuple(case[1:])][0]
        if k == 'real':
            b = W.Basis[tuple(case[1:])]
            full = dict(d, sectors=b.sectors)
            if 'parent' not in d and want_basis(b.sectors) != want_basis(d['sectors']):
                r.fail('registered sectors differ')
            check_basis(r, W, b, full, str(case))
        else:
            nm = core.names(*case[1:])
            check_wc(r, W, case[1], case[2], 91.1876, core.dense(nm, 'p23', {n for n in nm if core.is_real(case[1], case[2], n)}), str(case))
        return r
    with core.registries(W):
        if k == 'one':
            opts = [None] * (case[1] >= 0) + list(range(len(DEFS)))
            for j, l in itertools.product([-1] + list(range(len(DEFS))), repeat=2):
                s = {n: copy.deepcopy(DEFS[i]) for n, i in zip(('CVLL_bsbs', "c9'", 'a b'), (case[1], j, l)) if i >= 0}
                d = {'eft': 'E', 'basis': 'my basis', 'sectors': {'sb': s}}
                check_basis(r, W, W.Basis(**copy.deepcopy(d)), d, str([case, j, l]))
        elif k == 'two':
            for j in range(len(DEFS)):
                for a, b in (('x', 'y'), ('y', 'x')):
                    d = {'eft': 'WET-3', 'basis': 'B', 'sectors': {'s1': {a: copy.deepcopy(DEFS[case[1]])}, 's2': {b: copy.deepcopy(DEFS[j]), 'z': None}}}
                    check_basis(r, W, W.Basis(**copy.deepcopy(d)), d, str([case, j, a]))
        elif k == 'order':
            for fill in itertools.product((0, 1, 2), repeat=len(case[1])):
                d = {'eft': 'E', 'basis': 'B', 'sectors': {s: {('n%d%s' % (i, s)): {'tex': s, 'real': bool(i)} for i in range(f)} for s, f in zip(case[1], fill)}}
                check_basis(r, W, W.Basis(**copy.deepcopy(d)), d, str([case, fill]))
                # inherited: own sectors replace or extend those of the parent
                d2 = {'eft': 'E', 'basis': 'child', 'parent': 'B', 'sectors': {'sb': {'new': {'tex': 'N'}}}}
                c = W.Basis(**copy.deepcopy(d2))
                full = dict(d['sectors'])
                full.update(d2['sectors'])
                check_basis(r, W, c, dict(d2, sectors=full), 'child %s' % ([case, fill],))
                check_basis(r, W, W.Basis['E', 'B'], d, 'parent %s' % ([case, fill],))
        elif k == 'meta':
            d = {'eft': 'E', 'basis': 'B', 'sectors': {'s': {'a': None}}}
            if META[case[1]] is not None:
                d['metadata'] = META[case[1]]
            check_basis(r, W, W.Basis(**copy.deepcopy(d)), d, str(case))
        elif k == 'vals':
            check_wc(r, W, 'E', 'B', 2, {'only': VALS[case[1]]}, 'single')
            for j, l in itertools.product(range(len(VALS)), repeat=2):
                check_wc(r, W, 'E', 'B c', 91.1876, {'x_11': VALS[case[1]], "b->s::c9'": VALS[j], 'a': VALS[l]}, str([case, j, l]))
        elif k == 'scale':
            for vals in ({}, {'a': 1}):
                check_wc(r, W, 'WET-4', 'JMS', SCALES[case[1]], vals, str(case))
        elif k == 'late':
            # independent of registries: no basis of that name needed
            check_wc(r, W, 'unknown', 'unknown2', 1, {'q': 1}, 'unknown')
            b = W.Basis('E', 'B', {'s': {'a': None}})
            str(b)
            b2 = W.Basis('E', 'B', {'t': {'c': {'real': True}}})
            check_basis(r, W, b2, {'eft': 'E', 'basis': 'B', 'sectors': {'t': {'c': {'real': True}}}}, 'replaced')
            check_basis(r, W, b, {'eft': 'E', 'basis': 'B', 'sectors': {'s': {'a': None}}}, 'old')
    return r
