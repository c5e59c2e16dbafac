"""SMEFTsim cards.  Model: a frozen card layout (entry -> parameter name, plus
the Standard Model numbers of each model set and input scheme) and a naming
rule (parameter name -> Wilson coefficient and part), from which the expected
number of *every* card entry is computed for every input."""
import cmath
import copy
import json
import math
import os
import re
import shutil
import tempfile
import bases
import clirun
import conv
import core

CUT = [1000., 1., 246.22, 4500., 12345.678, 0.5]
BOUNDS = {'quick': 'every coefficient of the Warsaw mass basis x 9 values x model sets A, B (all card entries compared each time); dense files (also with hierarchies between real and imaginary parts down to 1e-12, sizes 1e-41 to 1e3) x schemes x %d cutoff scales; ordered pairs of fills of one card; console entry point x sets x schemes x cutoffs' % len(CUT)}
BOUNDS['thorough'] = BOUNDS['quick'] + '; additionally both schemes and all cutoffs for every coefficient and value, and 12 dense files'
ASSUMPTIONS = ['mc/ref_smeftsim.json: layout of the card (entry -> parameter name) and its Standard Model numbers, as published with SMEFTsim and reviewed',
               'operators with baryon or lepton number violation are not part of SMEFTsim',
               'numbers are printed with seven significant digits', 'coefficients declared real carry no imaginary part']
CHUNK = 1
# sizes of real and imaginary parts
HIER = {'small': (1e-18, 1e-18), 'nearly real': (1e-6, 1e-18), 'nearly imaginary': (1e-18, 1e-6), 'tiny': (1e-40, 1e-41), 'large': (1e3, 1e2)}
VALS = [2.5e-7, -2.5e-7, '1e-6', {'Re': 3e-7}, {'Re': -3e-7, 'Im': 0}]
CVALS = [{'Re': 3e-7, 'Im': 4e-7}, {'Re': -3e-7, 'Im': 4e-7}, {'Re': -5e-7, 'Im': -1.2e-6}, {'Re': 1e-7, 'Im': -2e-7}, {'Im': 1e-6}, {'Re': 0, 'Im': -1e-6}]
GAUGE = {'G': 'G', 'Gtil': 'Gtilde', 'W': 'W', 'Wtil': 'Wtilde', 'H': 'phi', 'Hbox': 'phiBox', 'HBox': 'phiBox', 'HDD': 'phiD', 'HG': 'phiG', 'HGtil': 'phiGtilde',
         'HW': 'phiW', 'HWtil': 'phiWtilde', 'HB': 'phiB', 'HBtil': 'phiBtilde', 'HWB': 'phiWB', 'HWBtil': 'phiWtildeB'}
_LOWER = {n.lower(): n for n in bases.SMEFT_CLASS}
assert len(_LOWER) == len(bases.SMEFT_CLASS)
NOT_IN_CARD = ('duql', 'duue', 'qqql', 'qque', 'llphiphi')


def rule(name):
    """card parameter name -> (coefficient, part) with part in
    'real', 'abs', 'phase' or ('cutoff', None)."""
    if name in ('LambdaSMEFT', 'Lambda'):
        return None, 'cutoff'
    assert name[0] == 'c', name
    n = name[1:]
    if n in GAUGE:
        return GAUGE[n], 'real'
    m = re.match(r'^(.+?)(Abs|Ph)([1-3x]+)$', n)
    op, part, idx = m.groups()
    idx = tuple(int(c) - 1 for c in idx.replace('x', ''))
    # SMEFTsim writes H for the Higgs doublet
    op = {'eH': 'ephi', 'uH': 'uphi', 'dH': 'dphi'}.get(op, op)
    op = re.sub('^H', 'phi', op)
    op = _LOWER[op.lower()]     # set B uses capital letters in part
    orb = bases.orbit(idx, bases.SMEFT_CLASS[op])
    best = min(i for i, c in orb)
    conj = {c for i, c in orb if i == best}
    assert False in conj, 'phase of the conjugate: %s' % name
    real = True in conj
    assert not (real and part == 'Ph'), name
    return bases.label(op, best), 'real' if real else 'abs' if part == 'Abs' else 'phase'


def parse(text):
    """{block: {index tuple: number}} of an LHA text."""
    out = {}
    blk = None
    for line in text.split('\n'):
        l = line.split('#')[0].split()
        if not l:
            continue
        if l[0].lower() == 'block':
            blk = ' '.join(l[1:])
            assert blk not in out, 'block %s twice' % blk
            out[blk] = {}
            continue
        if l[0].lower() == 'decay':
            key, val = ' '.join(l[1:-1]), float(l[-1])
            d = out.setdefault('DECAY', {})
            blk = None
        else:
            assert blk is not None, line
            key, val = ' '.join(l[:-1]), float(l[-1])
            d = out[blk]
        [int(x) for x in key.split()]
        assert key not in d, 'entry %s %s twice' % (blk, key)
        d[key] = val
    return out


_REF = None


def ref():
    global _REF
    if _REF is None:
        with open(os.path.join(core.HERE, 'ref_smeftsim.json')) as f:
            d = json.load(f)
        rows = {}
        for ms in 'AB':
            rows[ms] = {}
            for row in d['rows'][ms]:
                key = (row[0], tuple(row[1:-1]))
                assert key not in rows[ms]
                rows[ms][key] = (row[-1],) + rule(row[-1])
            have = {(c, p) for _, c, p in rows[ms].values()}
            assert len(have) == len(rows[ms])
            # the layout carries every supported coefficient exactly once
            for n in core.names('SMEFT', 'Warsaw mass'):
                parts = {p for p in ('real', 'abs', 'phase') if (n, p) in have}
                if n.split('_')[0] in NOT_IN_CARD:
                    assert not parts
                elif core.is_real('SMEFT', 'Warsaw mass', n):
                    assert parts == {'real'}, n
                else:
                    assert parts == {'abs', 'phase'}, n
        _REF = rows, d['sm']
    return _REF


def expected(ms, sch, lam, values):
    z = {k: core.num(v) for k, v in values.items()}
    out = {}
    for key, (name, c, part) in ref()[0][ms].items():
        v = z.get(c, 0)
        if part == 'cutoff':
            x = lam
        elif part == 'real':
            x = v.real * lam * lam
        elif part == 'abs':
            x = abs(v) * lam * lam
        else:
            x = cmath.phase(complex(v.real, v.imag or 0.)) if v else 0.
        out[key] = name, part, x
    if ms == 'A' and sch == 'mw':
        out['FRBlock', (1475,)] = 'MW0', 'real', 80.387
    return out


def close(part, a, x):
    if part == 'phase':
        d = abs(a - x)
        d = min(d, abs(d - 2 * math.pi))
        return d <= 2e-6 * abs(x)
    return abs(a - x) <= 2e-6 * abs(x)


def check_card(r, card, ms, sch, lam, values, what):
    exp = expected(ms, sch, lam, values)
    seen = set()
    for b, blk in card['Block'].items():
        for row in blk['values']:
            key = (b, tuple(int(i) for i in row[:-2]))
            if key in seen:
                r.fail('%s: entry %s twice' % (what, key))
            seen.add(key)
            if key not in exp:
                r.fail('%s: unexpected entry %s' % (what, row))
                continue
            name, part, x = exp[key]
            if row[-1].replace('#', '').strip() != name:
                r.fail('%s: entry %s is labelled %r, not %s' % (what, key, row[-1], name))
            try:
                a = float(row[-2])
            except Exception:
                r.fail('%s: %s: not a number: %r' % (what, key, row[-2]))
                continue
            if not close(part, a, x):
                r.fail('%s: %s (%s) is %s, expected %r' % (what, name, key, row[-2], x))
    if len(seen) < len(exp):
        r.fail('%s: %d entries missing: %s' % (what, len(exp) - len(seen), [k for k in exp if k not in seen][:5]))
    r.state([ms, sch, lam, sorted((k, str(v)) for k, v in values.items())])


def same(a, b):
    return {k: {n: float(x) for n, x in v.items()} for k, v in a.items()} == b


def setup(tier):
    conv.init()
    ref()


def cases(tier):
    nm = core.names('SMEFT', 'Warsaw mass')
    out = []
    for ms in 'AB':
        for ch in conv.chunks(nm, 24):
            out.append(['single', ms, ch, tier])
        for sch in ('alpha', 'mw'):
            for i in range(3 if tier == 'quick' else 12):
                for lam in CUT:
                    out.append(['dense', ms, sch, 'd%d' % i, lam])
            out += [['dense', ms, sch, k, lam] for k in conv.UNI for lam in CUT]
            out += [['dense', ms, sch, k, lam] for k in HIER for lam in CUT[:3]]
            out.append(['text', ms, sch])
            for route in ('default', 'output', 'spaced'):
                for lam in (None, 1000., 250.5, 10000.):
                    out.append(['cli', ms, sch, route, lam])
        for i in range(4):
            for j in range(4):
                out.append(['pair', ms, i, j])
    out += [['noscheme'], ['prompt'], ['invalid'], ['process']]
    return out


def fill(S, w, ms, lam, sch, card=None):
    return S.smeftsim_card_fill(S.initialize_smeftsim_card(ms) if card is None else card, w, ms, lam, sch)


def densevals(tag, size=1e-6):
    nm = core.names('SMEFT', 'Warsaw mass')
    if tag in HIER:
        re, im = HIER[tag]
        out = densevals('d0', 1.)
        for n, v in out.items():
            if isinstance(v, dict):
                out[n] = {'Re': v['Re'] * re, 'Im': v['Im'] * im}
            else:
                out[n] = v * max(re, im)
        return out
    if tag in conv.UNI:
        return conv.uniform(nm, tag, {n for n in nm if core.is_real('SMEFT', 'Warsaw mass', n)}, size)
    return core.dense(nm, tag, {n for n in nm if core.is_real('SMEFT', 'Warsaw mass', n)}, size)


def check_file(r, path, ms, sch, lam, vals, what):
    with open(path) as f:
        txt = f.read()
    d = parse(txt)
    pre, post = ref()[1][ms + sch]
    exp = {}
    for b, v in list(pre.items()) + list(post.items()):
        exp.setdefault(b, {}).update(v)
    for key, (name, part, x) in expected(ms, sch, lam, vals).items():
        exp.setdefault(key[0], {})[' '.join(map(str, key[1]))] = (part, x)
    for b in set(d) | set(exp):
        for k in set(d.get(b, {})) | set(exp.get(b, {})):
            if k not in d.get(b, {}):
                r.fail('%s: %s %s missing in the file' % (what, b, k))
            elif k not in exp.get(b, {}):
                r.fail('%s: extra entry %s %s in the file' % (what, b, k))
            else:
                p, x = exp[b][k] if isinstance(exp[b][k], tuple) else ('real', exp[b][k])
                if not close(p, d[b][k], x):
                    r.fail('%s: %s %s is %r in the file, expected %r' % (what, b, k, d[b][k], x))
    import pylha
    try:
        l = pylha.load(txt)
    except Exception as e:
        r.fail('%s: card cannot be loaded: %s' % (what, core.exc_name(e)))
        return
    if not set(d) - {'DECAY'} <= {b for b in l['BLOCK']} | {b for b in d if b.startswith('QNUMBERS')}:
        up = {b.upper() for b in l['BLOCK']}
        miss = [b for b in d if b != 'DECAY' and not b.startswith('QNUMBERS') and b.upper() not in up]
        if miss:
            r.fail('%s: blocks lost on loading: %s' % (what, miss))
    r.state([what, ms, sch, lam])


def run(case):
    conv.init()
    W = conv.W
    from wcxf.converters import smeftsim as S
    from wcxf import cli
    r = core.Result()
    k = r.outcome = case[0]
    if k == 'single':
        ms = case[1]
        for n in case[2]:
            vals = VALS[:] if core.is_real('SMEFT', 'Warsaw mass', n) else VALS[:4] + CVALS
            for v in vals:
                full = [(1000., 'alpha')] if case[3] == 'quick' else [(l, s) for l in CUT for s in ('alpha', 'mw')]
                for lam, sch in full:
                    values = {n: copy.deepcopy(v)}
                    w = W.WC('SMEFT', 'Warsaw mass', 1000, values)
                    card = fill(S, w, ms, lam, sch)
                    r.calls += 1
                    check_card(r, card, ms, sch, lam, {n: v}, '%s=%s' % (n, v))
                    if w.values != {n: v}:
                        r.fail('input file modified: %s' % w.values)
    elif k == 'dense':
        ms, sch, tag, lam = case[1:]
        vals = densevals(tag)
        w = W.WC('SMEFT', 'Warsaw mass', 1000, copy.deepcopy(vals))
        check_card(r, fill(S, w, ms, lam, sch), ms, sch, lam, vals, '%s dense' % case)
        r.calls += 1
        if w.values != vals:
            r.fail('input file modified')
    elif k == 'text':
        t = S.smeftsim_card_text(case[1], case[2])
        r.calls += 1
        for i, x in enumerate(('preamble', 'postamble')):
            r.state([case, x])
            if not same(ref()[1][case[1] + case[2]][i], parse(t[i])):
                a, b = ref()[1][case[1] + case[2]][i], parse(t[i])
                r.fail('%s %s: Standard Model numbers differ in blocks %s' % (case, x, [n for n in set(a) | set(b) if a.get(n) != b.get(n)]))
    elif k == 'pair':
        ms, i, j = case[1:]
        opts = [('d0', 1000., 'alpha'), ('d1', 250., 'mw'), ('d2', 4500., 'alpha'), (None, 1000., 'mw')]
        cards = []
        card = S.initialize_smeftsim_card(ms)
        for o in (opts[i], opts[j]):
            vals = densevals(o[0]) if o[0] else {}
            w = W.WC('SMEFT', 'Warsaw mass', 1000, copy.deepcopy(vals))
            c1 = fill(S, w, ms, o[1], o[2], card)
            c2 = fill(S, w, ms, o[1], o[2])
            r.calls += 2
            cards.append((c2, o, vals))
            check_card(r, c1, ms, o[2], o[1], vals, 'refilled card')
        for c, o, vals in cards:
            check_card(r, c, ms, o[2], o[1], vals, 'card after another fill')
    elif k == 'cli':
        ms, sch, route, lam = case[1:]
        vals = densevals('d1')
        d = tempfile.mkdtemp()
        cwd = os.getcwd()
        try:
            os.chdir(d)
            with open('in.json', 'w') as f:
                json.dump({'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000, 'values': vals}, f)
            argv = ['wcxf2smeftsim', 'in.json', '--model-set', ms, '--input-scheme', sch]
            if lam is not None:
                argv += ['--cutoff-scale', repr(lam)]
            out = 'wcxf2smeftsim_param_card.dat'
            if route != 'default':
                out = 'my card.dat' if route == 'spaced' else 'out.dat'
                argv += ['--output', out]
            if ms == 'A' and route == 'default':
                argv = [a for a in argv if a not in ('--model-set', 'A')]
            if sch == 'alpha' and route == 'default':
                argv = [a for a in argv if a not in ('--input-scheme', 'alpha')]
            x = clirun.inproc(cli.smeftsim, argv)
            r.calls += 1
            if x.rc != 0:
                r.fail('%s: exit %s %s %s' % (case, x.rc, x.err[-300:], x.trace[-500:]))
            elif sorted(os.listdir('.')) != sorted(['in.json', out]):
                r.fail('%s: files %s' % (case, os.listdir('.')))
            else:
                check_file(r, out, ms, sch, lam or 1000., vals, str(case))
                for old in ('Block old # x\n 1 2.\n' * 20000, 'x', ''):
                    with open(out, 'w') as f:
                        f.write(old)
                    x = clirun.inproc(cli.smeftsim, argv)
                    r.calls += 1
                    if x.rc != 0:
                        r.fail('%s: exit %s over an existing file' % (case, x.rc))
                    check_file(r, out, ms, sch, lam or 1000., vals, '%s over an existing file' % case)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
    else:
        d = tempfile.mkdtemp()
        cwd = os.getcwd()
        try:
            os.chdir(d)
            vals = densevals('d2')

            def put(doc):
                with open('in.json', 'w') as f:
                    json.dump(doc, f)
            doc = {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000, 'values': vals}
            r.state(k)
            if k == 'noscheme':
                put(doc)
                for bad in (['--model-set', 'C'], ['--input-scheme', 'gf'], ['--cutoff-scale', 'x']):
                    x = clirun.inproc(cli.smeftsim, ['wcxf2smeftsim', 'in.json'] + bad)
                    r.calls += 1
                    if x.rc == 0 or os.listdir('.') != ['in.json']:
                        r.fail('%s accepted' % bad)
            elif k == 'prompt':
                doc['basis'] = 'Warsaw'
                doc['values'] = {'G': 1e-6, 'uG_12': {'Re': 1e-6, 'Im': 1e-6}}
                put(doc)
                for key, go in (('i', True), ('I', True), ('n', False), ('x', False)):
                    x = clirun.inproc(cli.smeftsim, ['wcxf2smeftsim', 'in.json', '--output', 'o.dat'], key + '\n')
                    r.calls += 1
                    if os.path.exists('o.dat') != go:
                        r.fail('answer %r: card %swritten' % (key, '' if not go else 'not '))
                    elif go:
                        check_file(r, 'o.dat', 'A', 'alpha', 1000., doc['values'], 'ignored warning')
                        os.remove('o.dat')
            elif k == 'invalid':
                for chg in ({'values': {'nope': 1}}, {'eft': 'nope'}, {'basis': 'nope'}, {'values': {'G': 'x'}}):
                    put(dict(doc, **chg))
                    x = clirun.inproc(cli.smeftsim, ['wcxf2smeftsim', 'in.json', '--output', 'o.dat'])
                    r.calls += 1
                    if x.rc == 0:
                        r.fail('invalid file %s accepted' % chg)
                put(doc)
                x = clirun.inproc(cli.smeftsim, ['wcxf2smeftsim', 'missing.json', '--output', 'o.dat'])
                r.calls += 1
                if x.rc == 0:
                    r.fail('missing input accepted')
            else:
                put(doc)
                es, bs = core.definitions()
                b = [x for x in bs if x['eft'] == 'SMEFT' and x['basis'] == 'Warsaw mass']
                x = clirun.process('smeftsim', ['wcxf2smeftsim', 'in.json', '--model-set', 'B', '--input-scheme', 'mw', '--output', 'o.dat'], b'',
                                   json.dumps(es), json.dumps(b))
                r.calls += 1
                if x.rc:
                    r.fail('process: exit %s %s' % (x.rc, x.err[-300:]))
                else:
                    check_file(r, 'o.dat', 'B', 'mw', 1000., vals, 'process')
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
    return r
