"""EOS export.  Model: an own reading of EOS parameter names
(`Re{x}`, `Im{x}`, plain; `lnu` = electron and muon) applied to the file's
values and to the SM central values."""
import copy
import itertools
import json
import os
import re
import shutil
import tempfile
import yaml
import clirun
import conv
import core

V = [0.25, -0.5, {'Re': 0.125, 'Im': 0.75}, {'Re': -2, 'Im': -0.5}, {'Im': 0.5}, {'Re': 1}, '0.5', 0, {'Re': 0, 'Im': 0}, 3]
LF = [None, 0, 0.25, {'Re': 0.25}, -0.25, {'Re': 0.25, 'Im': 0.5}, {'Re': 0.25, 'Im': -0.5}, {'Im': 0.5}, {'Re': 0, 'Im': 0}, 0.25 + 1e-13, 1e-14, 1e-300, {'Re': 0.25, 'Im': 0.5 + 1e-12}, {'Re': 0.25, 'Im': 1e-15}]
BOUNDS = 'every EOS parameter and every EOS coefficient x %d values; all %d pairs of electron/muon values (presence included) for every charged-current parameter and two orders; all 81 synthetic parameter directories of two files with three kinds of metadata and names; dense files; console entry point x output routes x failures' % (len(V), len(LF) ** 2)
ASSUMPTIONS = ['EOS parameter naming as in the data files of the package and the EOS basis']
KINDS = ['true', 'false', 'missing', 'nometa', 'truthy', 'falsy', 'othername', 'subdir', 'null']


def setup(tier):
    conv.init()


def readdata():
    d = os.path.join(core.REPO, 'wcxf', 'data')
    out = {}
    for n in sorted(os.listdir(d)):
        if n.endswith('.yaml'):
            with open(os.path.join(d, n)) as f:
                doc = yaml.load(f, Loader=yaml.SafeLoader)
            if (doc.get('@metadata@') or {}).get('wcxf-relevant'):
                out.update({k: v for k, v in doc.items() if k != '@metadata@'})
    return out


class LFU(Exception):
    pass


def np_part(key, vals):
    z = {k: core.num(v) for k, v in vals.items()}
    if key in z:
        return z[key].real
    m = re.match(r'^(.*)(Re|Im)\{([^}]+)\}(.*)$', key)
    if not m:
        return 0.
    name = m.group(1) + m.group(3) + m.group(4)
    if name in z:
        x = z[name]
    elif 'lnu' in name:
        e, mu = [z.get(name.replace('lnu', l), 0) for l in ('enue', 'munumu')]
        if e != mu:
            raise LFU(name)
        x = e
    else:
        x = 0j
    x = complex(x)
    return x.real if m.group(2) == 'Re' else x.imag


def model(sm, vals):
    out = {}
    err = False
    for k, v in sm.items():
        try:
            x = float(v['central']) + np_part(k, vals)
            out[k] = {'central': x, 'min': x, 'max': x}
        except LFU:
            err = True
    return None if err else out


def agree(a, b):
    if set(a) != set(b):
        return 'parameters %s' % sorted(set(a) ^ set(b))[:5]
    for k in b:
        if set(a[k]) != set(b[k]):
            return '%s: keys %s' % (k, sorted(a[k]))
        for q in b[k]:
            x = a[k][q]
            if isinstance(x, (complex, str)) or not abs(float(x) - b[k][q]) <= 1e-12 * (1 + abs(b[k][q])):
                return '%s %s: %r, expected %r' % (k, q, x, b[k][q])
    return ''


# a parameter set with every naming pattern
SYN = {'b->s::c1': -0.29, 'b->s::Re{c7}': -0.33, 'b->s::Im{c7}': 0., 'b->smumu::Re{c9\'}': 4.27, 'b->smumu::Im{c9\'}': 0.1,
       'b->ulnu::Re{cVL}': 1., 'b->ulnu::Im{cVL}': 0., 'b->ulnu::Re{cSL}': 0., 'b->clnu::Re{cVL}': 1., 'b->clnu::Im{cVL}': 0.25, 'other::x': 5}


def syn():
    return {k: {'central': v, 'min': v - 1, 'max': v + 1} for k, v in SYN.items()}


def cases(tier):
    sm = readdata()
    out = [['one', n, 'data'] for n in core.names('WET', 'EOS')]
    out += [['one', re.sub(r'(Re|Im)\{([^}]+)\}', r'\2', n), 'syn'] for n in SYN] + [['one', n, 'syn'] for n in SYN]
    ccs = sorted({re.sub(r'(Re|Im)\{([^}]+)\}', r'\2', k) for k in list(sm) + list(SYN) if 'lnu' in k})
    for n in ccs:
        for i in range(len(LF)):
            out.append(['lfu', n, i])
    out += [['dense', 'd%d' % i, lfu] for i in range(8) for lfu in (True, False)]
    out += [['dense', k, True] for k in conv.UNI]
    out += [['empty'], ['data'], ['nodir']]
    for a, b in itertools.product(KINDS, repeat=2):
        out.append(['dir', a, b])
    for route in ('stdout', 'output', 'eoshome', 'stdin', 'dash'):
        for ext in ('json', 'yaml'):
            out.append(['cli', route, ext])
    out += [['clifail', i] for i in range(8)] + [['process', p] for p in ('output', 'eoshome', 'lfu')]
    return out


def mk(W, vals, scale=4.2):
    return W.WC('WET', 'EOS', scale, copy.deepcopy(vals))


def go(r, E, W, vals, sm, what):
    w = mk(W, vals)
    keep = copy.deepcopy(sm)
    exp = model(sm, vals)
    r.calls += 1
    r.state([what, sorted((k, str(v)) for k, v in vals.items())])
    try:
        out = E.wcxf2eos(w, sm)
    except ValueError:
        if exp is not None:
            r.fail('%s %s: ValueError' % (what, vals))
        out = None
    else:
        if exp is None:
            r.fail('%s %s: lepton non-universal file exported' % (what, vals))
        else:
            p = agree(out, exp)
            if p:
                r.fail('%s %s: %s' % (what, vals, p))
            if list(out) != list(sm):
                r.fail('%s: order of the parameters changed' % what)
    if w.values != vals or sm != keep:
        r.fail('%s: input modified' % what)
    return out


def write_dir(d, name, kind, params):
    doc = dict(params)
    meta = {'true': {'wcxf-relevant': True}, 'false': {'wcxf-relevant': False}, 'missing': {'title': 'x'}, 'truthy': {'wcxf-relevant': 'yes'},
            'falsy': {'wcxf-relevant': ''}, 'othername': {'wcxf-relevant': True}, 'subdir': {'wcxf-relevant': True}, 'null': {'wcxf-relevant': None}}.get(kind)
    if meta is not None:
        doc['@metadata@'] = meta
    path = os.path.join(d, name + '.yaml')
    if kind == 'othername':
        path = os.path.join(d, name + '.yml')
    if kind == 'subdir':
        os.mkdir(os.path.join(d, 'sub' + name))
        path = os.path.join(d, 'sub' + name, name + '.yaml')
    with open(path, 'w') as f:
        yaml.safe_dump(doc, f)
    return kind in ('true', 'truthy')


def install(base, params):
    d = os.path.join(base, 'share', 'eos', 'parameters')
    os.makedirs(d)
    write_dir(d, 'a', 'true', params)
    write_dir(d, 'b', 'false', {'unrelated::Re{c7}': {'central': 1., 'min': 0., 'max': 2.}})


def run(case):
    conv.init()
    W = conv.W
    from wcxf.converters import eos as E
    from wcxf import cli
    r = core.Result()
    k = r.outcome = case[0]
    data = os.path.join(core.REPO, 'wcxf', 'data')
    if k == 'one':
        sm = readdata() if case[2] == 'data' else syn()
        for v in V:
            go(r, E, W, {case[1]: v}, sm, case[2])
    elif k == 'lfu':
        n = case[1]
        for j in range(len(LF)):
            for order in (0, 1):
                items = [(n.replace('lnu', 'enue'), LF[case[2]]), (n.replace('lnu', 'munumu'), LF[j])]
                vals = dict(x for x in (items[::-1] if order else items) if x[1] is not None)
                for sm in (readdata(), syn()):
                    go(r, E, W, vals, sm, 'lfu')
                    # a tau coefficient does not matter
                    go(r, E, W, dict(vals, **{n.replace('lnu', 'taunutau'): {'Re': 7, 'Im': 8}}), sm, 'lfu+tau')
    elif k == 'dense':
        nm = core.names('WET', 'EOS')
        vals = conv.uniform(nm, case[1], (), 1.) if case[1] in conv.UNI else core.dense(nm, case[1])
        if case[2]:
            for n in list(vals):
                if 'enue' in n and n.replace('enue', 'munumu') in vals:
                    vals[n.replace('enue', 'munumu')] = copy.deepcopy(vals[n])
        out = go(r, E, W, vals, readdata(), 'dense')
        if case[2] and out is None:
            r.fail('dense universal file not exported')
    elif k == 'empty':
        go(r, E, W, {}, readdata(), 'empty')
        go(r, E, W, {}, {}, 'nothing')
        go(r, E, W, core.dense(core.names('WET', 'EOS'), 'x'), {}, 'nothing')
    elif k == 'data':
        got = E.get_sm_wcs(data)
        r.calls += 1
        r.state(sorted(got))
        if got != readdata():
            r.fail('data files read differently')
        if '@metadata@' in got or len(got) < 40:
            r.fail('data: %d parameters' % len(got))
        # twice the same
        if E.get_sm_wcs(data) != got:
            r.fail('second reading differs')
        r.calls += 1
    elif k == 'nodir':
        d = tempfile.mkdtemp()
        try:
            for p in (d, os.path.join(d, 'missing')):
                r.calls += 1
                r.state(p == d)
                if E.get_sm_wcs(p) != {}:
                    r.fail('parameters found in an empty directory')
        finally:
            shutil.rmtree(d)
    elif k == 'dir':
        d = tempfile.mkdtemp()
        try:
            exp = {}
            for n, kind, ps in (('one', case[1], {'b->s::c1': {'central': 1., 'min': 0., 'max': 2.}, 'b->s::Re{c7}': {'central': -1, 'min': -2, 'max': 0}}),
                                ('two', case[2], {'b->ulnu::Im{cVL}': {'central': 0.5, 'min': 0., 'max': 2.}})):
                if write_dir(d, n, kind, ps):
                    exp.update(ps)
            got = E.get_sm_wcs(d)
            r.calls += 1
            r.state(case)
            if dict(got) != exp:
                r.fail('%s: read %s, expected %s' % (case, sorted(got), sorted(exp)))
            if E.get_sm_wcs(d + os.sep) != got:
                r.fail('trailing separator matters')
        finally:
            shutil.rmtree(d)
    else:
        d = tempfile.mkdtemp()
        try:
            install(d, syn())
            home = os.path.join(d, 'home')
            os.makedirs(os.path.join(home, 'parameters'))
            vals = {'b->s::c1': 0.5, 'b->s::c7': {'Re': 0.25, 'Im': -0.5}, 'b->uenue::cVL': {'Re': 0.125, 'Im': 1.5}, 'b->umunumu::cVL': {'Re': 0.125, 'Im': 1.5}}
            es, bs = core.definitions()
            names = set(core.names('WET', 'EOS'))
            vals = {n: v for n, v in vals.items() if n in names}
            assert len(vals) == 4
            bad = {'values': dict(vals, **{'b->umunumu::cVL': 1})}
            doc = {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2, 'values': vals}
            ext = case[2] if k == 'cli' else 'json'
            fin = os.path.join(d, 'in.' + ext)
            txt = json.dumps(doc) if ext == 'json' else yaml.safe_dump(doc)

            def put(x):
                with open(fin, 'w') as f:
                    f.write(x if isinstance(x, str) else json.dumps(x))
            put(txt)
            fout = os.path.join(d, 'out.yaml')
            argv = ['wcxf2eos', fin, '--eosprefix', d]
            exp = model(syn(), vals)

            def load(p):
                with open(p) as f:
                    return yaml.load(f, Loader=yaml.SafeLoader)

            def tree():
                return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)
            before = tree()
            r.state(case)
            r.calls += 1
            if k == 'cli':
                route = case[1]
                stdin = ''
                if route == 'output':
                    argv += ['--output', fout]
                elif route == 'eoshome':
                    argv += ['--eoshome', home]
                elif route == 'stdin':
                    argv.remove(fin)
                    stdin = txt
                elif route == 'dash':
                    argv[1] = '-'
                    stdin = txt
                x = clirun.inproc(cli.eos, argv, stdin)
                if x.rc != 0:
                    r.fail('%s: exit %s %s %s' % (case, x.rc, x.err[-300:], x.trace[-500:]))
                    return r
                new = [f for f in tree() if f not in before]
                want = {'output': ['out.yaml'], 'eoshome': ['home/parameters/wcxf.yaml']}.get(route, [])
                if new != want:
                    r.fail('%s: new files %s' % (case, new))
                elif want:
                    for old in (None, 'x::old:\n  central: 1\n' * 400, 'a: b\n', ''):
                        if old is not None:
                            with open(os.path.join(d, want[0]), 'w') as f:
                                f.write(old)
                            x = clirun.inproc(cli.eos, argv, stdin)
                            r.calls += 1
                        p = agree(load(os.path.join(d, want[0])), exp)
                        if p or x.rc != 0:
                            r.fail('%s: exit %s, %s (previous content %r)' % (case, x.rc, p, old and old[:20]))
                elif x.out is not None:
                    p = agree(yaml.load(x.out, Loader=yaml.SafeLoader), exp)
                    if p:
                        r.fail('%s: %s' % (case, p))
            elif k == 'clifail':
                i = case[1]
                if i == 0:
                    argv += ['--output', fout, '--eoshome', home]
                elif i == 1:
                    argv += ['--eoshome', os.path.join(d, 'nowhere')]
                elif i == 2:
                    put(dict(doc, values={'nope': 1}))
                elif i == 3:
                    put(dict(doc, eft='nope'))
                elif i == 4:
                    put(dict(doc, **bad))
                elif i == 5:
                    put('{"eft": ')
                elif i == 6:
                    argv[1] = os.path.join(d, 'missing.json')
                elif i == 7:
                    put(dict(doc, **bad))
                    argv += ['--output', fout]
                x = clirun.inproc(cli.eos, argv)
                if x.rc == 0:
                    r.fail('%s: failure reported as success' % case)
                if x.out and 'central' in x.out or os.path.exists(fout) and os.path.getsize(fout):
                    r.fail('%s: output written' % case)
            else:
                sub = [b for b in bs if b['eft'] == 'WET' and b['basis'] == 'EOS']
                route = case[1]
                if route == 'lfu':
                    put(dict(doc, **bad))
                argv += ['--eoshome', home] if route == 'eoshome' else ['--output', fout]
                x = clirun.process('eos', argv, b'', json.dumps(es), json.dumps(sub))
                if route == 'lfu':
                    if x.rc == 0:
                        r.fail('process: non-universal file exported')
                elif x.rc != 0:
                    r.fail('process: exit %s %s' % (x.rc, x.err[-400:]))
                else:
                    p = agree(load(fout if route == 'output' else os.path.join(home, 'parameters', 'wcxf.yaml')), exp)
                    if p:
                        r.fail('process %s: %s' % (route, p))
        finally:
            shutil.rmtree(d)
    return r
