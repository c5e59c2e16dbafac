"""The wcxf command: every combination of subcommand, input route, input
format, output route, output format and request (succeeding or failing) is
executed through the real entry point and compared with the library call."""
import itertools
import json
import os
import shutil
import stat
import tempfile
import yaml
import clirun
import conv
import core

INR = ['file', 'stdin', 'dash']
INF = ['json', 'yaml', 'yamlflow']
STYLES = ['yamlindent', 'yamldoc', 'crlf', 'jsonpretty', 'jsoncrlf', 'sorted']
OUTR = ['stdout', 'output', 'existing', 'before']
OUTF = [None, 'json', 'yaml', 'JSON', 'Yaml']
REQ = ['ok', 'empty', 'nobasis', 'same', 'noeft', 'malformed', 'missingkey', 'missingfile', 'badvalue', 'badscale', 'badfmt', 'emptyfile', 'outdir', 'noargs', 'extra', 'case', 'space']
BOUNDS = 'translate, match: %d input routes x %d input formats x %d output routes x %d output formats x %d requests for two converters each; all 32 converters on the default route; validate: types x documents x routes, with LaTeX absent, accepting and failing; a subset as real processes' % (len(INR), len(INF), len(OUTR), len(OUTF), len(REQ))
ASSUMPTIONS = ['EFTs and bases are registered by the harness as the package data would']

# name -> (valid for eft, basis, wc ; document)
EFTDOC = {'eft': 'XE', 'sectors': {'s1': {'dB': 0}, 's2': None}}
BDOC = {'eft': 'XE', 'basis': 'XB', 'sectors': {'s1': {'a': {'tex': 'a'}, 'b': {'real': True}}, 's2': {'c': None}}}
WDOC = {'eft': 'XE', 'basis': 'XB', 'scale': 91.1876, 'values': {'a': 1, 'c': {'Re': 1, 'Im': -2}}}


def mod(d, **k):
    out = json.loads(json.dumps(d))
    for n, v in k.items():
        if v == 'DEL':
            out.pop(n)
        else:
            out[n] = v
    return out


# type, document, valid?, needs latex?
VAL = [
    ('eft', EFTDOC, True), ('eft', mod(EFTDOC, sectors='DEL'), False), ('eft', mod(EFTDOC, eft='DEL'), False), ('eft', [1], False), ('eft', mod(EFTDOC, extra=1), True), ('eft', WDOC, False),
    ('basis', BDOC, True), ('basis', mod(BDOC, eft='nope'), False), ('basis', mod(BDOC, sectors={'s9': {}}), False), ('basis', mod(BDOC, sectors={'s1': {'a': None}, 's2': {'a': None}}), False),
    ('basis', mod(BDOC, parent='nope'), False), ('basis', mod(BDOC, basis='DEL'), False), ('basis', EFTDOC, False), ('basis', mod(BDOC, basis='XC', parent='XB', sectors={}), True),
    ('wc', WDOC, True), ('wc', mod(WDOC, values={}), True), ('wc', mod(WDOC, values={'nope': 1}), False), ('wc', mod(WDOC, eft='nope'), False), ('wc', mod(WDOC, basis='nope'), False),
    ('wc', mod(WDOC, scale='x'), False), ('wc', mod(WDOC, scale='DEL'), False), ('wc', mod(WDOC, scale='5'), True),
    ('wc', BDOC, False), ('wc', 'text', False),
    ('WC', WDOC, False), ('', WDOC, False), ('nope', WDOC, False), ('bases', BDOC, False), ('EFT', EFTDOC, False)]
LATEX = ['absent', 'ok', 'fail']
CONV2 = [('T', 'WET', 'flavio', 'JMS'), ('T', 'SMEFT', 'Warsaw', 'Warsaw up'), ('M', 'WET', 'flavio', 'WET-4', 'flavio'), ('M', 'WET-3', 'JMS', 'WET-2', 'JMS')]


def setup(tier):
    conv.init()


def cases(tier):
    out = []
    ok = [c for c in CONV2 if c in conv.ALL] or CONV2
    cv = [c for c in conv.ALL if c[0] == 'T'][:1] + [c for c in ok if c[0] == 'M']
    cv += [c for c in ok if c[0] == 'T']
    for c in cv:
        for a, b, o, f in itertools.product(INR, INF, OUTR, OUTF):
            out.append(['conv', list(c), a, b, o, f, 'ok'])
        for a, b, o in itertools.product(INR, STYLES, OUTR[:2]):
            out.append(['conv', list(c), a, b, o, None, 'ok'])
        for q in REQ[1:]:
            for a, o, f in itertools.product(INR, OUTR[:2], OUTF[:3]):
                out.append(['conv', list(c), a, 'json', o, f, q])
    for c in conv.ALL:
        for f in (None, 'yaml'):
            out.append(['conv', list(c), 'file', 'json', 'stdout', f, 'ok'])
    for i in range(len(VAL)):
        for b in STYLES:
            out.append(['val', i, 'stdin', b, 'ok'])
        for a, b, l in itertools.product(INR, INF[:2], LATEX):
            out.append(['val', i, a, b, l])
    out += [['valmal', t, a] for t in ('eft', 'basis', 'wc') for a in INR]
    out += [['nosub'], ['badsub'], ['help']]
    P = [('conv', list(c), a, 'json', o, f, q) for c in cv[:1] + cv[-1:] for a, o, f, q in
         [('file', 'stdout', None, 'ok'), ('stdin', 'output', 'yaml', 'ok'), ('dash', 'output', None, 'ok'), ('file', 'stdout', None, 'nobasis'), ('file', 'output', None, 'malformed'), ('file', 'output', 'xml', 'badfmt')]]
    out += [['proc'] + list(p)[1:] for p in P]
    out += [['procval', i] for i in range(len(VAL)) if VAL[i][0] in ('eft', 'wc', 'nope', 'basis')]
    return out


def text(doc, fmt):
    if fmt == 'yamlindent':
        return ''.join('  ' + l for l in text(doc, 'yaml').splitlines(True))
    if fmt == 'yamldoc':
        return '# comment\n---\n# another: one\n' + text(doc, 'yaml') + '...\n'
    if fmt == 'crlf':
        return text(doc, 'yaml').replace('\n', '\r\n')
    if fmt == 'jsonpretty':
        return '\n' + json.dumps(doc, indent='\t') + '\n\n'
    if fmt == 'jsoncrlf':
        return json.dumps(doc, indent=3).replace('\n', '\r\n')
    if fmt == 'sorted':
        return json.dumps(doc, sort_keys=True)
    if fmt == 'json':
        return json.dumps(doc)
    return yaml.safe_dump(doc, default_flow_style=fmt == 'yamlflow', allow_unicode=True)


def strict_json(s):
    def bad(x):
        raise ValueError(x)
    return json.loads(s, parse_constant=bad)


class path:
    """latex stub on PATH"""

    def __init__(self, d, kind):
        self.d, self.kind = os.path.join(d, 'bin'), kind

    def __enter__(self):
        self.old = os.environ.get('PATH')
        os.makedirs(self.d)
        if self.kind != 'absent':
            p = os.path.join(self.d, 'latex')
            with open(p, 'w') as f:
                f.write('#!/bin/sh\nexit %d\n' % (self.kind == 'fail'))
            os.chmod(p, stat.S_IRWXU)
            pp = os.path.join(self.d, 'pdflatex')
            shutil.copy(p, pp)
        os.environ['PATH'] = self.d

    def __exit__(self, *a):
        os.environ['PATH'] = self.old
        return False


def vals(W, c):
    nm = conv.names(c)
    return core.dense(nm if c in conv.TH_M else nm[::max(1, len(nm) // 90)], 'cli', conv.real(c), conv.size(c))


def run(case):
    conv.init()
    W = conv.W
    from wcxf import cli
    r = core.Result()
    k = r.outcome = case[0]
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(d)
        return go(case, k, d, W, cli, r)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def go(case, k, d, W, cli, r):
    r.state(case)
    if k in ('conv', 'proc'):
        c, inr, inf, outr, fmt, req = case[1:]
        c = tuple(c)
        r.outcome = k + ':' + req
        scale = 160. if c[1] == 'SMEFT' else 4.2
        doc = {'eft': c[1], 'basis': c[2], 'scale': scale, 'values': vals(W, c), 'metadata': {'generator': 'é'}}
        cmd = 'translate' if c[0] == 'T' else 'match'
        tgt = list(c[3:])
        fail = req not in ('ok', 'empty')
        if req == 'empty':
            doc['values'] = {}
        elif req == 'nobasis':
            tgt[-1] = 'nobasis'
        elif req == 'case':
            tgt[-1] = tgt[-1].swapcase()
        elif req == 'space':
            tgt[-1] += ' '
        elif req == 'same':
            tgt[-1] = c[2]
            if c[0] == 'M':
                tgt[0] = c[1]
        elif req == 'noeft':
            doc['eft'] = 'nope'
        elif req == 'missingkey':
            del doc['basis']
        elif req == 'badvalue':
            doc['values'][list(doc['values'])[0]] = 'x'
        elif req == 'badscale':
            doc['scale'] = 'x'
        txt = text(doc, inf)
        if req == 'malformed':
            txt = '{"eft": "WET", '
        elif req == 'emptyfile':
            txt = ''
        fin = 'in put.' + inf[:4]
        with open(fin, 'w') as f:
            f.write(txt)
        argv = ['wcxf', cmd] + tgt
        if req == 'missingfile':
            argv.append('missing.json')
        elif req == 'noargs':
            argv = argv[:-1]
        elif inr == 'file':
            argv.append(fin)
        elif inr == 'dash':
            argv.append('-')
        if req == 'extra':
            argv += ['more', 'evenmore']
        opts = []
        if outr != 'stdout':
            opts += ['--output', 'nodir/out' if req == 'outdir' else 'out']
        elif req == 'outdir':
            fail = False
        if outr == 'existing':
            with open('out', 'w') as f:
                f.write('old' * 10000)
        if req == 'badfmt':
            opts += ['--format', 'xml']
        elif fmt:
            opts += ['--format', fmt]
        argv = argv[:2] + opts + argv[2:] if outr == 'before' else argv + opts
        stdin = '' if inr == 'file' else txt
        r.calls += 1
        if k == 'conv':
            x = clirun.inproc(cli.wcxf_cli, argv, stdin)
        else:
            es, bs = core.definitions()
            x = clirun.process('wcxf_cli', argv, stdin.encode(), json.dumps(es), json.dumps(bs))
        what = '%s' % argv
        if fail:
            if x.rc == 0:
                r.fail('%s (%s): exits with 0' % (what, req))
            if x.out and x.out.strip().startswith('{'):
                r.fail('%s (%s): result printed' % (what, req))
            if req not in ('outdir',) and os.path.exists('out') and outr != 'existing' and os.path.getsize('out'):
                r.fail('%s (%s): output written' % (what, req))
            return r
        if x.rc != 0:
            r.fail('%s: exit %s\n%s\n%s' % (what, x.rc, x.err[-300:], x.trace[-600:]))
            return r
        if outr == 'stdout':
            got = x.out
            if os.path.exists('out'):
                r.fail('%s: file written' % what)
        else:
            with open('out') as f:
                got = f.read()
            if x.out:
                r.fail('%s: printed %r' % (what, x.out[:100]))
        try:
            if (fmt or 'json').lower() == 'json':
                res = strict_json(got)
            else:
                res = yaml.load(got, Loader=yaml.SafeLoader)
                if got.lstrip().startswith('{') and len(doc['values']) > 0:
                    r.fail('%s: not block YAML' % what)
        except Exception as e:
            r.fail('%s: output not readable: %s: %r' % (what, core.exc_name(e), got[:200]))
            return r
        w = W.WC.load(txt)
        lib = w.translate(c[3]) if c[0] == 'T' else w.match(c[3], c[4])
        r.calls += 1
        exp = json.loads(lib.dump())
        if exp['eft'] != conv.target(c)[0] or exp['basis'] != conv.target(c)[1] or (req == 'ok' and not exp['values']):
            r.fail('library result')
        if res != exp:
            r.fail('%s: %s differs from the library result %s' % (what, str(res)[:300], str(exp)[:300]))
        return r
    if k in ('val', 'procval'):
        t, doc, good = VAL[case[1]]
        r.outcome = '%s:%s' % (k, 'valid' if good else 'invalid')
        inr, inf, latex = case[2:] if k == 'val' else ('file', 'json', 'absent')
        if t == 'basis' and latex == 'fail':
            good = False
        txt = text(doc, inf)
        with open('f', 'w') as f:
            f.write(txt)
        argv = ['wcxf', 'validate', t] + {'file': ['f'], 'stdin': [], 'dash': ['-']}[inr]
        r.calls += 1
        defs = json.dumps([EFTDOC]), json.dumps([BDOC])
        # the document validated may itself define what it needs
        if k == 'val':
            with core.registries(W):
                with path(d, latex):
                    for e in json.loads(defs[0]):
                        W.EFT(**e)
                    for b in json.loads(defs[1]):
                        W.Basis(**b)
                    x = clirun.inproc(cli.wcxf_cli, argv, txt if inr != 'file' else '')
        else:
            x = clirun.process('wcxf_cli', argv, b'', *defs)
        said = 'successful' in (x.out or '').lower()
        if (x.rc == 0) != good:
            r.fail('%s %s (latex %s): exit %s, expected %s\n%s' % (argv, doc, latex, x.rc, 'success' if good else 'failure', x.trace[-500:]))
        if said != good:
            r.fail('%s %s (latex %s): success message %sprinted' % (argv, doc, latex, '' if said else 'not '))
        left = set(os.listdir('.')) - {'f', 'bin'}
        if left:
            r.fail('files left: %s' % left)
        return r
    if k == 'valmal':
        for txt in ('{"eft":', 'a: b: c', '', '[]', 'null', '3', '{}'):
            with open('f', 'w') as f:
                f.write(txt)
            with core.registries(W):
                x = clirun.inproc(cli.wcxf_cli, ['wcxf', 'validate', case[1]] + {'file': ['f'], 'stdin': [], 'dash': ['-']}[case[2]], txt if case[2] != 'file' else '')
            r.calls += 1
            r.state([case, txt])
            if x.rc == 0 or 'success' in (x.out or ''):
                r.fail('validate %s of %r succeeds' % (case[1], txt))
        return r
    r.calls += 1
    if k == 'nosub':
        x = clirun.inproc(cli.wcxf_cli, ['wcxf'])
        if x.trace:
            r.fail('no subcommand: %s' % x.trace[-400:])
    elif k == 'badsub':
        for s in ('nope', 'Translate', '--nope'):
            x = clirun.inproc(cli.wcxf_cli, ['wcxf', s])
            if x.rc == 0:
                r.fail('unknown subcommand %s accepted' % s)
    else:
        for s in ([], ['translate'], ['match'], ['validate'], ['convert']):
            x = clirun.inproc(cli.wcxf_cli, ['wcxf'] + s + ['--help'])
            if x.rc != 0 or 'usage' not in x.out:
                r.fail('help %s' % s)
    return r
