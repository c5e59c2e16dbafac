import io
import json
import os
import shutil
import tempfile
import yaml
import clirun
import conv
import core
# (YAML text, JSON text, content); None: not expressible in the format
OBJ = [{}, [], None, True, 1, 1.5, 'x', {'a': 1}, {'a': {'b': [1, 2.5, 'x', None, True]}}, {'é': 'µ→e', '😀': '𝒪'}, [1, [2, [3, []]]],
       {'yes': 'no', 'null': '~', '1': '2', 'on': 'off'}, {'': ''}, {'a b': ' c '}, {'n': 1e-30, 'm': -1e300, 'k': 123456789012345678},
       {'f': 100000.0, 'g': 1e-5, 'h': 0.1, 'i': -0.0, 'j': 1e22}, {'eft': 'WET', 'basis': 'flavio', 'scale': 160,
        'values': {'C9_bsmumu': {'Re': -1.2, 'Im': 0.3}, 'C10_bsmumu': 0.5}}, {'x': 'a\nb\n', 'y': '# no', 'z': 'a: b', 'w': '- q', 'v': "'\""},
       {'k%d' % i: {'tex': r'\bar b \gamma_%d' % i, 'real': i % 2 == 0} for i in range(60)}, {'d': '2018-01-01', 't': '12:30', 'o': '0o7', 'h': '0x1f'},
       {'empty': {}, 'list': [], 'none': None, 'false': False}, {'z': 1, 'a': 2, 'm': {'z': 1, 'b': 2}}, 'plain string', -7, {'s': 'x' * 300}, {'t': 'tab\there'}]
YAML_DOC = [('a: 1\nb: [1, 2]\n', {'a': 1, 'b': [1, 2]}), ('# c\na: "x" # y\n', {'a': 'x'}), ('---\na: 1\n...\n', {'a': 1}),
            ('a: &x {p: 1}\nb: *x\n', {'a': {'p': 1}, 'b': {'p': 1}}), ('a: |\n  l1\n  l2\n', {'a': 'l1\nl2\n'}),
            ('a: >\n  l1\n  l2\n', {'a': 'l1 l2\n'}), ('{a: 1, b: {c: 2}}', {'a': 1, 'b': {'c': 2}}), ('- 1\n- [2]\n', [1, [2]]),
            ('', None), ('~', None), ('a:\n', {'a': None}), ('a: yes\n', {'a': True}), ('a: 1e-3\n', {'a': '1e-3'}), ('a: 1.0e-3\n', {'a': 1e-3}),
            ('{"a": 1}', {'a': 1}), ('? k\n: v\n', {'k': 'v'}), ('x: 0.5\ny: .5\n', {'x': .5, 'y': .5}), ("a: 'it''s'\n", {'a': "it's"}),
            ('a:   1   \n\n\nb:  2', {'a': 1, 'b': 2}), ('  a: 1\n  b: {c: 2}\n', {'a': 1, 'b': {'c': 2}}), ('\n\n# x\n   a: 1\n   b: 2\n', {'a': 1, 'b': 2}),
            ('a: 1\r\nb:\r\n  - x\r\n', {'a': 1, 'b': ['x']}), ('  - 1\n  - 2\n', [1, 2]), ('%YAML 1.1\n---\na: 1\n', {'a': 1})]
JSON_DOC = [(' { "a" : 1 } ', {'a': 1}), ('[1,2,{"b":null}]', [1, 2, {'b': None}]), ('"x"', 'x'), ('1e5', 1e5), ('null', None),
            ('{"\\u00e9": "\\ud83d\\ude00"}', {'é': '😀'}), ('{"a":{"b":{"c":{}}}}', {'a': {'b': {'c': {}}}}), ('\t{\n"a"\t:\t[ ]}', {'a': []}),
            ('{"v": 1E-3, "w": -0.5e+2}', {'v': 1e-3, 'w': -50.}), ('true', True), ('{"z":1,"a":2}', {'z': 1, 'a': 2})]
BAD_YAML = ['{', 'a: [', 'a: b: c', 'a: "x', '[1, 2', 'a: *undefined', '\x01', 'a: 1\n b: 2\n', '- a\nb: c\n', 'a: !!python/object:os.path x', '@', '`x`',
            'a: 1\n---\nb: 2\n', 'a:\n\t- b', '%BAD\n', '{a: 1]', 'key: "\\q"']
BAD_JSON = ['', ' ', '{', '[1,', '{"a" 1}', "{'a': 1}", '{"a": 1,}', 'a: 1', '{"a": 1} x', '[1 2]', 'nul', '"x', '{a: 1}', '# c', '\x00', '{"a": .5}']
# not decodable as UTF-8
BAD_BYTES = [b'\xff', b'a: \xff\n', b'{"a": "\xc3"}', b'{"\xe9": 1}', '{"a": "é"}'.encode('utf-16'), b'a: 1\nb: "\x80"\n', b'"\xe2\x82', b'# \xfe\na: 1\n', b'{"a": [1, "\xed\xa0\x80"]}']
# no JSON equivalent: (text, number of mapping entries)
NO_JSON = [('? !!python/tuple [1, 2]\n: x\nb: 1\n', 2), ('a: 2001-01-01\nb: 1\n', 2), ('a: !!set {x, y}\nb: {c: 1}\n', 3), ('? [a]\n: b\nc: d\n', 2), ('2001-01-01: x\nb: c\n', 2),
           ('a: !!binary aGVsbG8=\nb: 2\n', 2), ('a: {? {b: c}\n: d}\n', 2), ('metadata: {date: 2018-12-24 10:00:00, author: x}\nvalues: {c: 1}\n', 5), ('? !!binary aGVsbG8=\n: 1\nb: {c: {d: 2001-01-01, e: 1}}\n', 5)]
ROUTES = [(i, o) for i in ('file', 'dash', 'absent') for o in ('stdout', 'file')]
FMTS = {'json': ['json', 'JSON', 'Json'], 'yaml': ['yaml', 'YAML', 'Yaml']}
UNKNOWN = ['xml', 'yml', '', 'jsonn', 'toml', 'yamljson']
BOUNDS = '%d documents in both directions through the library and the command line on 6 routes x 3 format spellings; %d handwritten YAML and %d JSON documents; %d malformed documents; unknown formats, unreadable files; covering subset as real processes' % (len(OBJ), len(YAML_DOC), len(JSON_DOC), len(BAD_YAML) + len(BAD_JSON) + len(BAD_BYTES))
ASSUMPTIONS = ['json and PyYAML safe loader trusted as readers of the output', 'JSON-representable content with string keys (other content must not be lost with status zero)']


def setup(tier):
    conv.init()


def docs(d):
    """[(text, content)] for output format d"""
    if d == 'json':
        return [(yaml.safe_dump(o, default_flow_style=fl, allow_unicode=au), o) for o in OBJ for fl, au in ((False, True), (None, False))] + YAML_DOC
    return [(json.dumps(o, indent=ind, ensure_ascii=ind is None), o) for o in OBJ for ind in (None, 2)] + JSON_DOC


def cases(tier):
    out = []
    for d in ('json', 'yaml'):
        n = len(docs(d))
        out += [['lib', d, i] for i in range(n)]
        out += [['cli', d, i] for i in range(n)]
        bad = BAD_YAML if d == 'json' else BAD_JSON
        out += [['bad', d, i] for i in range(len(bad))]
        k = 1 if tier == 'thorough' else 16
        out += [['proc', d, i, ri] for i in range(0, n, k) for ri in range(len(ROUTES)) if tier == 'thorough' or (i // k) % 3 == ri % 3]
        out += [['procbad', d, i] for i in range(0, len(bad), 1 if tier == 'thorough' else 4)]
    out += [['bytes', d, i] for d in ('json', 'yaml') for i in range(len(BAD_BYTES))]
    out += [['nojson', i] for i in range(len(NO_JSON))]
    out += [['unknown', f] for f in UNKNOWN]
    out += [['unreadable', d] for d in ('json', 'yaml')]
    return out


def content(text, d):
    return json.loads(text) if d == 'json' else yaml.safe_load(text)


def eq(a, b):
    return repr(srt(a)) == repr(srt(b))


def srt(x):
    if isinstance(x, dict):
        return sorted((k, srt(v)) for k, v in x.items())
    if isinstance(x, list):
        return ['seq'] + [srt(v) for v in x]
    return x


def judge(r, text, d, exp, what):
    try:
        got = content(text, d)
    except Exception as e:
        r.fail('%s: output cannot be parsed as %s: %s %r' % (what, d, core.exc_name(e), text[:200]))
        return
    if not eq(got, exp):
        r.fail('%s: content %r expected %r' % (what, got, exp))


def cli(r, d, fmt, text, route, tmp, proc=False):
    fin, fout = os.path.join(tmp, 'in.txt'), os.path.join(tmp, 'out.txt')
    with open(fin, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8'))
    with open(fout, 'w') as f:
        f.write('old: content\n' * 500)
    if route[1] != 'file':
        os.unlink(fout)
    argv = ['wcxf', 'convert', fmt] + {'file': [fin], 'dash': ['-'], 'absent': []}[route[0]]
    if route[1] == 'file':
        argv += ['--output', fout]
    stdin = '' if route[0] == 'file' else text
    if proc:
        x = clirun.process('wcxf_cli', argv, stdin if isinstance(stdin, bytes) else stdin.encode('utf-8'))
    else:
        import wcxf.cli
        x = clirun.inproc(wcxf.cli.wcxf_cli, argv, stdin)
    r.calls += 1
    if route[1] == 'file':
        x.text = ''
        if os.path.exists(fout):
            with open(fout, encoding='utf-8', newline='') as f:
                x.text = f.read()
    else:
        x.text = x.out
    return x


def run(case):
    conv.init()
    from wcxf.converters import yamljson
    r = core.Result()
    r.outcome = case[0]
    lib = {'json': yamljson.convert_json, 'yaml': yamljson.convert_yaml}
    tmp = tempfile.mkdtemp()
    try:
        if case[0] == 'lib':
            d = case[1]
            text, obj = docs(d)[case[2]]
            out = io.StringIO()
            rc = lib[d](io.StringIO(text), out)
            r.calls += 1
            r.state([d, text])
            if rc:
                r.fail('convert_%s(%r) returned %r' % (d, text, rc))
            judge(r, out.getvalue(), d, obj, 'convert_%s' % d)
            other = 'yaml' if d == 'json' else 'json'
            back = io.StringIO()
            rc = lib[other](io.StringIO(out.getvalue()), back)
            r.calls += 1
            if rc:
                r.fail('converting back returned %r' % rc)
            judge(r, back.getvalue(), other, obj, 'there and back')
        elif case[0] == 'cli':
            d = case[1]
            text, obj = docs(d)[case[2]]
            for fmt in FMTS[d]:
                for route in ROUTES:
                    x = cli(r, d, fmt, text, route, tmp)
                    what = 'wcxf convert %s %s' % (fmt, route)
                    if x.rc or x.trace:
                        r.fail('%s of %r: exit status %s %s' % (what, text, x.rc, x.trace[-500:]))
                    else:
                        judge(r, x.text, d, obj, what)
                    if route[1] == 'file' and x.out:
                        r.fail('%s: also wrote to stdout: %r' % (what, x.out[:100]))
            r.state([d, text])
        elif case[0] in ('bad', 'procbad'):
            d = case[1]
            text = (BAD_YAML if d == 'json' else BAD_JSON)[case[2]]
            r.state([d, text])
            if case[0] == 'bad':
                try:
                    rc = lib[d](io.StringIO(text), io.StringIO())
                except Exception as e:
                    r.fail('convert_%s(%r) raised %s' % (d, text, core.exc_name(e)))
                else:
                    if not rc:
                        r.fail('convert_%s(%r) returned %r' % (d, text, rc))
                r.calls += 1
            for fmt in FMTS[d]:
                for route in ROUTES if case[0] == 'bad' else [ROUTES[case[2] % 6]]:
                    x = cli(r, d, fmt, text, route, tmp, proc=case[0] == 'procbad')
                    if x.rc == 0 or x.trace:
                        r.fail('wcxf convert %s of malformed %r: exit status %s %s' % (fmt, text, x.rc, x.trace[-300:]))
                if case[0] == 'procbad':
                    break
        elif case[0] == 'nojson':
            text, n = NO_JSON[case[1]]
            r.state(text)

            def entries(o):
                return sum(1 + entries(v) for v in o.values()) if isinstance(o, dict) else sum(map(entries, o)) if isinstance(o, list) else 0
            for fmt in FMTS['json']:
                for route in ROUTES:
                    x = cli(r, 'json', fmt, text, route, tmp)
                    if x.rc == 0:
                        try:
                            have = entries(json.loads(x.text))
                        except ValueError:
                            have = -1
                        if have < n:
                            r.fail('wcxf convert %s of %r: status 0, but only %d of %d entries written: %s' % (fmt, text, have, n, x.text[:200]))
        elif case[0] == 'bytes':
            d, text = case[1], BAD_BYTES[case[2]]
            r.state([d, str(text)])
            for route in ROUTES:
                if route[0] == 'file' or route[1] == 'stdout':
                    x = cli(r, d, d, text, route, tmp, proc=route[0] != 'file' or case[2] == 0)
                    if x.rc == 0 or x.trace:
                        r.fail('wcxf convert %s of %r (%s): exit status %s %s' % (d, text, route, x.rc, x.trace[-300:]))
        elif case[0] == 'proc':
            d = case[1]
            text, obj = docs(d)[case[2]]
            x = cli(r, d, d, text, ROUTES[case[3]], tmp, proc=True)
            r.state([d, text, case[3]])
            if x.rc or x.trace:
                r.fail('process: exit status %s %s' % (x.rc, x.err[-500:]))
            else:
                judge(r, x.text, d, obj, 'process %s' % (ROUTES[case[3]],))
        elif case[0] == 'unknown':
            for text in ('{"a": 1}', 'a: 1', '{'):
                for route in ROUTES:
                    x = cli(r, 'json', case[1], text, route, tmp)
                    r.state([case[1], text, route])
                    if x.rc == 0 or x.trace:
                        r.fail('format %r: exit status %s %s' % (case[1], x.rc, x.trace[-300:]))
            x = cli(r, 'json', case[1], '{"a": 1}', ROUTES[0], tmp, proc=True)
            if x.rc == 0 or x.trace:
                r.fail('format %r: process exit status %s' % (case[1], x.rc))
        else:
            import wcxf.cli
            for argv in (['convert', case[1], os.path.join(tmp, 'absent')], ['convert', case[1], '-', '--output', os.path.join(tmp, 'no', 'dir')],
                         ['convert', case[1], 'a', 'b', 'c']):
                x = clirun.inproc(wcxf.cli.wcxf_cli, ['wcxf'] + argv, '{"a": 1}')
                r.calls += 1
                r.state(argv[2:])
                if x.rc == 0 or x.trace:
                    r.fail('%s: exit status %s' % (argv, x.rc))
    finally:
        shutil.rmtree(tmp)
    return r
