"""Threads.  Two library calls run in two real threads under a controlled
scheduler: call A is stopped before a chosen line of the package (a trace
function counts the lines), call B runs - to its end, or up to a chosen
function entry of its own -, then A goes on to its end, then the rest of B.
Specification: sequential execution; each call gives what it gives alone."""
import copy
import io
import json
import os
import shutil
import sys
import tempfile
import threading
import time
import conv
import core
import ref_qcd

EVERY = {p: x * 1.05 for p, x in ref_qcd.DEFAULTS.items()}
ASSUMPTIONS = ['a switch of threads is modelled before every source line of the package (first occurrences; thorough: also second and last), not inside a line or a compiled library',
               'definitions (EFTs, bases, converters) are not registered meanwhile', 'one switch away from A and one back; two calls at a time']
BOUNDS = {'quick': 'every converter, the QCD functions, file loading, dumping, validation, basis validation with LaTeX stub, definition of child bases, summaries, EOS and SMEFTsim export, format conversion. One stop: the call with overridden parameters is stopped at every distinct line of the package it executes and a second call with other values, scale and parameters runs in between (converters which run functions of other converters: the lines of those functions once, with the other converter; SMEFTsim: 30 lines); reverse order, one input object shared by both calls, and different kinds of calls at function entries. Two stops, one per thread: all pairs of up to 12 function entries each',
          'thorough': 'as quick, every line (first, second and last occurrence; matching: first; SMEFTsim: 600 lines) in both orders, with separate and shared objects; every kind of call against 9 others; two stops at all pairs of up to 40 function entries each'}
CHUNK = 1
NCH = 8
PKG = os.path.join(os.path.realpath(core.REPO), 'wcxf') + os.sep


def setup(tier):
    conv.init()


# ------------------------------------------------------------------- calls
def conv_name(c):
    return 'conv ' + ' '.join(c)


CONV = {conv_name(c): c for c in conv.ALL}
OTHER = ['qcd', 'load json', 'load yaml', 'dump json', 'dump yaml', 'validate', 'summary', 'basis summary', 'definition', 'latex', 'eos', 'eosdir', 'smeftsim', 'to yaml', 'to json', 'number']
HEAVY = [conv_name(c) for c in conv.SM_M]
SHAREABLE = list(CONV) + ['dump json', 'dump yaml', 'validate', 'summary', 'basis summary', 'smeftsim', 'eos', 'latex']
_DOC = {}


def doc(e, b, tag, size=1.):
    k = (e, b, tag, size)
    if k not in _DOC:
        nm = core.names(e, b)
        rl = {n for n in nm if core.is_real(e, b, n)}
        _DOC[k] = core.dense(nm, tag, rl, size)
    return copy.deepcopy(_DOC[k])


def shared(name):
    """the object used by both calls"""
    W = conv.W
    if name in CONV:
        c = CONV[name]
        return conv.wc(c, doc(c[1], c[2], 'a', conv.size(c)))
    if name in ('basis summary', 'latex'):
        return W.Basis['WET', 'EOS']
    if name == 'smeftsim':
        return W.WC('SMEFT', 'Warsaw mass', 1000, doc('SMEFT', 'Warsaw mass', 'a'))
    return W.WC('WET', 'EOS', 100., doc('WET', 'EOS', 'a'), note={'x': [1, None]})


def wcres(o):
    return [o.eft, o.basis, repr(o.scale), sorted((k, repr(v)) for k, v in o.values.items())]


def call(name, v, obj):
    """variant v (0 or 1) of a call; returns a function without arguments"""
    W = conv.W
    if name in CONV:
        c = CONV[name]
        vals = doc(c[1], c[2], 'ba'[v == 0], conv.size(c))
        par = None if v == 0 else dict(EVERY)

        def f():
            w = obj or conv.wc(c, vals, (91.1876, 4.8)[v])
            return wcres(conv.apply(c, w, par))
        return f
    if name == 'qcd':
        from wcxf.util import qcd

        def f():
            a = 0.1185, 0.121
            out = [qcd.alpha_s((4.8, 1.9, 100.)[i], fl, a[v]) for i in range(3) for fl in (3, 4, 5, 6)]
            out += [qcd.m_b(4.18 + v, 91., fl, a[v]) for fl in (3, 4, 5, 6)] + [qcd.m_c(1.3 + v / 10., 91., fl, a[v]) for fl in (3, 4, 5)]
            return repr(out + [qcd.m_s(0.095 + v / 100., 91., fl, a[v]) for fl in (3, 4, 5)])
        return f
    if name.startswith('load') or name in ('to yaml', 'to json', 'number'):
        d = {'eft': 'WET', 'basis': 'EOS', 'scale': 80 + v, 'values': {'c%d_%d' % (v, i): [i, {'Re': i + v, 'Im': -i}][i % 2] for i in range(6)},
             'metadata': {'a': [v, None, {'k': 'x%d' % v}]}}
        import yaml
        txt = json.dumps(d) if name in ('load json', 'to yaml') else yaml.dump(d)

        def f():
            if name.startswith('load'):
                w = W.WC.load(io.StringIO(txt))
                return wcres(w), repr(w.metadata)
            if name == 'number':
                w = W.WC('E', 'B', 1, d['values'])
                return repr(w.dict), repr(W.WC.dict2values(w.dict))
            from wcxf.converters import yamljson
            o = io.StringIO()
            rc = (yamljson.convert_yaml if name == 'to yaml' else yamljson.convert_json)(io.StringIO(txt), o)
            return rc, o.getvalue()
        return f
    if name in ('dump json', 'dump yaml', 'validate', 'summary'):
        vals = doc('WET', 'EOS', 'ab'[v])
        if name == 'validate' and v:
            vals['nope'] = 1

        def f():
            w = obj or W.WC('WET', 'EOS', 100. + v, vals, note={'x': [v, None]})
            if name == 'summary':
                return str(w)
            if name == 'validate':
                return w.validate()
            s = io.StringIO()
            w.dump(s, fmt=name[5:])
            return s.getvalue(), w.dump(fmt=name[5:])
        return f
    if name == 'basis summary':
        def f():
            b = obj or W.Basis['WET', ('EOS', 'formflavor')[v]]
            return str(b), repr(b.all_wcs)
        return f
    if name == 'definition':
        def f():
            b = W.Basis('WET', 'p27 child %d' % v, {'s%d' % v: {'w%d' % v: {'tex': 'x'}}, 'sb': {}}, parent='EOS')
            return repr(b.sectors), repr(b.all_wcs), b.eft, b.basis
        return f
    if name == 'latex':
        def f():
            b = obj or W.Basis('WET', 'p27 tex %d' % v, {'dF=0': {'w%d' % v: {'tex': ('x', 'BADTEX')[v]}}})
            return b.validate()
        return f
    if name == 'eos':
        from wcxf.converters import eos
        vals = doc('WET', 'EOS', 'ab'[v])
        for n in list(vals):
            if 'munumu' in n:
                vals[n] = vals[n.replace('munumu', 'enue')]
        sm = {k: {'central': x + v} for k, x in (('b->s::c1', 1.), ('b->s::Re{c7}', 0.5), ('b->smumu::Im{c9}', 2.), ('b->ulnu::Re{cVL}', 1.), ('b->clnu::Im{cVL}', 1.), ('zz', 3.))}

        def f():
            w = obj or W.WC('WET', 'EOS', 100. + v, vals)
            return repr(eos.wcxf2eos(w, sm))
        return f
    if name == 'eosdir':
        from wcxf.converters import eos
        return lambda: repr(sorted(eos.get_sm_wcs(os.path.join(SCR, 'eos%d' % v)).items()))
    if name == 'smeftsim':
        from wcxf.converters import smeftsim as S
        vals = doc('SMEFT', 'Warsaw mass', 'ab'[v])

        def f():
            w = obj or W.WC('SMEFT', 'Warsaw mass', 1000, vals)
            m, s, l = ('A', 'alpha', 1000.) if not v else ('A', 'mw', 250.)
            return repr(S.smeftsim_card_fill(S.initialize_smeftsim_card(m), w, m, l, s)), S.smeftsim_card_text(m, s)
        return f
    raise AssertionError(name)


def outcome(f):
    try:
        return f()
    except core.Timeout:
        raise
    except Exception as e:
        return ['raised', type(e).__name__, str(e)]


# --------------------------------------------------------------- scheduler
def clear():
    """start from cold caches and new basis objects"""
    core.register(conv.W)
    for n, m in list(sys.modules.items()):
        if n.startswith('wcxf') and m is not None:
            for x in list(vars(m).values()):
                if hasattr(x, 'cache_clear') and callable(x.cache_clear):
                    x.cache_clear()


class Stopper:
    """Trace function that counts lines (or function entries) of the package
    and calls `hit` at the chosen one."""

    def __init__(self, point, hit, record=None):
        self.point, self.hit, self.record = point, hit, record
        self.n = {}
        self.done = False

    def glob(self, frame, event, arg):
        co = frame.f_code
        if self.done or not co.co_filename.startswith(PKG):
            return None
        self.at(('call', co.co_filename, co.co_firstlineno, co.co_name))
        if self.record is not None or self.point[0][0] == 'line' and self.point[0][1:3] == (co.co_filename, co.co_firstlineno):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if self.done:
            return None
        if event == 'line':
            co = frame.f_code
            self.at(('line', co.co_filename, co.co_firstlineno, frame.f_lineno))
        return self.loc

    def at(self, key):
        if self.record is not None:
            self.record[key] = self.record.get(key, 0) + 1
        elif key == self.point[0]:
            k = self.n[key] = self.n.get(key, 0) + 1
            if k == self.point[1]:
                self.done = True
                sys.settrace(None)
                self.hit()


def traced(stopper, f):
    sys.settrace(stopper.glob)
    try:
        return outcome(f)
    finally:
        sys.settrace(None)


def points(f, kind, occ):
    """[(key, occurrence)] of the executed lines or function entries, in the
    order of execution"""
    rec = {}
    traced(Stopper(None, None, rec), f)
    out = []
    for k, n in rec.items():
        if k[0] == kind:
            out += [(k, i) for i in sorted({1, n} | ({2} & set(range(n + 1)) if occ > 2 else set()) if occ > 1 else {1})]
    return out


COVER = ['conv T SMEFT Warsaw up Warsaw', HEAVY[0], 'conv T WET JMS flavio', 'conv T WET JMS Bern', 'conv T WET JMS EOS', 'conv T WET Bern flavio', 'conv T WET flavio Bern']
_COV = {}


def covered(name):
    """functions of which every line is a stop of an earlier call in COVER"""
    ops = COVER[:COVER.index(name)] if name in COVER else COVER
    out = set()
    for o in ops:
        if o not in _COV:
            clear()
            _COV[o] = {p[0][1:3] for p in points(call(o, 1, None), 'call', 1)}
        out |= _COV[o]
    return out


def thin(p, lim):
    """at most `lim` points, evenly spread"""
    return [p[j * len(p) // lim] for j in range(lim)] if len(p) > lim else p


def wait(event):
    """Wait for the other thread; give up if it does not run (the process uses
    no processor time), i.e. it waits for something this thread has to do."""
    idle, last = 0, time.process_time()
    while idle < 6 and not event.wait(0.02):
        now = time.process_time()
        idle = idle + 1 if now - last < 1e-3 else 0
        last = now


def schedule(fa, fb, pa, pb=None):
    """A up to point pa, B up to point pb (None: its end), rest of A, rest of
    B.  A call that cannot proceed (lock) lets the other one go on."""
    res = {}
    state = {'hit': False}
    paused, resume = threading.Event(), threading.Event()

    def run_b():
        def stop():
            paused.set()
            wait(resume)
        try:
            res['b'] = traced(Stopper(pb, stop), fb) if pb else outcome(fb)
        except BaseException as e:
            res['b'] = ['raised', type(e).__name__, str(e)]
        finally:
            paused.set()
    t = threading.Thread(target=run_b, daemon=True)

    def hit():
        state['hit'] = True
        t.start()
        wait(paused)
    res['a'] = traced(Stopper(pa, hit), fa)
    resume.set()
    if not state['hit']:
        t.start()
    t.join(60)
    if t.is_alive():
        res['b'] = 'blocked for ever'
    return res, state['hit']


# ------------------------------------------------------------------- cases
def cases(tier):
    """['one', A, B, variant A, variant B, shared, kind of points, occurrences,
    chunk, chunks, at most so many points]"""
    th = tier == 'thorough'
    out = []

    def one(n, va, vb, sh, kind, occ, ch, most=10 ** 6):
        for i in range(ch):
            out.append(['one', n, n, va, vb, sh, kind, occ, i, ch, most])
    for n in list(CONV) + OTHER:
        if n in HEAVY and n != HEAVY[0]:
            full = n == HEAVY[2]
            if th:
                one(n, 1, 0, False, 'line', 1, 32)
                one(n, 0, 1, False, 'call', 1, 16)
                one(n, 1, 0, True, 'call', 1, 16)
            else:
                one(n, 1, 0, False, 'rest', 1, 4, 60 if full else 20)
                one(n, 0, 1, False, 'call', 1, 2, 10)
                one(n, 1, 0, True, 'call', 1, 2, 10)
            continue
        occ = 3 if th and n not in HEAVY and n != 'smeftsim' else 1
        most = 10 ** 6
        if n == 'smeftsim':
            most = 600 if th else 30
        kind = 'line'
        if not th and (n == 'conv T SMEFT Warsaw Warsaw up' or ' WET-4 ' in n[:13] or ' WET-3 ' in n[:13]):
            kind = 'rest'       # same code as the inverse and in WET
        if n in HEAVY and not th:
            kind = 'rest'
        ch = 32 if n in HEAVY or th else NCH
        one(n, 1, 0, False, kind, occ, ch if kind != 'rest' or n in HEAVY else 2, 40 if kind == 'rest' else most)
        kind = kind if th and n not in HEAVY else 'call'
        one(n, 0, 1, False, kind, occ, ch if th else 4, most)
        if n in SHAREABLE:
            one(n, 1, 0, True, kind, occ, ch if th else 4, most)
    cross = ['conv T WET JMS flavio', 'conv T SMEFT Warsaw Warsaw up', 'conv M WET JMS WET-4 JMS', 'qcd', 'load yaml', 'dump yaml', 'latex', 'eos'] + ['smeftsim'] * th
    for a in cross:
        for b in list(CONV) + OTHER if th else cross:
            if a != b and b not in HEAVY:
                out.append(['one', a, b, 1, 0, False, 'call', 1, 0, 1, 60 if th else 20])
                out.append(['one', b, a, 1, 0, False, 'call', 1, 0, 1, 60 if th else 20])
    lim = 40 if th else 12
    for n in list(CONV) + OTHER:
        if n not in HEAVY:
            m = min(lim, 3) if n == 'smeftsim' else lim
            for i in range(m):
                out.append(['two', n, i, m])
    out += [['two', HEAVY[2], i, 4] for i in range(4)]
    return out


SCR = None
STUB = '''#!/bin/sh
for a; do f="$a"; done
d=$(/usr/bin/dirname "$f")
[ -f "$f" ] || { echo "! Emergency stop." > "$d/textest.log"; exit 3; }
if /bin/grep -q BADTEX "$f"; then echo "! Undefined control sequence." > "$d/textest.log"; exit 1; fi
exit 0
'''


class Scratch:
    def __enter__(self):
        global SCR
        SCR = self.d = tempfile.mkdtemp(prefix='p27_')
        for v in (0, 1):
            os.makedirs(os.path.join(SCR, 'eos%d' % v))
            for n in 'xy':
                with open(os.path.join(SCR, 'eos%d' % v, n + '.yaml'), 'w') as f:
                    f.write("'@metadata@': {wcxf-relevant: true}\n'%s%d::a': {central: %d}\n" % (n, v, v))
        for x in ('bin', 'tmp', 'cwd'):
            os.mkdir(os.path.join(SCR, x))
        p = os.path.join(SCR, 'bin', 'latex')
        with open(p, 'w') as f:
            f.write(STUB)
        os.chmod(p, 0o755)
        self.old = os.environ.get('PATH'), os.environ.get('TMPDIR'), tempfile.tempdir, os.getcwd()
        os.environ['PATH'] = os.path.join(SCR, 'bin') + ':/usr/bin:/bin'
        os.environ['TMPDIR'] = os.path.join(SCR, 'tmp')
        tempfile.tempdir = None
        os.chdir(os.path.join(SCR, 'cwd'))

    def __exit__(self, *a):
        os.chdir(self.old[3])
        os.environ['PATH'] = self.old[0] or ''
        if self.old[1] is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = self.old[1]
        tempfile.tempdir = self.old[2]
        shutil.rmtree(self.d, ignore_errors=True)


def diff(a, b):
    a, b = str(a), str(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return 'alone ...%s, now ...%s' % (a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])


def judge(r, res, alone, what):
    for x, y in zip('ab', alone):
        if res.get(x) != y:
            r.fail('%s: result of call %s changed: %s' % (what(), x.upper(), diff(y, res.get(x))))


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    r.outcome = case[0]
    with core.registries(W, ()), Scratch():
        if case[0] == 'one':
            na, nb, va, vb, sh, kind, occ, i, n, most = case[1:]
        else:
            na = nb = case[1]
            va, vb, sh, kind, occ = 1, 0, False, 'call', 1

        def make():
            clear()
            o = shared(na) if sh else None
            return call(na, va, o), call(nb, vb, o)
        alone = []
        for j in (0, 1):
            alone.append(outcome(make()[j]))
        if kind == 'rest':
            # lines of functions that no other call covers, and function entries
            seen = covered(na)
            pa = [p for p in points(make()[0], 'line', occ) if p[0][1:3] not in seen]
            pa += thin(points(make()[0], 'call', 1), most)
            most = 10 ** 6
        else:
            pa = points(make()[0], kind, occ)
        if case[0] == 'one':
            todo = [(p, None) for p in thin(pa, most)[i::n]]
        else:
            i, lim = case[2:]
            pb = points(make()[1], 'call', 1)
            todo = [(p, q) for p in thin(pa, lim)[i:i + 1] for q in thin(pb, lim)]
        for p, q in todo:
            fa, fb = make()
            res, hit = schedule(fa, fb, p, q)
            r.calls += 2
            r.state([na, nb, va, vb, sh, p, q])
            judge(r, res, alone, lambda: '%s and %s%s, A stopped at %s%s' % (na, nb, ' (one object)' if sh else '', fmt(p), ', B stopped at %s' % fmt(q) if q else ''))
    return r


def fmt(p):
    k, n = p
    return '%s %s:%s (occurrence %d)' % (k[0], os.path.relpath(k[1], core.REPO), k[3], n)
