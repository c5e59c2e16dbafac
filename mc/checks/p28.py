"""Interrupted calls.  A library call is interrupted (KeyboardInterrupt raised
by a trace function) before each source line of the package it executes; then
the same call is repeated on the same objects and a call with other inputs and
default parameters is made.  Specification: both give what they give in a
process where nothing was interrupted; inputs, defaults, definitions and
registries are as before."""
import ast
import copy
import sys
import conv
import core
from checks import p27 as T

ASSUMPTIONS = ['interruption before a source line of the package (first occurrence; thorough: also second and last), not inside a line, a compiled library or in a finally block or at the end of a with block',
               'temporary files of an interrupted LaTeX run are not judged']
BOUNDS = {'quick': 'every converter, the QCD functions, loading, dumping, validation, basis validation with LaTeX stub, definition of child bases, summaries, EOS and SMEFTsim export: call with overridden parameters interrupted at every distinct line of the package it executes (functions shared by several converters: with one of them; SMEFTsim: 60 lines), then repeated, then a second call; the call with default parameters at every function entry; interruption of the repetition as well (all pairs of up to 8 function entries)',
          'thorough': 'as quick with first, second and last occurrence of every line for every converter and both variants (SMEFTsim: 600 lines); pairs of up to 30 function entries'}
CHUNK = 1


def setup(tier):
    conv.init()


def cases(tier):
    """[kind, call, variant, points, occurrences, chunk, chunks, at most]"""
    th = tier == 'thorough'
    out = []

    def add(n, v, kind, occ, ch, most=10 ** 6):
        for i in range(ch):
            out.append(['one', n, v, kind, occ, i, ch, most])
    for n in list(T.CONV) + T.OTHER:
        heavy = n in T.HEAVY
        other = n == 'conv T SMEFT Warsaw Warsaw up' or ' WET-4 ' in n[:13] or ' WET-3 ' in n[:13]
        most = 10 ** 6 if n != 'smeftsim' else 600 if th else 60
        ch = 16 if heavy or th or n.startswith('conv T SMEFT') else 4
        if th:
            add(n, 1, 'line', 1 if heavy or n == 'smeftsim' else 3, 2 * ch, most)
            add(n, 0, 'call' if heavy else 'line', 1, ch, most)
        else:
            add(n, 1, 'rest' if heavy or other else 'line', 1, ch if not heavy or n == T.HEAVY[0] else 4, 30 if heavy or other else most)
            add(n, 0, 'call', 1, 2, 20 if heavy else most)
        lim = 30 if th else 8
        if not heavy:
            for i in range(lim):
                out.append(['two', n, i, 3 if n == 'smeftsim' else lim])
    return out


_FIN = {}


def protected(point):
    """lines of finally blocks and the ends of with blocks cannot be
    interrupted without harm"""
    key, occurrence = point
    fn = key[1]
    if fn not in _FIN:
        bad, with_ = set(), set()
        with open(fn) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            for b in getattr(n, 'finalbody', []):
                bad |= set(range(b.lineno, b.end_lineno + 1))
            if isinstance(n, ast.With):
                with_ |= set(range(n.lineno, n.body[0].lineno))
        _FIN[fn] = bad, with_
    return key[0] == 'line' and (key[3] in _FIN[fn][0] or occurrence > 1 and key[3] in _FIN[fn][1])


def interrupt():
    raise KeyboardInterrupt


def interrupted(f, point):
    """run f up to the point"""
    sys.settrace(T.Stopper(point, interrupt).glob)
    try:
        f()
        return 'finished'
    except KeyboardInterrupt:
        return 'interrupted'
    except core.Timeout:
        raise
    except Exception as e:
        return core.exc_name(e)
    finally:
        sys.settrace(None)


def registry(W):
    return [[list(getattr(W, n).instances), [id(x) for x in getattr(W, n).instances.values()]] for n in ('EFT', 'Basis', 'Translator', 'Matcher')]


def content(W):
    return [(k, {s: list(x) for s, x in b.sectors.items()}) for k, b in W.Basis.instances.items()]


def run(case):
    conv.init()
    W = conv.W
    import wcxf.parameters
    r = core.Result()
    r.outcome = case[0]
    with core.registries(W, ()), T.Scratch():
        if case[0] == 'one':
            name, v, kind, occ, i, n, most = case[1:]
        else:
            name, v, kind, occ, most = case[1], 1, 'call', 1, 10 ** 6

        def make():
            T.clear()
            o = T.shared(name) if name in T.SHAREABLE else None
            return T.call(name, v, o), T.call(name, 1 - v, None), o
        alone = [T.outcome(make()[j]) for j in (0, 1)]
        if kind == 'rest':
            seen = T.covered(name)
            pts = [p for p in T.points(make()[0], 'line', occ) if p[0][1:3] not in seen]
            pts += T.thin(T.points(make()[0], 'call', 1), most)
        else:
            pts = T.thin(T.points(make()[0], kind, occ), most)
        pts = [p for p in pts if not protected(p)]
        if case[0] == 'one':
            todo = [[p] for p in pts[i::n]]
        else:
            i, lim = case[2:]
            pts = T.thin(pts, lim)
            todo = [[p, q] for p in pts[i:i + 1] for q in pts]
        for ps in todo:
            fa, fb, o = make()
            before = copy.deepcopy(wcxf.parameters.p), registry(W), content(W), None if not hasattr(o, 'values') else copy.deepcopy(o.values)
            how = [interrupted(fa, p) for p in ps]
            r.calls += len(ps)
            r.state([name, v, ps])

            def what():
                return '%s interrupted at %s (%s)' % (name, ', then '.join(map(T.fmt, ps)), ', '.join(how))
            if [h for h in how if h not in ('interrupted', 'finished')]:
                if not str(alone[0]).startswith("['raised'"):
                    r.fail('%s: failed instead' % what())
            # a definition or its repetition may have entered the registry
            after = copy.deepcopy(wcxf.parameters.p), registry(W), content(W), None if not hasattr(o, 'values') else copy.deepcopy(o.values)
            if name not in ('definition', 'latex'):
                for x, y, z in zip(before, after, ('default parameters', 'registries', 'definitions', 'input file')):
                    if x != y:
                        r.fail('%s: %s changed' % (what(), z))
            for f, y, z in ((fa, alone[0], 'the repeated call'), (fb, alone[1], 'another call')):
                x = T.outcome(f)
                r.calls += 1
                if x != y:
                    r.fail('%s: %s gives another result: %s' % (what(), z, T.diff(y, x)))
    return r
