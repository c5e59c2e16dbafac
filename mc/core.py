"""Explicit-state exploration harness shared by all checks.

A check module defines

    PID, LEVEL_NOTE ...
    def cases(tier):   -> list of JSON-able cases.  The *complete* bounded
                          space: every case is executed, none is sampled.
    def run(case):     -> Result.  Executes the reference model and the real
                          implementation on the case and compares them.

The harness executes all cases (in forked workers, each worker starting from
the same freshly initialised registry), counts model states (distinct
reference outcomes), transitions (implementation calls) and validated traces
(cases whose implementation run was compared with the model), writes the
evidence file and, for every violated case, a replay file.
"""
import hashlib
import importlib
import json
import logging
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('WCXF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')


class Result:
    __slots__ = ('calls', 'states', 'problems', 'outcome')

    def __init__(self):
        self.calls = 0          # implementation calls (transitions)
        self.states = set()     # hashes of model states visited
        self.problems = []      # violated obligations
        self.outcome = 'ok'     # outcome class, for vacuity control

    def state(self, obj):
        self.states.add(hash_obj(obj))

    def fail(self, msg):
        if len(self.problems) < 20:
            self.problems.append(str(msg)[:2000])


def hash_obj(obj):
    return hashlib.md5(repr(obj).encode()).hexdigest()[:12]


# ------------------------------------------------------------------ registry
def fresh(with_bases=True):
    """Import wcxf from the repository and register the reconstructed EFTs
    and bases.  Returns the module."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import wcxf
    assert os.path.realpath(wcxf.__file__).startswith(os.path.realpath(REPO)), \
        wcxf.__file__
    if not PRISTINE:
        PRISTINE.update({n: 'instances' in getattr(wcxf, n).__dict__ for n in ('EFT', 'Basis')})
    if with_bases:
        register(wcxf)
    return wcxf


PRISTINE = {}       # does a never-filled registry exist after the import?


def never(cls):
    """Bring a registry (EFT, Basis) to the state it has in a new process."""
    if PRISTINE[cls.__name__]:
        cls.clear_all()
    elif 'instances' in cls.__dict__:
        del cls.instances


_DEFS = None


def definitions():
    global _DEFS
    if _DEFS is None:
        import bases
        import copy
        fk = flavorkit_tables()
        _DEFS = bases.efts(), bases.bases(fk)
        _DEFS = copy.deepcopy(_DEFS)
    return _DEFS


def register(wcxf):
    es, bs = definitions()
    for e in es:
        wcxf.EFT(**e)
    for b in bs:
        wcxf.Basis(**b)


def flavorkit_tables():
    """The FlavorKit<->JMS name tables as published with the basis (a frozen
    copy lives in mc/ref_flavorkit.json)."""
    with open(os.path.join(HERE, 'ref_flavorkit.json')) as f:
        d = json.load(f)
    return d['direct'], d['conj']


_NAMES = {}


def names(eft, basis):
    """All coefficient names of a reconstructed basis."""
    if not _NAMES:
        for b in definitions()[1]:
            _NAMES[b['eft'], b['basis']] = [n for s in b['sectors'].values()
                                            for n in s]
    return _NAMES[eft, basis]


_REAL = {}


def is_real(eft, basis, name):
    if not _REAL:
        for b in definitions()[1]:
            _REAL[b['eft'], b['basis']] = {
                n for s in b['sectors'].values() for n, d in s.items()
                if d.get('real')}
    return name in _REAL[eft, basis]


# ------------------------------------------------------------------ numbers
def num(v):
    """Independent reading of a WCxf value."""
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return complex(float(v))


def enc(z):
    """Encode a number as WCxf value."""
    z = complex(z)
    if z.imag != 0:
        return {'Re': z.real, 'Im': z.imag}
    return z.real


def _h(tag, name, mod):
    return int(hashlib.md5((tag + '/' + name).encode()).hexdigest()[:8], 16) % mod


def dense(nm, tag='a', real=(), size=1.0):
    """Fixed dense vector: every coefficient gets a distinct-looking non-zero
    value that depends only on its name and `tag`."""
    out = {}
    for n in nm:
        re = (_h(tag + 're', n, 199) - 99 + 0.5) / 97.
        im = (_h(tag + 'im', n, 193) - 96 + 0.5) / 89.
        out[n] = enc(size * (re if n in real else complex(re, im)))
    return out


def compare(actual, expected, rtol=1e-9, atol=None, what='', lim=3):
    """Compare two {name: number} dicts, absent = 0. Returns list of
    differences."""
    if atol is None:
        m = max([abs(v) for v in expected.values()] or [0])
        atol = 1e-12 * m
    out = []
    fl = atol if callable(atol) else lambda k: atol
    for k in list(expected) + [k for k in actual if k not in expected]:
        a = complex(actual.get(k, 0))
        e = complex(expected.get(k, 0))
        d = abs(a - e)
        if not d <= rtol * abs(e) + fl(k):      # also catches nan
            out.append('%s %s: got %r, expected %r' % (what, k, a, e))
            if len(out) >= lim:
                break
    return out


def key_problems(actual, allowed, what=''):
    bad = [k for k in actual if k not in allowed]
    return ['%s names not in target basis: %s' % (what, bad[:5])] if bad else []


def wc_out(wc):
    """Numbers of an output WC, read from its `values`."""
    return {k: num(v) for k, v in wc.values.items()}


def exc_name(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


# ------------------------------------------------------------------ driver
_CASES = None
_MOD = None


CASE_LIMIT = 200


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout('case not finished within %d s' % CASE_LIMIT)


def _work(rng):
    res = []
    for i in range(*rng):
        case = _CASES[i]
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
            try:
                r = _MOD.run(case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Exception as e:
            r = Result()
            r.calls = 1
            r.outcome = 'timeout' if isinstance(e, Timeout) else 'exception'
            r.fail('unexpected exception:\n' + traceback.format_exc()[-1800:])
        res.append((i, r.calls, r.states, r.problems, r.outcome))
        if r.outcome == 'timeout':
            break               # decided, do not wait for the others
    return res


# after the first violating case the exploration goes on this long at most
GRACE = float(os.environ.get('MC_GRACE', '45'))
STALL = 600


def jobs():
    return max(1, min(8, os.cpu_count() or 1))


def main(pid, tier, replay=None):
    global _CASES, _MOD
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    logging.getLogger().addHandler(logging.NullHandler())
    sys.path.insert(0, HERE)
    mod = _MOD = importlib.import_module('checks.' + pid.lower())
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    if replay:
        with open(replay) as f:
            _CASES = [json.load(f)['case']]
    else:
        _CASES = list(mod.cases(tier))
    n = len(_CASES)
    per = getattr(mod, 'CHUNK', None) or max(1, min(64, n // (jobs() * 8) or 1))
    ranges = [(i, min(i + per, n)) for i in range(0, n, per)]
    out = []
    stopped = False
    if n and jobs() > 1 and not getattr(mod, 'SERIAL', False) and not replay:
        ctx = multiprocessing.get_context('fork')
        left = dict.fromkeys(ranges)
        try:
            with ProcessPoolExecutor(jobs(), mp_context=ctx) as pool:
                fut = {pool.submit(_work, r): r for r in ranges}
                first = None
                todo = set(fut)
                while todo:
                    done, todo = wait(todo, timeout=STALL if first is None else GRACE,
                                      return_when=FIRST_COMPLETED)
                    for f in done:
                        res = f.result()
                        out += res
                        del left[fut[f]]
                        if first is None and any(x[3] for x in res):
                            first = time.time()
                    if not done and first is None:
                        out.append((min(left)[0], 1, set(), ['no progress for %d s' % STALL], 'stall'))
                        first = 0
                    if todo and first is not None and time.time() - first >= GRACE:
                        # decided; the rest of the exploration adds nothing
                        stopped = True
                        for q in list(pool._processes.values()):
                            q.kill()
                        pool.shutdown(wait=False, cancel_futures=True)
                        break
        except BrokenProcessPool:
            if stopped:
                left = {}
            # some case terminated its process: find out which one
            for r in left:
                for i in range(*r):
                    try:
                        with ProcessPoolExecutor(1, mp_context=ctx) as pool:
                            out += pool.submit(_work, (i, i + 1)).result()
                    except BrokenProcessPool:
                        out.append((i, 1, set(), ['the process running the '
                                    'case was terminated'], 'killed'))
    else:
        for r in ranges:
            out += _work(r)
    out.sort(key=lambda x: x[0])
    states = set()
    calls = 0
    outcomes = {}
    bad = []
    for i, c, st, pr, oc in out:
        states |= st
        calls += c
        outcomes[oc] = outcomes.get(oc, 0) + 1
        if pr:
            bad.append((i, pr))
    known = known_findings(pid)
    viol = []
    for i, pr in bad:
        h = hash_obj(_CASES[i])
        if h in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[h]))
        else:
            viol.append((i, pr))
    step = max(1, n // 5)
    kinds = {}
    for c in _CASES:
        k = c[0] if isinstance(c, (list, tuple)) and c else 'case'
        kinds[str(k)] = kinds.get(str(k), 0) + 1
    ev = {
        'property': pid, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': calls,
            'traces_validated_against_impl': len(out),
            'exhaustive': not stopped,
            'bounds': getattr(mod, 'BOUNDS', {}).get(tier, '')
            if isinstance(getattr(mod, 'BOUNDS', ''), dict)
            else getattr(mod, 'BOUNDS', ''),
            'cases_by_kind': kinds, 'outcomes': outcomes,
            'samples': [_short(_CASES[i]) for i in range(0, n, step)][:6],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    if hasattr(mod, 'extra_evidence'):
        ev['coverage'].update(mod.extra_evidence(out))
    if not replay:
        tmp = os.path.join(EVID, pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, pid + '.json'))
    # vacuity control: a check that explored nothing is an error
    if not n or not states or not calls:
        viol.append((0, ['harness: nothing explored (cases=%d states=%d '
                         'calls=%d)' % (n, len(states), calls)]))
    for j, (i, pr) in enumerate(viol[:5]):
        if replay:
            path = replay
        else:
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, j))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier,
                           'case': _CASES[i] if n else None,
                           'problems': pr,
                           'cmd': 'bash check.sh %s %s --replay %s'
                                  % (pid, tier, path)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        for p in pr[:3]:
            print('   ' + p.replace('\n', '\n   '))
    print('%s %s: %d cases, %d model states, %d implementation calls, '
          '%d violation(s), %.1f s' % (pid, tier, n, len(states), calls,
                                       len(viol), time.time() - t0))
    return 1 if viol else 0


def _short(c):
    s = json.dumps(c)
    return c if len(s) < 600 else s[:600] + '...'


def known_findings(pid):
    """{hash of case: description} of the findings recorded in
    known_findings.txt (lines `property=<id> case=<hash> <text>`)."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('property=%s ' % pid):
                    parts = l.split(' ', 2)
                    out[parts[1].split('=', 1)[1]] = parts[2]
    return out


class registries:
    """Context manager: run with the given (default: empty) EFT and basis
    registries; everything is restored afterwards."""

    def __init__(self, wcxf, empty=('EFT', 'Basis')):
        self.w, self.empty = wcxf, empty

    def __enter__(self):
        from collections import OrderedDict
        self.saved = {}
        for n in ('EFT', 'Basis', 'Translator', 'Matcher'):
            cls = getattr(self.w, n)
            self.saved[n] = ('instances' in cls.__dict__, cls.__dict__.get('instances'))
            inst = OrderedDict()
            if n not in self.empty and self.saved[n][1] is not None:
                inst.update(self.saved[n][1])
            cls.instances = inst
        return self

    def __exit__(self, *a):
        for n, (had, inst) in self.saved.items():
            cls = getattr(self.w, n)
            if had:
                cls.instances = inst
            elif 'instances' in cls.__dict__:
                del cls.instances
        return False
