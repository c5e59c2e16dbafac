"""Environment.  The outcome of a call must not depend on the process it is
made in.  For each environment configuration a new Python process runs cases
of the other checks (judged by their reference models) and calls whose full
result must be the one obtained in the reference configuration."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import conv
import core

ASSUMPTIONS = ['the environment is varied one dimension at a time and in the pairs listed; files are read and written by the caller in UTF-8']
SEEDS = {'quick': 12, 'thorough': 128}
BOUNDS = {t: 'hash seeds 0 to %d and random; -O, -OO, -X dev, isolated mode; C locale with ASCII encoding; working directories that are empty, that contain files named like those of the package, or that have been deleted; time zone; no HOME and no PATH; NumPy set to raise floating-point errors; unbuffered and absent standard streams. Each with all converters (dense files, all operator groups; matching: every fourth), the calls of P27 and cases of each kind of 14 other checks' % (n - 1) for t, n in SEEDS.items()}
CHUNK = 1
PARTS = 4
FROM = ['p06', 'p09', 'p11', 'p12', 'p13', 'p14', 'p16', 'p17', 'p18', 'p19', 'p20', 'p21', 'p22', 'p23']
# cases not run: their harness needs other characters, or a working directory
NOT = {'ASCII locale': ('p12', 'p13', 'p22'), 'deleted working directory': ('p12', 'p13', 'p19', 'p20', 'p22')}
SKIP = ('proc', 'process', 'procval', 'procbad', 'opt', 'help', 'prompt')
NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def setup(tier):
    conv.init()


# configuration: [name, python options, environment (None: unset), working directory, options of the child]
def configs(tier):
    out = [['hash seed %d' % i, [], {'PYTHONHASHSEED': str(i)}, 'empty', {}] for i in range(SEEDS[tier])]
    out += [['random hash seed', [], {'PYTHONHASHSEED': 'random'}, 'empty', {}],
            ['-O', ['-O'], {}, 'empty', {}], ['-OO', ['-OO'], {}, 'decoy', {}], ['-X dev', ['-X', 'dev'], {}, 'empty', {}],
            ['isolated', ['-I'], {}, 'empty', {}],
            ['ASCII locale', [], {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, 'empty', {}],
            ['POSIX locale', [], {'LC_ALL': 'POSIX', 'LANG': None}, 'empty', {}],
            ['no locale', [], {'LC_ALL': None, 'LANG': None, 'LC_CTYPE': None}, 'empty', {}],
            ['time zone', [], {'TZ': 'Asia/Kolkata'}, 'decoy', {}],
            ['no HOME, no PATH', [], {'HOME': None, 'PATH': '', 'USER': None}, 'empty', {}],
            ['other working directory', [], {}, 'decoy', {}],
            ['deleted working directory', [], {}, 'gone', {}],
            ['floating-point errors raised', [], {}, 'empty', {'seterr': True}],
            ['unbuffered', ['-u'], {'PYTHONUNBUFFERED': '1'}, 'empty', {}]]
    return out


_ITEMS = None


def pick(mod, tier):
    """first and last case of each kind"""
    m = importlib.import_module('checks.' + mod)
    if hasattr(m, 'setup'):
        m.setup('quick')
    kinds = {}
    for c in m.cases('quick'):
        kinds.setdefault(c[0], []).append(c)
    out = []
    for k, l in kinds.items():
        if k not in SKIP:
            out += [['case', mod, l[i]] for i in sorted({0, len(l) - 1})]
    return out


def items():
    global _ITEMS
    if _ITEMS is None:
        import checks.p27 as p27
        l = []
        for c in conv.ALL:
            l += [['value', ['dense', list(c), 'a', 91.1876, 1.]], ['value', ['dense', list(c), 'b', 4.8, 1.]]]
            gs = list(conv.groups(c))
            if c in conv.SM_M:
                gs = gs[::4] if c[4] == 'JMS' else gs[::20]
            l += [['value', ['group', list(c), g, 91.1876]] for g in gs]
        for m in FROM:
            l += pick(m, 'quick')
        for n in list(p27.CONV) + p27.OTHER:
            if n not in ('latex', 'eosdir'):
                l += [['call', n, v] for v in (0, 1)]
        _ITEMS = l
    return _ITEMS


def cases(tier):
    items()
    return [[c, p] for c in configs(tier) for p in range(PARTS)]


DECOYS = ['data/eos_btos.yaml', 'data/eos_btou.yaml', 'data/flavorkit_jms.json', 'data/flavorkit_jms_conj.json', 'wcxf/data/flavorkit_jms.json',
          'wcxf/data/eos_btos.yaml', 'wcxf/bases/WET.eft.yml', 'bases/WET.eft.json', 'bases/child/WET.x.basis.json', 'eos_btos.yaml', 'flavorkit_jms.json',
          'flavorkit_jms_conj.json', 'param_card.dat', 'parameters.yaml']


def child(conf, part):
    name, opts, env, cwd, extra = conf
    d = tempfile.mkdtemp(prefix='p29_')
    try:
        work, tmp = os.path.join(d, 'cwd'), os.path.join(d, 'tmp')
        os.mkdir(work)
        os.mkdir(tmp)
        if cwd == 'decoy':
            for x in DECOYS:
                os.makedirs(os.path.dirname(os.path.join(work, x)), exist_ok=True)
                with open(os.path.join(work, x), 'w') as f:
                    f.write('{"decoy": 1}\n')
        e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', TMPDIR=tmp, LC_ALL='C.UTF-8', OPENBLAS_NUM_THREADS='1')
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        out = os.path.join(d, 'out.json')
        cmd = [sys.executable, '-W', 'ignore'] + opts + [os.path.join(core.HERE, 'envrun.py'), out]
        its = [it for i, it in enumerate(items()) if i % PARTS == part]
        its = [it for it in its if it[1] not in NOT.get(name, ())]
        if cwd == 'gone':
            cmd = ['/bin/sh', '-c', 'rmdir "$0" && exec "$@"', work] + cmd
        p = subprocess.run(cmd, input=json.dumps(dict(extra, items=its)).encode(), env=e, cwd=work, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=core.CASE_LIMIT)
        left = os.listdir(work) if os.path.isdir(work) and cwd != 'decoy' else []
        if not os.path.exists(out):
            return its, None, 'exit status %d\n%s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:]), left
        with open(out, encoding='utf-8') as f:
            return its, json.load(f), None, left
    finally:
        shutil.rmtree(d)


_BASE = {}


def base(part):
    """results of the calls in this process"""
    if part not in _BASE:
        import checks.p27 as p27
        conv.init()
        _BASE[part] = {tuple(it): json.loads(json.dumps(p27.outcome(p27.call(it[1], it[2], None)))) for i, it in enumerate(items())
                       if i % PARTS == part and it[0] == 'call'}
    return _BASE[part]


def close(a, b):
    """equal up to rounding of the numbers in the text"""
    if a == b:
        return True
    ta, tb = json.dumps(a), json.dumps(b)
    na, nb = NUM.findall(ta), NUM.findall(tb)
    if NUM.sub('#', ta) != NUM.sub('#', tb) or len(na) != len(nb):
        return False
    m = max([abs(float(x)) for x in na] or [0])
    return all(abs(float(x) - float(y)) <= 1e-7 * abs(float(y)) + 1e-13 * m for x, y in zip(na, nb))


def run(case):
    conf, part = case
    conv.init()
    r = core.Result()
    r.outcome = conf[0] if not conf[0].startswith('hash') else 'hash seed'
    its, res, err, left = child(conf, part)
    if err:
        r.calls += 1
        r.fail('%s: %s' % (conf[0], err))
        return r
    if left:
        r.fail('%s: files left in the working directory: %s' % (conf[0], left))
    b = base(part)
    for it, (calls, states, probs, val) in zip(its, res):
        r.calls += calls
        r.states.update(states)
        for p in probs:
            r.fail('%s: %s: %s' % (conf[0], json.dumps(it)[:150], p))
        if it[0] == 'call':
            r.state([it, val])
            if not close(val, b[tuple(it)]):
                r.fail('%s: %s gives %s, otherwise %s' % (conf[0], it[1:], json.dumps(val)[:300], json.dumps(b[tuple(it)])[:300]))
    return r
