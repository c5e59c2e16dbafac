"""Output faults: every command is executed with the medium of its output
failing after n bytes, for every n up to the length of the output (file size
limit of the executing process), with a full device and with a closed pipe;
and with its JSON input cut off after every byte.  A command that exits with
status zero must have written its complete result."""
import gc
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import yaml
import clirun
import conv
import core
from checks import p19

FK = ('WET', 'FlavorKit', 'JMS')
EFTDOC = {'eft': 'XE', 'sectors': {'s1': {'dB': 0}}}
# name -> (entry point, arguments, document, routes)
CMD = {
    'convert-yaml': ('wcxf_cli', ['convert', 'yaml'], {'a': [1, 2.5, None], 'b': {'c': 'x y', 'd': True}}),
    'convert-json': ('wcxf_cli', ['convert', 'json'], {'a': [1, 2.5, None], 'b': {'c': 'x y', 'd': True}}),
    'match': ('wcxf_cli', ['match', 'WET-2', 'JMS'], {'eft': 'WET-3', 'basis': 'JMS', 'scale': 2, 'values': {'egamma_11': 1, 'egamma_12': {'Re': 1, 'Im': 2}}}),
    'match-yaml': ('wcxf_cli', ['match', 'WET-2', 'JMS', '--format', 'yaml'], {'eft': 'WET-3', 'basis': 'JMS', 'scale': 2, 'values': {'egamma_11': 1, 'egamma_12': {'Re': 1, 'Im': 2}}}),
    'translate': ('wcxf_cli', ['translate', 'flavio'], {'eft': 'WET', 'basis': 'Bern', 'scale': 4.2, 'values': 'BERN'}),
    'translate-yaml': ('wcxf_cli', ['translate', 'flavio', '--format', 'yaml'], {'eft': 'WET', 'basis': 'Bern', 'scale': 4.2, 'values': 'BERN'}),
    'translate-empty': ('wcxf_cli', ['translate', 'flavio'], {'eft': 'WET', 'basis': 'Bern', 'scale': 4.2, 'values': {}}),
    'big': ('wcxf_cli', ['translate', 'Warsaw up'], {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 1000, 'values': 'BIG'}),
    'big-yaml': ('wcxf_cli', ['translate', 'Warsaw up', '--format', 'yaml'], {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 1000, 'values': 'BIG'}),
    'convert-big': ('wcxf_cli', ['convert', 'json'], {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 1000, 'values': 'BIG'}),
    'convert-big-yaml': ('wcxf_cli', ['convert', 'yaml'], {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 1000, 'values': 'BIG'}),
    'validate': ('wcxf_cli', ['validate', 'eft'], EFTDOC),
    'validate-wc': ('wcxf_cli', ['validate', 'wc'], {'eft': 'WET', 'basis': 'JMS', 'scale': 4.2, 'values': {'egamma_11': 1}}),
    'eos': ('eos', [], {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2, 'values': {'b->s::c1': 0.5, 'b->s::c7': {'Re': 0.25, 'Im': -0.5}}}),
    'smeftsim-A': ('smeftsim', ['--model-set', 'A'], {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000, 'values': {'G': 1e-6, 'uphi_11': {'Re': 1e-7, 'Im': 2e-7}}}),
    'smeftsim-B': ('smeftsim', ['--model-set', 'B', '--input-scheme', 'mw'], {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000, 'values': {'G': 1e-6, 'uphi_11': {'Re': 1e-7, 'Im': 2e-7}}}),
}
SMALL = [c for c in CMD if 'big' not in c and c not in ('eos', 'smeftsim-A', 'smeftsim-B')]
BOUNDS = {'quick': '%d command lines x output routes (standard output, --output, --output without name, --eoshome): output failing after n bytes for every n (every 1511th and all near multiples of 8192 for outputs above 2 kB), full device, closed pipe, output file with older (longer, shorter, similar, empty) content; JSON input cut off after every byte' % len(CMD),
          'thorough': 'as quick with every n for all outputs'}
ASSUMPTIONS = ['a failing medium is represented by the file size limit of the process (EFBIG after n bytes), /dev/full (ENOSPC) and a pipe without reader (EPIPE)',
               'commands are run in forked children of a process that has imported the package; a violation is reported only if a process started from scratch shows it as well']


def routes(name):
    f = CMD[name][0]
    if name.startswith('validate'):
        return ['stdout']
    if f == 'eos':
        return ['stdout', 'output', 'home']
    if f == 'smeftsim':
        return ['output', 'default']
    return ['stdout', 'output', 'noname']


def setup(tier):
    conv.init()


def document(name):
    d = json.loads(json.dumps(CMD[name][2]))
    if d.get('values') == 'BERN':
        nm = core.names('WET', 'Bern')
        d['values'] = core.dense(nm[::len(nm) // 6], 'o')
    elif d.get('values') == 'BIG':
        d['values'] = core.dense(core.names('SMEFT', 'Warsaw')[::9], 'o')
    return d


def points(n, tier):
    if tier == 'thorough' or n <= 2048:
        return list(range(n + 1))
    p = set(range(0, n, 1511)) | {n - 2, n - 1, n}
    for k in range(0, n + 8192, 8192):
        p |= {k - 1, k, k + 1}
    return sorted(x for x in p if 0 <= x <= n)


def cases(tier):
    out = []
    for name in CMD:
        for route in routes(name):
            d = tempfile.mkdtemp()
            try:
                x = execute(d, name, route, None)
            finally:
                shutil.rmtree(d)
            n = len(x[1]) if x[1] is not None else 0
            out.append(['base', name, route])
            for c in conv.chunks(points(n, tier), 40):
                out.append(['limit', name, route, c])
            if route in ('stdout', 'output', 'noname'):
                out.append(['full', name, route])
            if route in ('output', 'home', 'default'):
                out.append(['old', name, route])
            if route in ('stdout', 'noname'):
                out.append(['pipe', name, route])
    for name in CMD:
        if name not in ('big', 'big-yaml', 'convert-big', 'convert-big-yaml'):
            t = json.dumps(document(name))
            # an empty document is valid YAML
            for c in conv.chunks(list(range(name == 'convert-json', len(t))), 60):
                out.append(['cut', name, c])
    return out


def prepare(d, name, text=None):
    with open(os.path.join(d, 'in.json'), 'w') as f:
        f.write(json.dumps(document(name)) if text is None else text)
    os.makedirs(os.path.join(d, 'home', 'parameters'))
    if CMD[name][0] == 'eos':
        p19.install(d, p19.syn())


def arguments(d, name, route, target=None):
    func, args, _ = CMD[name]
    fin = os.path.join(d, 'in.json')
    opts = args[next((i for i, a in enumerate(args) if a[:2] == '--'), len(args)):]
    out = target or os.path.join(d, 'out')
    argv = {'wcxf_cli': ['wcxf'], 'eos': ['wcxf2eos', '--eosprefix', d], 'smeftsim': ['wcxf2smeftsim']}[func] + args[:len(args) - len(opts)] + [fin] + opts
    if route == 'output':
        argv += ['--output', out]
    elif route == 'noname':
        argv += ['--output']
    elif route == 'home':
        argv += ['--eoshome', os.path.join(d, 'home')]
        out = os.path.join(d, 'home', 'parameters', 'wcxf.yaml')
    elif route == 'default':
        out = os.path.join(d, 'wcxf2smeftsim_param_card.dat')
    if route in ('stdout', 'noname'):
        out = target or os.path.join(d, 'stdout')
    return argv, out


def forked(d, func, argv, limit, stdout):
    """exit status of the command in a forked child; `stdout`: path or fd"""
    sys.stdout.flush()
    pid = os.fork()
    if pid:
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    rc = 70
    try:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        fd = stdout if isinstance(stdout, int) else os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(fd, 1)
        os.dup2(null, 2)
        os.chdir(d)
        sys.stdin = open(0, closefd=False)
        sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
        sys.stderr = open(2, 'w', closefd=False)
        sys.argv = argv
        from wcxf import cli
        sys.dont_write_bytecode = True
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            ret = getattr(cli, func)()
            rc = 0 if ret is None else ret & 0xff if isinstance(ret, int) else 1
            ret = None
        except SystemExit as e:
            rc = 0 if e.code is None else e.code & 0xff if isinstance(e.code, int) else 1
        except BaseException:
            rc = 1
        gc.collect()
        # end of the interpreter
        try:
            if not sys.stdout.closed:
                sys.stdout.flush()
        except OSError:
            rc = rc or 120
    finally:
        os._exit(rc)


LAUNCH = '''
import sys, json, os, signal, resource
sys.path.insert(0, %(repo)r)
import wcxf
defs = json.load(open(%(defs)r))
for e in defs[0]: wcxf.EFT(**e)
for b in defs[1]: wcxf.Basis(**b)
from wcxf.cli import %(func)s as f
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
os.chdir(%(d)r)
sys.argv = %(argv)r
if %(limit)r is not None:
    resource.setrlimit(resource.RLIMIT_FSIZE, (%(limit)r, %(limit)r))
sys.exit(f())
'''


def real(d, func, argv, limit, stdout):
    """the same in a process started from scratch"""
    import subprocess
    with open(os.path.join(d, 'defs'), 'w') as f:
        json.dump(core.definitions(), f)
    with open(os.path.join(d, 'launch.py'), 'w') as f:
        f.write(LAUNCH % {'repo': core.REPO, 'defs': os.path.join(d, 'defs'), 'func': func, 'd': d, 'argv': argv, 'limit': limit})
    fd = stdout if isinstance(stdout, int) else os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    env = dict(clirun.CLEAN)
    env.pop('PYTHONUNBUFFERED', None)
    try:
        return subprocess.run([sys.executable, '-W', 'ignore', os.path.join(d, 'launch.py')], stdin=subprocess.DEVNULL, stdout=fd,
                              stderr=subprocess.DEVNULL, env=env, timeout=120).returncode
    finally:
        if not isinstance(stdout, int):
            os.close(fd)


def execute(d, name, route, limit, how=forked, target=None, stdout=None, text=None, old=None):
    """(exit status, bytes written or None)"""
    d = tempfile.mkdtemp(dir=d)
    prepare(d, name, text)
    argv, out = arguments(d, name, route, target)
    so = stdout if stdout is not None else target if target and route in ('stdout', 'noname') else os.path.join(d, 'stdout')
    if old is not None:
        with open(out, 'wb') as f:
            f.write(old)
    rc = how(d, CMD[name][0], argv, limit, so)
    got = None
    if not target and stdout is None and os.path.exists(out):
        with open(out, 'rb') as f:
            got = f.read()
    shutil.rmtree(d)
    return rc, got


def both(d, judge, *a, **k):
    """judge both ways of execution; a problem must show in a real process"""
    p = judge(*execute(d, *a, **k))
    if p:
        k['how'] = real
        p = judge(*execute(d, *a, **k))
    return p


def same(a, b):
    return a is not None and b is not None and (a == b or content(a) == content(b) != None)


def content(x):
    try:
        return yaml.load(x.decode(), Loader=yaml.CSafeLoader if hasattr(yaml, 'CSafeLoader') else yaml.SafeLoader)
    except Exception:
        return None


def run(case):
    conv.init()
    r = core.Result()
    k, name = case[:2]
    r.outcome = '%s:%s' % (k, name)
    d = tempfile.mkdtemp()
    try:
        if k == 'cut':
            t = json.dumps(document(name))
            for n in case[2]:
                def judge(rc, got):
                    if rc == 0:
                        return 'exits with 0'
                p = both(d, judge, name, routes(name)[0], None, text=t[:n])
                r.calls += 1
                r.state([name, 'cut', n])
                if p:
                    r.fail('%s with input %r: %s' % (name, t[:n], p))
            return r
        route = case[2]
        rc, full = execute(d, name, route, None)
        r.calls += 1
        if k == 'base':
            r.state(case)
            for how in (forked, real):
                rc, got = execute(d, name, route, None, how=how)
                r.calls += 1
                if rc != 0 or not got:
                    r.fail('%s (%s): exit %s, output %r' % (name, route, rc, got and got[:100]))
                elif not same(got, full):
                    r.fail('%s (%s): output differs between runs' % (name, route))
        elif k == 'limit':
            for n in case[3]:
                def judge(rc, got):
                    if rc == 0 and not same(got, full):
                        return 'exit status 0, but %d of %d bytes written' % (len(got or b''), len(full))
                    if rc != 0 and n >= len(full):
                        return 'exit status %s' % rc
                p = both(d, judge, name, route, n)
                r.calls += 1
                r.state([name, route, n])
                if p:
                    r.fail('%s (%s), output failing after %d bytes: %s' % (name, route, n, p))
        elif k == 'old':
            for old in (full + b'x: y\n', full * 2, full[:-1] + b'zz', full[:len(full) // 2], b'o' * 20000, b'\n', b''):
                for n in (None, len(full) // 2):
                    def judge(rc, got):
                        if rc == 0 and got != full and not same(got, full):
                            return 'exit status 0, but %d of %d bytes in the file' % (len(got or b''), len(full))
                        if rc != 0 and n is None:
                            return 'exit status %s' % rc
                    p = both(d, judge, name, route, n, old=old)
                    r.calls += 1
                    r.state([name, route, n, len(old)])
                    if p:
                        r.fail('%s (%s), file with %d bytes existing: %s' % (name, route, len(old), p))
        elif k == 'full':
            p = both(d, lambda rc, got: 'exit status 0' if rc == 0 and full else None, name, route, None, target='/dev/full')
            r.calls += 1
            r.state(case)
            if p:
                r.fail('%s (%s) on full device: %s' % (name, route, p))
        else:
            for how in (forked, real):
                a, b = os.pipe()
                os.close(a)
                try:
                    rc, got = execute(d, name, route, None, how=how, stdout=b)
                finally:
                    os.close(b)
                r.calls += 1
                if rc != 0:
                    break
            r.state(case)
            if rc == 0 and full:
                r.fail('%s (%s) into a closed pipe: exit status 0' % (name, route))
    finally:
        shutil.rmtree(d)
    return r
