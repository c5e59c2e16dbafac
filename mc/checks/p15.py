import copy
import os
import shutil
import signal
import tempfile
from itertools import product, combinations
import conv
import core
BEH = {
    'absent': None,
    'ok': ('log:This is fine', 0), 'oknolog': ('', 0), 'okweird': ('log:! Undefined control sequence.\nl.3 \\foo\n\n', 0),
    'okbytes': ('bytes', 0), 'okfiles': ('files', 0),
    'undef': ('log:x\n! Undefined control sequence.\nl.3 \\foo\n\nrest', 1), 'emerg': ('log:! Emergency stop.', 1),
    'other': ('log:! Missing $ inserted.\n<inserted text>\n', 1), 'nolog': ('', 1), 'emptylog': ('log:', 1), 'failbytes': ('bytes', 1),
    'rc2': ('log:Undefined control sequence', 2), 'rc127': ('', 127), 'killed': ('', 'kill'), 'failfiles': ('files', 1),
    # LaTeX cannot be started, or validation is interrupted while it runs: nothing but the absence of files is demanded
    'noexec': ('', 'noexec'), 'interrupt': ('files', 'int'), 'hang': ('files', 'hang'), 'logdir': ('logdir', 1)}
LOOSE = ('noexec', 'interrupt', 'hang', 'logdir')
# parts of the log the error message has to contain
QUOTE = {'undef': ['Undefined control sequence', 'l.3 \\foo'], 'emerg': ['Emergency stop'], 'failbytes': ['Undefined control sequence', 'l.3 \\foo'],
         'rc2': ['Undefined control sequence']}
SUB = [list(s) for k in range(4) for s in combinations('abc', k)]
DEFS = [None, {}, {'tex': r'\bar q q'}, {'tex': '', 'real': True}, {'real': True}, {'tex': r'\mathcal{O}_{é}', 'real': False}, {'tex': 'x_1 $ % & #'}]
BOUNDS = 'all %d bases over 3 sectors (one unknown to the EFT) x subsets of 3 coefficients x %d LaTeX behaviours; all triples of 7 coefficient definitions x LaTeX behaviours; EFT undefined; bases of up to 3000 coefficients; reconstructed bases; inherited sectors' % (9 ** 3, len(BEH))
ASSUMPTIONS = ['LaTeX replaced by a stub executable that records its input and simulates each outcome; LaTeX accepts a document iff its exit status is zero']

STUB = '''#!/bin/sh
D=%(d)s
out=.
for a in "$@"; do
  case "$prev" in -output-directory|--output-directory) out="$a";; esac
  case "$a" in -output-directory=*|--output-directory=*) out="${a#*=}";; esac
  prev="$a"
done
if [ -f "$prev" ]; then /bin/cp "$prev" "$D/seen.tex"; else /bin/cat > "$D/seen.tex"; fi
b="${prev##*/}"; b="${b%%.*}"
if [ -f "$D/log" ]; then /bin/cp "$D/log" "$out/$b.log"; fi
if [ -f "$D/files" ]; then echo x > "$out/$b.aux"; echo x > "$out/$b.dvi"; /bin/mkdir -p "$out/sub"; echo x > "$out/sub/f"; echo ok > "$out/$b.log"; fi
rc=$(/bin/cat "$D/rc")
if [ -f "$D/logdir" ]; then /bin/mkdir "$out/$b.log"; fi
if [ "$rc" = kill ]; then kill -9 $$; fi
if [ "$rc" = int ]; then kill -INT %(pid)d; exec /bin/sleep 5; fi
if [ "$rc" = hang ]; then kill -USR1 %(pid)d; exec /bin/sleep 5; fi
exit $rc
'''


def setup(tier):
    conv.init()


def cases(tier):
    out = []
    opts = [None] + list(range(8))
    combos = [list(x) for x in product(opts, repeat=3)]
    for b in BEH:
        out += [['secs', b, c] for c in conv.chunks(combos, 81)]
        out.append(['noeft', b])
        tr = [list(x) for x in product(range(len(DEFS)), repeat=3)]
        if b not in ('absent', 'ok', 'undef') and tier == 'quick':
            tr = tr[::7]
        out += [['defs', b, c] for c in conv.chunks(tr, 50)]
        out.append(['child', b])
        out.append(['code', b])
        out.append(['chg', b])
        if b in ('absent', 'ok', 'undef', 'failbytes'):
            out += [['big', b, n] for n in (50, 99, 100, 101, 500, 1000, 1001, 3000)]
    for e, bb in sorted({x for c in conv.ALL for x in (conv.source(c), conv.target(c))}):
        for b in ('absent', 'ok', 'undef'):
            out.append(['real', b, e, bb])
    return out


class Timeout(Exception):
    pass


def raising(sig, frame):
    raise KeyboardInterrupt if sig == signal.SIGINT else Timeout


class Env:
    def __init__(self, beh):
        self.beh = beh

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p15_')
        self.bin, self.tmp, self.cwd, self.ctl = [os.path.join(self.d, x) for x in ('bin', 'tmp', 'cwd', 'ctl')]
        for x in (self.bin, self.tmp, self.cwd, self.ctl):
            os.mkdir(x)
        b = BEH[self.beh]
        if b is not None:
            p = os.path.join(self.bin, 'latex')
            with open(p, 'w') as f:
                f.write(STUB % {'d': self.ctl, 'pid': os.getpid()})
            os.chmod(p, 0o644 if self.beh == 'noexec' else 0o755)
            with open(os.path.join(self.ctl, 'rc'), 'w') as f:
                f.write(str(b[1]))
            if b[0].startswith('log:'):
                with open(os.path.join(self.ctl, 'log'), 'w') as f:
                    f.write(b[0][4:])
            elif b[0] == 'bytes':
                with open(os.path.join(self.ctl, 'log'), 'wb') as f:
                    f.write(b'caf\xe9 \xff\xfe\n! Undefined control sequence.\nl.3 \\foo\xe9\n\n')
            elif b[0] in ('files', 'logdir'):
                with open(os.path.join(self.ctl, b[0]), 'w') as f:
                    f.write('x')
        self.old = os.environ.get('PATH'), os.environ.get('TMPDIR'), tempfile.tempdir, os.getcwd()
        os.environ['PATH'], os.environ['TMPDIR'] = self.bin, self.tmp
        tempfile.tempdir = None
        os.chdir(self.cwd)
        self.sig = []
        if self.beh in ('interrupt', 'hang'):
            self.sig = [(x, signal.signal(x, raising)) for x in (signal.SIGINT, signal.SIGUSR1)]
        return self

    def __exit__(self, *a):
        for x, h in self.sig:
            signal.signal(x, h)
        os.chdir(self.old[3])
        os.environ['PATH'] = self.old[0]
        if self.old[1] is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = self.old[1]
        tempfile.tempdir = self.old[2]
        shutil.rmtree(self.d)
        return False

    def clean(self, r, what):
        left = os.listdir(self.tmp) + os.listdir(self.cwd)
        if left:
            r.fail('%s: files left behind: %s' % (what, left))
            for x in (self.tmp, self.cwd):
                for y in os.listdir(x):
                    p = os.path.join(x, y)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

    def seen(self):
        p = os.path.join(self.ctl, 'seen.tex')
        if not os.path.exists(p):
            return None
        with open(p, encoding='utf-8') as f:
            s = f.read()
        os.unlink(p)
        return s


def refused(r, env, x, wellformed, what):
    if isinstance(x, UnicodeError) or not isinstance(x, ValueError):
        r.fail('%s: raised %s' % (what, core.exc_name(x)))
        return
    for t in QUOTE.get(env.beh, ()) if wellformed else ():
        if t not in str(x):
            r.fail('%s: error message does not quote the LaTeX error %r: %s' % (what, t, str(x)[:300]))


def judge(r, env, b, wellformed, what):
    beh = BEH[env.beh]
    exp = wellformed and (beh is None or beh[1] == 0)
    before = copy.deepcopy({k: v for k, v in b.__dict__.items() if k[0] != '_'})
    env.seen()
    r.calls += 1
    what = '%s, latex %s' % (what, env.beh)
    loose = wellformed and env.beh in LOOSE
    try:
        b.validate()
        got = True
    except (Exception, KeyboardInterrupt) as x:
        if not loose:
            refused(r, env, x, wellformed, what)
        got = exp if not isinstance(x, ValueError) or isinstance(x, UnicodeError) else False
    r.outcome = 'accepted' if got else 'rejected'
    if got != exp and not loose:
        r.fail('%s: %s' % (what, 'accepted' if got else 'rejected'))
    env.clean(r, what)
    if {k: v for k, v in b.__dict__.items() if k[0] != '_'} != before:
        r.fail('%s: basis modified' % what)
    if wellformed and beh is not None and not loose:
        doc = env.seen()
        if doc is None:
            r.fail('%s: LaTeX not run' % what)
        else:
            for s in b.sectors.values():
                for n, d in s.items():
                    t = (d or {}).get('tex', '')
                    if t and t not in doc:
                        r.fail('%s: TeX code of %s not passed to LaTeX' % (what, n))
            if '\\begin{document}' not in doc or '\\end{document}' not in doc:
                r.fail('%s: not a LaTeX document' % what)
    r.state([env.beh, exp, repr(before.get('sectors'))[:3000]])


def run(case):
    conv.init()
    W = conv.W
    r = core.Result()
    k = case[0]
    with core.registries(W, () if k == 'real' else ('EFT', 'Basis')), Env(case[1]) as env:
        if k == 'secs':
            W.EFT('E', {'s1': {}, 's2': None})
            for i, cmb in enumerate(case[2]):
                secs = {}
                for j, (s, o) in enumerate(zip(('s1', 's2', 's3'), cmb)):
                    if o is not None:
                        secs[s] = {n: copy.deepcopy(DEFS[(i + j + q) % 5]) for q, n in enumerate(SUB[o])}
                names = [n for s in secs.values() for n in s]
                ok = 's3' not in secs and len(names) == len(set(names))
                judge(r, env, W.Basis('E', 'B', secs), ok, 'basis %s' % secs)
        elif k == 'noeft':
            for have in ([], ['F'], ['e', 'E ']):
                for e in have:
                    W.EFT(e, {'s1': {}})
                for secs in ({}, {'s1': {'a': None}}):
                    judge(r, env, W.Basis('E', 'B', secs), False, 'EFT undefined')
            core.never(W.EFT)
            judge(r, env, W.Basis('E', 'B', {}), False, 'no EFT ever defined')
            W.EFT.instances = {}
        elif k == 'defs':
            W.EFT('E', {'s1': {}, 's2': {}})
            for a, b, c in case[2]:
                judge(r, env, W.Basis('E', 'B', {'s1': {'a': DEFS[a], 'b': DEFS[b]}, 's2': {'c': DEFS[c]}}), True, 'definitions %s %s %s' % (a, b, c))
        elif k == 'code':
            # TeX code which cannot be written to a file
            W.EFT('E', {'s1': {}})
            for t in ('\ud800', 'x\udcff', '\udc80' * 3):
                try:
                    r.calls += 1
                    W.Basis('E', 'B', {'s1': {'a': {'tex': t}}}).validate()
                except Exception:
                    pass
                env.clean(r, 'TeX code %r, latex %s' % (t, env.beh))
        elif k == 'child':
            W.EFT('E', {'s1': {}, 's2': {}})
            W.Basis('E', 'P', {'s1': {'a': {'tex': 'TEXA'}, 'b': None}})
            judge(r, env, W.Basis('E', 'C1', {'s2': {'c': {'tex': 'TEXC'}}}, parent='P'), True, 'child')
            judge(r, env, W.Basis('E', 'C2', {'s2': {'a': {'tex': 'TEXC'}}}, parent='P'), False, 'child with coefficient of parent')
            judge(r, env, W.Basis('E', 'C3', {'s1': {'a': {'tex': 'OTHER'}}}, parent='P'), True, 'child replacing sector')
            judge(r, env, W.Basis('E', 'C4', {'s3': {}}, parent='P'), False, 'child with unknown sector')
            judge(r, env, W.Basis['E', 'P'], True, 'parent')
        elif k == 'big':
            n = case[2]
            W.EFT('E', {'s%d' % i: {} for i in range(10)})
            secs = {'s%d' % i: {'c%d' % j: {'tex': 'T%dT' % j, 'real': j % 2 == 0} for j in range(i, n, 10)} for i in range(10)}
            judge(r, env, W.Basis('E', 'B', secs), True, 'basis with %d coefficients' % n)
            for a, b in ((0, n - 1), (n - 1, 0), (n // 2, n - 2)):
                if a % 10 == b % 10:
                    b = b - 1 if b else 1
                s2 = copy.deepcopy(secs)
                s2['s%d' % (a % 10)]['c%d' % b] = None      # once more in another sector
                judge(r, env, W.Basis('E', 'B', s2), False, 'basis with %d coefficients, c%d twice' % (n, b))
            long = {'s0': {'c': {'tex': 'x' * (7 * n) + 'END'}, 'd': {'tex': 'DTEX'}}}
            judge(r, env, W.Basis('E', 'B', long), True, 'TeX code with %d characters' % (7 * n))
            one = {'s0': {'c%d' % j: {'tex': 'T%dT' % j} for j in range(n)}}
            judge(r, env, W.Basis('E', 'B', one), True, 'sector with %d coefficients' % n)
        elif k == 'chg':
            # the EFT is redefined between two validations of the same object
            W.EFT('E', {'s1': {}, 's2': {}})
            b = W.Basis('E', 'B', {'s1': {'a': None}, 's2': {'b': None}})
            judge(r, env, b, True, 'before redefinition')
            W.EFT('E', {'s1': {}})
            judge(r, env, b, False, 'after removing a sector from the EFT')
            W.EFT('E', {'s2': {}, 's1': {}, 's9': {}})
            judge(r, env, b, True, 'after adding the sector again')
            del W.EFT['E']
            judge(r, env, b, False, 'after deleting the EFT')
        else:
            judge(r, env, W.Basis[case[2], case[3]], True, 'basis %s %s' % (case[2], case[3]))
    return r
