"""Run a console entry point in-process or as a real process."""
import contextlib
import gc
import io
import logging
import os
import subprocess
import sys
import tempfile
import traceback
import core

CLEAN = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', PYTHONWARNINGS='ignore')


class R:
    pass


def inproc(func, argv, stdin=''):
    """Emulates `sys.exit(func())` of the console script."""
    r = R()
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    h = logging.StreamHandler(err)
    logging.getLogger().addHandler(h)
    sys.argv, sys.stdin, sys.stdout, sys.stderr = list(argv), io.StringIO(stdin), out, err
    r.trace = ''
    try:
        ret = func()
        if ret is None:
            r.rc = 0
        elif isinstance(ret, int):
            r.rc = ret & 0xff
        else:
            err.write(str(ret))
            r.rc = 1
    except SystemExit as e:
        c = e.code
        r.rc = 0 if c is None else (c & 0xff if isinstance(c, int) else 1)
    except BaseException:
        r.rc = 1
        r.trace = traceback.format_exc()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        logging.getLogger().removeHandler(h)
    gc.collect(0)
    # --output streams may be closed by the entry point even if they are stdout
    try:
        r.out = out.getvalue()
    except ValueError:
        r.out = None
    try:
        r.err = err.getvalue()
    except ValueError:
        r.err = ''
    return r


LAUNCH = '''
import sys, json
sys.path.insert(0, %(repo)r)
import wcxf
for e in json.loads(%(efts)r): wcxf.EFT(**e)
for b in json.loads(%(bases)r): wcxf.Basis(**b)
from wcxf.cli import %(func)s as f
sys.argv = %(argv)r
sys.exit(f())
'''


def process(func, argv, stdin=b'', efts='[]', bases='[]', flags=()):
    r = R()
    code = LAUNCH % {'repo': core.REPO, 'efts': efts, 'bases': bases, 'func': func, 'argv': list(argv)}
    fd, name = tempfile.mkstemp('.py')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(code)
        p = subprocess.run([sys.executable, '-W', 'ignore'] + list(flags) + [name], input=stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=CLEAN, timeout=300)
    finally:
        os.remove(name)
    r.rc = p.returncode
    r.out = p.stdout.decode('utf-8', 'replace')
    r.err = p.stderr.decode('utf-8', 'replace')
    r.trace = r.err if 'Traceback' in r.err else ''
    return r
