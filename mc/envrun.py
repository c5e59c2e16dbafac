"""Child process of P29: runs cases of other checks, and calls of P27, in the
environment it was started in.  usage: envrun.py OUT < items"""
import importlib
import json
import logging
import os
import sys
import traceback


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import core
    import conv
    logging.getLogger().addHandler(logging.NullHandler())
    spec = json.loads(sys.stdin.buffer.read().decode())
    if spec.get('seterr'):
        import numpy
        numpy.seterr(all='raise')
    import time
    res = []
    tier = 'quick'
    ready = set()
    for it in spec['items']:
        t0 = time.time()
        calls, states, probs, val = 1, [], [], None
        try:
            if it[0] == 'value':
                r = conv.value_run(it[1])
            elif it[0] == 'case':
                mod = importlib.import_module('checks.' + it[1])
                if it[1] not in ready:
                    ready.add(it[1])
                    if hasattr(mod, 'setup'):
                        mod.setup(tier)
                r = mod.run(it[2])
            else:
                conv.init()
                import checks.p27 as p27
                val = p27.outcome(p27.call(it[1], it[2], None))
                val = json.loads(json.dumps(val))
                r = None
            if r is not None:
                calls, states, probs = r.calls, list(r.states), list(r.problems)
        except Exception:
            probs = ['unexpected exception:\n' + traceback.format_exc()[-1500:]]
        if os.environ.get('P29TIME'):
            sys.stderr.write('%.2f %s\n' % (time.time() - t0, json.dumps(it)[:100]))
        res.append([calls, states, probs, val])
    with open(sys.argv[1], 'w', encoding='utf-8') as f:
        json.dump(res, f)


main()
