import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    replay = sys.argv[4] if len(sys.argv) > 4 and sys.argv[3] == '--replay' else None
    import traceback
    try:
        rc = core.main(pid, tier, replay)
    except Exception:
        # e.g. the package cannot even be imported
        traceback.print_exc()
        path = os.path.join(core.EVID, 'replay')
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, pid + '-crash.txt')
        with open(path, 'w') as f:
            f.write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
