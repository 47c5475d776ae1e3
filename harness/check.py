import importlib
import os
import sys
import traceback

import vp


def main(pid):
    mod = importlib.import_module('check_' + pid.lower())
    try:
        c = vp.Check(pid)
        mod.run(c)
        return c.finish()
    except Exception as e:
        traceback.print_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if frames and frames[-1].startswith(os.path.join(vp.REPO, 'dppy')):
            # the code under test refused what it has to accept before any case could be made
            path = os.path.join(vp.VERIF, 'build', pid + '-crash.txt')
            with open(path, 'w') as f:
                traceback.print_exc(file=f)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 2


if __name__ == '__main__':
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
