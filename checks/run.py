"""Run the check of one property: run.py ID"""
import os
import sys
import shutil
import signal
import subprocess
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common            # noqa: E402
import importlib                   # noqa: E402

MODULES = ['c_apply', 'c_parts', 'py_apply', 'py_create', 'files', 'formats', 'cli']


def late(R):
    """What takes this long does not end: report what was found."""
    if R.violations:
        code = R.finish()
        subprocess.run(['pkill', '-KILL', '-P', str(os.getpid())])
        shutil.rmtree(common.work(), True)
        os._exit(code)


def main():
    prop = sys.argv[1]
    for m in MODULES:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), m + '.py')
        if not os.path.exists(path):
            continue
        mod = importlib.import_module('checks.' + m)
        if prop in mod.CHECKS:
            R = common.Report(prop)
            if not common.THOROUGH:
                signal.signal(signal.SIGALRM, lambda *_: late(R))
                signal.alarm(780)
            try:
                mod.CHECKS[prop](R)
            except Exception:
                if not R.violations:
                    raise
                traceback.print_exc()
            return R.finish()
    print('no check for ' + prop)
    return 2


if __name__ == '__main__':
    sys.exit(main())
