#!/opt/venv/bin/python
"""setup_cmd: draws the first programs of every corpus and computes their references with plain JAX.
The checks draw on demand what is missing here, so this only saves time."""
import os
import subprocess
import sys
import time

PYTHON = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
if sys.prefix != '/opt/venv' and os.path.exists(PYTHON):
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

PLAN = {'mixed': 120, 'ew': 80, 'dot': 90, 'idx': 80, 'red': 80, 'ctl': 80, 'lin': 60, 'cpx': 70, 'args': 80, 'types': 70}
LIMIT = float(os.environ.get('PBT_SETUP', '840'))

if __name__ == '__main__':
    seed = os.environ.get('VERIF_SEED', '1')
    if len(sys.argv) > 1:
        from pbt import boot  # noqa: F401
        from pbt.corpora import fill

        print(fill(PLAN, seed, int(sys.argv[1]), float(sys.argv[2])))
        sys.exit(0)
    subprocess.run(['rm', '-rf', os.path.join(HERE, '.cache')])
    end = time.time() + LIMIT
    ps = [subprocess.Popen([sys.executable, os.path.join(HERE, 'prepare.py'), str(k), str(end)], cwd=HERE, stderr=subprocess.DEVNULL) for k in range(8)]
    for p in ps:
        try:
            p.wait(max(1, end + 120 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
    sys.exit(0)
