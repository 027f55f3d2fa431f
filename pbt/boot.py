"""Process set-up: must be imported before jax."""
import gc
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FOLX_REPO', '/repo')
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['XLA_FLAGS'] = (
    '--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true '
    '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
)
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
sys.dont_write_bytecode = True
# The code under test always comes from the working tree.
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

gc.set_threshold(50000, 20, 50)

import logging  # noqa: E402
import warnings  # noqa: E402

import jax  # noqa: E402

jax.config.update('jax_enable_x64', True)
jax.config.update('jax_include_full_tracebacks_in_locations', False)
jax.config.update('jax_traceback_in_locations_limit', 0)

# Only for speed: folx evaluates many small operations while it traces; a fresh MLIR context for every
# one of them costs more than the operation.
from jax._src.interpreters import mlir as _mlir  # noqa: E402

_new_context, _ctx = _mlir.make_ir_context, []


def _context():
    if not _ctx or _ctx[1] > 400:
        _ctx[:] = [_new_context(), 0]
    _ctx[1] += 1
    return _ctx[0]


if os.environ.get('PBT_FRESH_CONTEXT') != '1':
    _mlir.make_ir_context = _context

logging.disable(logging.CRITICAL)
warnings.filterwarnings('ignore')

import folx  # noqa: E402

assert os.path.realpath(folx.__file__).startswith(os.path.realpath(REPO) + os.sep), folx.__file__
