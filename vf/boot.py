"""Process set-up: must be imported before numpy.

* one thread per process (same sums each time, and the checks run workers in parallel)
* /repo first on sys.path, no byte code, non-interactive matplotlib
* Hypothesis comes from the tools' virtual environment; the code under test runs on
  the interpreter and the libraries of its own environment.  Only the names below may be
  taken from the tools' environment, so numpy, scipy... are the ones of /opt/venv.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', '/tmp/verif_hypothesis_%d' % os.getpid())
sys.dont_write_bytecode = True


class _ToolFinder(importlib.abc.MetaPathFinder):
    names = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
             '_hypothesis_pytestplugin', 'sortedcontainers', 'attr', 'attrs'}

    def find_spec(self, name, path=None, target=None):
        if path is None and name.split('.')[0] in self.names:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


sys.path[:] = [p for p in sys.path if p not in ('', REPO)]
sys.path.insert(0, REPO)
sys.meta_path.append(_ToolFinder())

import pymultifracs  # noqa: E402

if os.path.dirname(os.path.abspath(pymultifracs.__file__)) != os.path.join(REPO, 'pymultifracs'):
    raise SystemExit('pymultifracs does not come from %s but from %s' % (REPO, pymultifracs.__file__))
