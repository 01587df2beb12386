"""Process set-up shared by every check: code under test on the path, hypothesis made
importable in the interpreter the repository runs on, no byte code, one BLAS thread."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(REPO, 'heat_load_calc')

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


class _OnlyHypothesis:
    """Expose hypothesis and the pure-python packages it needs from the tooling environment or
    the wheelhouse, and nothing else (its numpy is too new for the repository)."""
    names = {'hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_pytestplugin',
             '_hypothesis_ftz_detector', '_hypothesis_globals'}
    dirs = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        import importlib.machinery
        if path is None and name in cls.names:
            return importlib.machinery.PathFinder.find_spec(name, cls.dirs)
        return None


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    if _OnlyHypothesis not in sys.meta_path:
        sys.meta_path.append(_OnlyHypothesis)
    import warnings
    warnings.filterwarnings('ignore')
