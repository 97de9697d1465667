"""Process set-up: import kinisi from /repo's current source, never from a stale byte-code cache."""
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get('KMON_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for k, v in (('MPLBACKEND', 'Agg'), ('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('MKL_NUM_THREADS', '1')):
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source text: no .pyc is read or written."""

    def path_stats(self, path):
        raise OSError

    def set_data(self, *a, **k):
        pass


class _Finder:

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'kinisi' and not name.startswith('kinisi.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, fn, loader=_FreshLoader(name, fn),
                                                          submodule_search_locations=[base])
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=_FreshLoader(name, fn))
        return None


def setup():
    import importlib.util  # noqa
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import kinisi
    assert os.path.realpath(list(kinisi.__path__)[0]) == os.path.realpath(os.path.join(REPO, 'kinisi')), kinisi.__path__
    import kinisi.parser, kinisi.diffusion, kinisi.analyze, kinisi.arrhenius, kinisi.analyzer  # noqa
    warnings.simplefilter('ignore')
    return kinisi
