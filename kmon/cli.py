import argparse
import importlib
import os
import sys

from . import boot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--only')
    a = ap.parse_args()
    boot.setup()
    from . import core
    if a.self_test:
        sys.exit(self_test())
    mod = importlib.import_module(f'kmon.props.{a.prop.lower()}')
    sys.exit(core.main(mod, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed, a.replay, a.jobs, a.only))


def self_test():
    """Everything the checks need is importable and the code under test is /repo's."""
    import kinisi, kinisi.analyze, kinisi.arrhenius, ase, pymatgen.core, MDAnalysis, h5py, pyblock, emcee, uravu  # noqa
    print('kinisi from', os.path.dirname(kinisi.__file__))
    return 0


main()
