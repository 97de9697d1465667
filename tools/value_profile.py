"""Development aid: which values the workloads drive through kinisi's functions.

    python -m tools.value_profile OUT.json C01 C02 ...

Runs the quick checks under a profiling hook that records, for every function of kinisi and every local variable on return, the
types seen, the range of scalars, of array sizes and of array magnitudes. The summary shows which thresholds no workload crosses."""
import collections
import glob
import importlib
import json
import os
import pickle
import sys
import tempfile

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kmon import boot  # noqa

SEEN = {}


def note(key, kind, *vals):
    d = SEEN.setdefault(key, {}).setdefault(kind, [0, float('inf'), float('-inf')])
    d[0] += 1
    for v in vals:
        if v < d[1]:
            d[1] = v
        if v > d[2]:
            d[2] = v


def hook(frame, event, arg):
    if event != 'return':
        return
    co = frame.f_code
    if '/kinisi/' not in co.co_filename or co.co_name in ('<genexpr>', '<listcomp>', 'log_likelihood', 'nll', '_straight_line'):
        return
    import numpy as np
    fn = os.path.basename(co.co_filename) + ':' + co.co_qualname
    items = list(frame.f_locals.items()) + [('<return>', arg)]
    for k, v in items:
        try:
            one(np, fn + ':' + k, v)
        except Exception:
            pass


def one(np, key, v):
    t = type(v).__name__
    if isinstance(v, (bool, np.bool_)) or v is None:
        note(key, f'{v}')
    elif isinstance(v, (int, float, np.number)):
        note(key, t, float(v))
        if v == 0:
            note(key, 'zero')
    elif isinstance(v, str):
        note(key, f'str:{v}' if len(v) < 12 else 'str', len(v))
    elif isinstance(v, np.ndarray):
        for i, s in enumerate(v.shape):
            note(key, f'{v.dtype}/{v.ndim}d.shape{i}', s)
        if v.size and v.dtype.kind in 'fiu' and v.size < 200000:
            note(key, 'absmax', float(np.abs(v).max()))
            note(key, 'min', float(v.min()))
    elif isinstance(v, (list, tuple, dict, set)):
        note(key, t + '.len', len(v))
        if v and isinstance(v, (list, tuple)):
            note(key, 'of ' + type(v[0]).__name__)
    else:
        note(key, t)


def main():
    out, props = sys.argv[1], sys.argv[2:]
    boot.setup()
    from kmon import core
    d = tempfile.mkdtemp(prefix='kmon-prof-')
    orig = core.run_case
    n = [0]

    def run_case(arg):
        sys.setprofile(hook)
        try:
            r = orig(arg)
        finally:
            sys.setprofile(None)
        n[0] += 1
        if n[0] % 5 == 0:
            with open(f'{d}/{os.getpid()}.tmp', 'wb') as f:
                pickle.dump(SEEN, f)
            os.replace(f'{d}/{os.getpid()}.tmp', f'{d}/{os.getpid()}.pkl')
        return r

    core.run_case = run_case
    boot.VERIF = core.VERIF = tempfile.mkdtemp(prefix='kmon-prof-ev-')
    for p in props:
        core.main(importlib.import_module(f'kmon.props.{p.lower()}'), 'quick', 1)
    tot = {}
    for fn in glob.glob(f'{d}/*.pkl'):
        for key, kinds in pickle.load(open(fn, 'rb')).items():
            for kd, (c, lo, hi) in kinds.items():
                e = tot.setdefault(key, {}).setdefault(kd, [0, float('inf'), float('-inf')])
                e[0] += c
                e[1], e[2] = min(e[1], lo), max(e[2], hi)
    json.dump(tot, open(out, 'w'), indent=0, sort_keys=True)


if __name__ == '__main__':
    main()
