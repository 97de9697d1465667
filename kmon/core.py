"""Case runner, monitor context, verdicts, evidence and replay files."""
import collections
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from . import gen
from .boot import VERIF

CASE_TIMEOUT = 400


class Violation(Exception):

    def __init__(self, msg, witness=None):
        super().__init__(msg)
        self.msg, self.witness = msg, witness or {}


class Inconclusive(Exception):
    pass


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        return {'shape': list(x.shape), 'values': [jsonable(v) for v in x.ravel()[:12].tolist()]}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    """The monitor's side of one execution: assertions are counted, observed features are recorded."""

    def __init__(self, prop, case, known_keys=()):
        self.prop, self.case = prop, case
        self.counts = collections.Counter()
        self.feats = collections.Counter()
        self.known = collections.Counter()
        self.known_keys = set(known_keys)
        self.sig = None
        self.trivial = False
        self.data = {}

    # observations
    def count(self, name, n=1):
        self.counts[name] += int(n)

    def feat(self, *names):
        for n in names:
            self.feats[str(n)] += 1

    # verdicts
    def ok(self, cond, msg, /, **w):
        self.counts['assertions'] += 1
        if not bool(cond):
            raise Violation(msg, w)

    def close(self, got, exp, msg, rtol=1e-9, atol=0.0, **w):
        self.counts['assertions'] += 1
        got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
        if got.shape != exp.shape:
            raise Violation(f'{msg}: shape {got.shape}, expected {exp.shape}', dict(w, got=got, expected=exp))
        self.counts['values_compared'] += got.size
        if got.size == 0:
            return
        if not np.all(np.isfinite(got)):
            raise Violation(f'{msg}: non-finite values', dict(w, got=got, expected=exp))
        err = np.abs(got - exp)
        lim = atol + rtol * np.abs(exp)
        bad = err > lim
        if np.any(bad):
            i = int(np.argmax(err - lim))
            raise Violation(f'{msg}: {int(bad.sum())} of {got.size} values differ; worst index '
                            f'{[int(q) for q in np.unravel_index(i, got.shape)]}: got {got.ravel()[i]!r}, expected '
                            f'{exp.ravel()[i]!r} (tolerance {np.broadcast_to(lim, got.shape).ravel()[i]:.3g})',
                            dict(w, got=got, expected=exp))

    def same(self, got, exp, msg, /, **w):
        """Bit-identical (NaN equal)."""
        self.counts['assertions'] += 1
        got, exp = np.asarray(got), np.asarray(exp)
        if got.shape != exp.shape or not np.array_equal(got, exp, equal_nan=got.dtype.kind in 'fc'):
            d = {}
            if got.shape == exp.shape and got.dtype.kind in 'fiu':
                d['max_abs_difference'] = float(np.max(np.abs(got.astype(float) - exp.astype(float))))
            raise Violation(f'{msg}: not identical', dict(w, got=got, expected=exp, **d))
        self.counts['values_compared'] += got.size

    def raises(self, excs, fn, msg, /, **w):
        self.counts['assertions'] += 1
        try:
            r = fn()
        except excs as e:
            self.counts['rejections'] += 1
            return e
        except Exception as e:
            raise Violation(f'{msg}: raised {type(e).__name__} ({e}) instead of {excs}', w)
        raise Violation(f'{msg}: accepted without an error', dict(w, result=repr(r)[:200]))

    def known_finding(self, key, msg, /, **w):
        if key not in self.known_keys:
            raise Violation(msg, w)
        self.known[key] += 1


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32).tolist())


def case_seed(*key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:4], 'little')


def load_known(prop):
    """known: property=<id> key=<mechanism> <what fails>   (lines starting 'fixed:' suppress nothing)"""
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known:'):
                parts = line.split(None, 3)
                if parts[1] == f'property={prop}' and parts[2].startswith('key='):
                    out[parts[2][4:]] = parts[3]
    return out


@contextlib.contextmanager
def quiet():
    """Discard prints and progress bars of the code under test; keep warnings quiet."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout, sys.stderr = o, e


_MOD = None
_KNOWN = {}


def _alarm(*_):
    raise Inconclusive('case watchdog fired')


def run_case(case):
    ctx = Ctx(_MOD.ID, case, _KNOWN)
    res = {'case': case, 'status': 'held', 'msg': None, 'witness': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    np.random.seed(case.get('s', 0) % (2**32))
    t0 = time.time()
    try:
        with quiet(), np.errstate(all='ignore'):
            _MOD.run(case, ctx)
    except Violation as v:
        res.update(status='violated', msg=v.msg, witness=jsonable(v.witness))
    except Inconclusive as v:
        res.update(status='inconclusive', msg=str(v))
    except Exception as e:
        tb = traceback.format_exc()
        res.update(status='violated', msg=f'unexpected {type(e).__name__} on a valid request: {e}', witness={'traceback': tb[-3000:]})
    finally:
        signal.alarm(0)
        gen.drop_case_scratch()
    res.update(counts=dict(ctx.counts), feats=dict(ctx.feats), known=dict(ctx.known), wall=time.time() - t0, sig=ctx.sig,
               data=ctx.data, trivial=ctx.trivial)
    return res


def fold(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def main(mod, tier, seed, replay=None, jobs=None, only=None):
    global _MOD, _KNOWN
    _MOD = mod
    prop = mod.ID
    _KNOWN = load_known(prop)
    t0 = time.time()
    if replay:
        cases = [json.load(open(replay))['case']]
        if cases[0].get('k') == 'ensemble':  # an ensemble verdict is replayed by the whole run
            return main(mod, cases[0]['tier'], cases[0]['seed'], None, jobs)
    else:
        cases = mod.cases(tier, seed)
        if only is not None:
            cases = [c for c in cases if only in json.dumps(c)]
    jobs = jobs or int(os.environ.get('KMON_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results = []
    if jobs == 1 or len(cases) == 1:
        results = [run_case(c) for c in cases]
    else:
        # longest cases first when the module says so
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get('w', 1))
        tmp = {}
        with mp.get_context('fork').Pool(jobs) as pool:
            it = pool.imap_unordered(run_case_i, [(i, cases[i]) for i in order], chunksize=1)
            for _ in range(len(cases)):
                try:
                    i, r = it.next(timeout=CASE_TIMEOUT + 100)
                except mp.TimeoutError:
                    print('INCONCLUSIVE: a worker stopped responding')
                    pool.terminate()
                    return 3
                tmp[i] = r
        results = [tmp[i] for i in range(len(cases))]
    counts, feats, known = collections.Counter(), collections.Counter(), collections.Counter()
    for r in results:
        counts.update(r['counts'])
        feats.update(r['feats'])
        known.update(r['known'])
    viol = [r for r in results if r['status'] == 'violated']
    inconc = [r for r in results if r['status'] == 'inconclusive']
    # whole-run oracles (statistical properties)
    if hasattr(mod, 'finish') and not replay:
        ctx = Ctx(prop, {'k': 'ensemble', 'tier': tier, 'seed': seed}, _KNOWN)
        try:
            mod.finish(results, ctx, tier)
        except Violation as v:
            viol.append({'case': ctx.case, 'msg': v.msg, 'witness': jsonable(v.witness)})
        counts.update(ctx.counts)
        feats.update(ctx.feats)
    nontrivial = {}
    for r in results:
        if r['counts'].get('assertions', 0) > 0 and not r['trivial']:
            nontrivial[fold({k: v for k, v in r['case'].items()} if r['sig'] is None else r['sig'])] = r
    missing = [f for f in getattr(mod, 'REQUIRED', []) if not feats.get(f)] if not (replay or only) else []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for n, r in enumerate(viol[:10]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{tier}-{seed}-{n}.json')
        json.dump({'property': prop, 'case': r['case'], 'message': r['msg'], 'witness': r['witness'],
                   'how': f'cd /verif && ./check {prop} --replay {path}'}, open(path, 'w'), indent=1, default=str)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {r["msg"]}'[:1500])
        print(f'  case: {json.dumps(r["case"], default=str)[:600]}')
    for k, what in _KNOWN.items():
        if known.get(k):
            print(f'KNOWN-FINDING: property={prop} {what}')
    wall = time.time() - t0
    if not replay and only is None:
        samples = []
        for r in list(nontrivial.values())[:: max(1, len(nontrivial) // 4)][:4]:
            samples.append({'case': r['case'], 'observed': {**r['counts']}, 'features': sorted(r['feats'])})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': len(results), 'distinct_nontrivial': len(nontrivial), 'rule': mod.RULE,
                'samples': jsonable(samples) or [{'none': True}],
                'oracle_assertions': counts.get('assertions', 0), 'values_compared': counts.get('values_compared', 0),
                'observed': dict(sorted(counts.items())), 'features_seen': dict(sorted(feats.items())),
                'known_findings_observed': dict(known), 'inconclusive_cases': len(inconc),
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2), 'violations': len(viol),
        }
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{prop} tier={tier} seed={seed}: {len(results)} executions, {len(nontrivial)} distinct non-trivial, '
          f'{counts.get("assertions", 0)} assertions over {counts.get("values_compared", 0)} values, '
          f'{len(viol)} violations, {wall:.1f}s')
    if viol:
        return 1
    if inconc:
        print(f'INCONCLUSIVE: {len(inconc)} cases: {inconc[0]["msg"]}')
        return 3
    if missing:
        print(f'INCONCLUSIVE: features never observed: {missing}')
        return 3
    if not nontrivial:
        print('INCONCLUSIVE: nothing observed')
        return 3
    return 0


def run_case_i(arg):
    return arg[0], run_case(arg[1])
