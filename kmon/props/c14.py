"""C14: reproducibility with a random_state; progress bars change nothing."""
import hashlib
import json
import os
import subprocess
import sys

import numpy as np

from .. import gen
from ..boot import VERIF
from ..core import Violation, case_seed, rng_for

ID = 'C14'
RULE = ('each case runs one analysis (resampling, fit, posterior predictive) with a seeded random_state twice: once alone and once after perturbing the global generator, running other '
        'analyses, switching progress bars, or in a fresh process with another hash seed, and compares all samples bit for bit; a further run with another seed must differ; non-trivial when '
        'the two runs differ in at least one perturbation')
REQUIRED = ['D', 'J', 'C', 'bootstrap', 'no-bootstrap', 'no-intercept', 'model', 'ppd', 'perturb:global', 'perturb:history', 'perturb:progress', 'perturb:all', 'perturb:fresh-process', 'perturb:advanced-state', 'perturb:same-object',
            'different-seed', 'ase', 'pymatgen', 'universe', 'refit', 'shared-random-state', 'direct-predictive', 'many-seeds']
ASSUMPTIONS = ['one thread of BLAS in every process']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    perts = ['global', 'history', 'progress', 'all', 'advanced-state', 'same-object']
    for i in range(150 if q else 1800):
        r = rng_for(ID, seed, i)
        out.append(dict(k='pair', s=case_seed(ID, seed, i), ana='DJC'[i % 3], pert=perts[i % 6] if i % 2 else perts[(i // 6) % 6], bs=bool(r.random() < .5), icpt=bool(r.random() < .7), model=bool(r.random() < .3),
                        rs=int(r.integers(0, 2**31)) if r.random() < .7 else int(r.integers(0, 5)), be=str(r.choice(gen.ROUTES)), dim=str(r.choice(['xyz', 'xyz', 'xy', 'z'])), refit=bool(r.random() < .3),
                        shared=bool(r.random() < .3)))
    for i in range(24 if q else 120):
        r = rng_for(ID, seed, 'p', i)
        out.append(dict(k='process', s=case_seed(ID, seed, 'p', i), ana='DJC'[i % 3], pert='fresh-process', bs=True, icpt=bool(i % 2), model=bool(i % 3 == 1), rs=int(r.integers(0, 2**31)), be=['ase', 'pymatgen', 'universe'][i % 3], dim='xyz',
                        refit=False, shared=False, hs=int(r.integers(0, 4000)), w=4))
    for i in range(6 if q else 60):
        r = rng_for(ID, seed, 'd', i)
        out.append(dict(k='seeds', s=case_seed(ID, seed, 'd', i), ana='DJC'[i % 3], base=[0, 1, int(r.integers(0, 2**31 - 200))][(i // 3) % 3], step=int(r.choice([1, 1, 32, 256])), w=3))
    return out


def once(c, perturb=None, seed=None):
    """One analysis; returns the arrays that must be reproducible."""
    r = rng_for('data', c['s'])
    kind, be = c['ana'], c['be']
    n, F = (7, 24) if r.random() < .7 else [(2, 60), (40, 12), (150, 10)][int(r.integers(3))]
    sp = gen.species_list(r, n, max(2, n - 2), contiguous=True)
    R = int(r.choice([1, 1, 1, 2, 3]))
    L = gen.make_cell(r, 'ortho')
    data = [gen.present(gen.walk(r, n, F, 'ortho', .2, 'random', sp, steps='normal', cell_matrix=L), be) for _ in range(R)]
    dtype = None if R == 1 else 'identical'
    data = data[0] if R == 1 else data
    rr = rng_for('settings', c['s'])
    nw, ns, nb = (12, 60, 20) if rr.random() < .65 else [(4, 30, 0), (32, 120, 100), (120, 20, 5), (10, 40, 700), (6, 1100, 10)][int(rr.integers(5))]
    fitkw = dict(n_walkers=nw, n_samples=ns, n_burn=nb)
    if rr.random() < .5:
        fitkw['thin'] = int(rr.choice([1, 2, 7]))
    if rr.random() < .3:
        fitkw['cond_max'] = float(rr.choice([1e3, 1e10]))
    first = int(rr.choice([0, 1, 1, 2]))
    res, post, pred = (40, 6, 4) if rr.random() < .7 else [(5, 300, 1), (300, 1, 300), (100, 40, 40)][int(rr.integers(3))]
    seed = c['rs'] if seed is None else seed
    pr = perturb in ('progress', 'all')
    rs = lambda: _advanced(seed) if perturb == 'advanced-state' or c['pert'] == 'advanced-state' else np.random.RandomState(seed)
    shared = rs() if c['shared'] else None
    un = dict(dimension=c['dim'], progress=pr)
    if rr.random() < .3:
        un['sub_sample_dt'] = 2
    if rr.random() < .2:
        un['block'] = True
    if c['bs']:
        un.update(bootstrap=True, n_resamples=res, max_resamples=2 * res, random_state=shared or rs())
    out = {}
    a = gen.analyze(kind, be, data, dict(gen.parser_kw(be, time_step=.1), progress=pr), dtype=dtype, uncertainty=un)
    out['value'], out['std'] = gen.value(a, kind), gen.std(a, kind)
    if c['bs']:
        ds = a.to_dict()['diff']['distributions']
        out['resamples'] = np.concatenate([np.asarray(d['samples']) for d in ds])
    if perturb in ('global', 'all'):
        np.random.random(17)
    if c['refit'] or perturb == 'history':
        gen.fit(a, kind, a.dt[0], n_samples=12, n_burn=3, n_walkers=8)
    gen.fit(a, kind, a.dt[min(first, np.size(a.dt) - 2)], model=c['model'], fit_intercept=c['icpt'], random_state=shared or rs(), progress=pr, **fitkw)
    out['ppd'] = a.posterior_predictive(dict(n_posterior_samples=post, n_predictive_samples=pred, progress=pr))
    out['coef'], out['chain'], out['dist'] = gen.coef(a, kind).samples, np.asarray(a.flatchain), np.asarray(a.distribution)
    return out


def _advanced(seed):
    s = np.random.RandomState(seed)
    s.random_sample(700)
    s.randint(0, 100, 33)
    return s


def digest(out):
    return {k: hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest() for k, v in out.items()}


def run_seeds(c, ctx):
    """Many seeds: no two of them give the same chain, resamples or predictive samples."""
    from .. import boots
    from .c11 import do_fit, walker
    kind = c['ana']
    r = rng_for('seeds', c['s'])
    dts, disp, n_o = walker(r, kind, 4, 30, 12, 1.0, .5)
    seen = {}
    for k in range(60):
        sd = c['base'] + k * c['step']
        b = boots.make(kind, dts, disp, n_o, 1.0, bootstrap=True, n_resamples=8, max_resamples=8, random_state=np.random.RandomState(sd))
        res = np.concatenate([np.asarray(d['samples']) for d in b.to_dict()['distributions']])
        do_fit(b, kind, b.dt[0], n_samples=3, n_burn=2, n_walkers=6, thin=1, random_state=np.random.RandomState(sd))
        for nm, x in (('resamples', res), ('chain', np.asarray(b.flatchain)), ('predictive samples', np.asarray(b.posterior_predictive(2, 2, progress=False)))):
            key = (nm, hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest())
            ctx.ok(key not in seen, f'two seeds give the same {nm}', seeds=(seen.get(key), sd))
            seen[key] = sd
        ctx.count('seeds')
    ctx.feat('many-seeds', kind)


def run(c, ctx):
    if c['k'] == 'seeds':
        return run_seeds(c, ctx)
    kind = c['ana']
    np.random.seed(1)
    first = once(c)
    if c['k'] == 'process':
        env = dict(os.environ, PYTHONHASHSEED=str(c['hs']))
        p = subprocess.run([sys.executable, '-m', 'kmon.fresh', json.dumps(c)], cwd=VERIF, env=env, capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            raise Violation('fresh process failed', {'stderr': p.stderr[-2000:]})
        got = json.loads(p.stdout.strip().splitlines()[-1])
        for k, v in digest(first).items():
            ctx.ok(got[k] == v, f'{k} differs between this process and a fresh one')
    else:
        if c['pert'] in ('history', 'all'):
            o = dict(c, s=c['s'] + 1, rs=c['rs'] + 1, pert='x')
            np.random.seed(99)
            once(o)
            once(dict(o, ana='DJC'[('DJC'.index(kind) + 1) % 3]))
        if c['pert'] != 'same-object':
            np.random.seed(c['s'] % 4294967291)
            np.random.normal(size=1 + c['s'] % 1000)
        if c['pert'] == 'same-object':
            np.random.seed(5)
        second = once(c, perturb=c['pert'])
        for k in first:
            ctx.same(second[k], first[k], f'{k} after perturbation {c["pert"]}')
        third = once(c, seed=c['rs'] + 1)
        ctx.ok(not np.array_equal(third['chain'], first['chain']), 'a different seed gives the same chain')
        if c['bs']:
            ctx.ok(not np.array_equal(third['resamples'], first['resamples']), 'a different seed gives the same resamples')
        ctx.feat('different-seed')
        if c['s'] % 3 == 0:
            direct(c, ctx)
    ctx.feat(kind, c['be'], 'bootstrap' if c['bs'] else 'no-bootstrap', 'perturb:' + c['pert'], 'ppd')
    for cond, f in ((not c['icpt'], 'no-intercept'), (c['model'], 'model'), (c['refit'], 'refit'), (c['shared'], 'shared-random-state')):
        if cond:
            ctx.feat(f)


def direct(c, ctx):
    """The uncertainty classes used directly, default sampler settings except for length."""
    from .. import boots
    from .c11 import do_fit, walker
    kind = c['ana']
    r = rng_for('direct', c['s'])
    dts, disp, n_o = walker(r, kind, 4, 30, 12, 1.0, .5)
    out = []
    for k in range(2):
        np.random.seed(k * 77 + 3)
        b = boots.make(kind, dts, disp, n_o, 1.0, bootstrap=True, n_resamples=20, max_resamples=40, random_state=np.random.RandomState(c['rs']), progress=bool(k))
        np.random.seed(k * 13 + 5)
        do_fit(b, kind, b.dt[0], n_samples=30, n_burn=5, random_state=np.random.RandomState(c['rs']), progress=bool(k))
        ppd = b.posterior_predictive(5, 3, progress=bool(k))
        out.append((b.flatchain, b.gradient.samples, ppd, np.concatenate([d['samples'] for d in b.to_dict()['distributions']])))
    for x, y, nm in zip(out[0], out[1], ('chain', 'gradient', 'posterior predictive', 'resamples')):
        ctx.same(y, x, f'{nm} of the uncertainty class used directly')
    ctx.feat('direct-predictive')
