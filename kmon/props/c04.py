"""C04: motion is measured relative to the framework's mean position; rigid drift is invisible."""
import numpy as np

from .. import gen, obs
from ..core import case_seed, rng_for

ID = 'C04'
RULE = ('each case draws mobile and framework motion plus a common drift history, selects mobile atoms by species, indices or '
        'molecules and the framework by default / list / empty list, and compares the observed displacements with the true motion '
        'relative to that framework, with and without the drift; non-trivial when the framework (or the drift) moves')
REQUIRED = ['ase', 'pymatgen', 'mda', 'fw:default', 'fw:list', 'fw:empty', 'fw:none-left', 'fw:tuple', 'fw:array', 'sel:species', 'sel:indices', 'sel:molecules', 'drift-wraps',
            'analyzer', 'framework>100', 'framework-single', 'single-origin', 'fw-includes-mobile', 'npt-invariance', 'F>=200', 'species-list:fw:list', 'species-list:fw:tuple', 'species-list:fw:default']
ASSUMPTIONS = ['every atom moves by less than half a cell vector per analysed frame, drift included']


def cases(tier, seed):
    n_cases = 2000 if tier == 'quick' else 50000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        sel = ['species', 'indices', 'molecules'][i % 3]
        c = dict(k='drift', s=case_seed(ID, seed, i), backend=gen.BACKENDS[(i // 3) % 3], sel=sel,
                 fw=str(r.choice(['default', 'default', 'list', 'list', 'tuple', 'array', 'empty', 'none-left'])), n=int(r.choice([3, 5, 10, 30])),
                 fn=int(r.choice([1, 2, 5, 20])), F=int(r.choice([3, 8, 25, 60])), cell=str(r.choice(['cubic', 'ortho', 'aniso', 'tri'])),
                 drift=str(r.choice(['none', 'constant', 'random', 'jump'])), sub=int(r.choice([1, 1, 2, 3])), ana=bool(r.random() < .25),
                 sampling=str(r.choice(['multi-origin', 'multi-origin', 'multi-origin', 'single-origin'])))
        if i % 40 == 0:
            c.update(fn=int(r.choice([120, 400])), F=6)
        if i % 40 == 1:
            c.update(F=250, n=3, fn=4)
        if i % 200 in (2, 3, 4):
            c.update(fn=int(r.choice([1100, 2600])), F=4, fw=str(r.choice(['default', 'list'])), w=20)
        if i % 200 in (5, 6, 7):
            c.update(F=int(r.choice([1200, 2300])), n=3, fn=3, w=20)
        if i % 200 in (8, 9, 10):
            c.update(n=int(r.choice([300, 1100])), fn=5, F=4, w=20)
        out.append(c)
    return out


def drift_history(r, kind, F):
    if kind == 'constant':
        return np.broadcast_to(r.uniform(-.25, .25, 3), (F - 1, 3)).copy()
    if kind == 'random':
        return r.uniform(-.25, .25, (F - 1, 3))
    if kind == 'jump':
        d = np.zeros((F - 1, 3))
        d[int(r.integers(0, F - 1))] = r.uniform(-.25, .25, 3)
        return d
    return np.zeros((F - 1, 3))


def run(c, ctx):
    r = rng_for('run', c['s'])
    F, be, sub = c['F'], c['backend'], c['sub']
    kw = dict(n_steps=20 if F > 60 else 100)
    if c['sel'] == 'molecules':
        size = int(r.integers(1, 5))
        nm = max(1, c['n'] // size) if c['n'] >= 6 else 2
        n_mob = nm * size
    else:
        n_mob = c['n']
    n = n_mob + (0 if c['fw'] == 'none-left' else c['fn'])
    hop = .2
    L = gen.make_cell(r, c['cell'], lower=True)
    if c['sel'] == 'molecules':
        perm = r.permutation(n)
        mol = [sorted(perm[k * size:(k + 1) * size].tolist()) if r.random() < .5 else perm[k * size:(k + 1) * size].tolist() for k in range(nm)]
        # rigid molecules: common step plus small internal offsets
        f0 = r.random((n, 3))
        for m in mol:
            f0[m] = f0[m[0]] + r.uniform(-.2, .2, (len(m), 3))
        d = r.uniform(-hop, hop, (F - 1, n, 3))
        for m in mol:
            d[:, m] = d[:, m[:1]]
        mobile_sites = [i for m in mol for i in m]
        sp = ['Li'] * n
    else:
        sp = gen.species_list(r, n, n_mob, others=('O', 'S', 'P'))
        if c['sel'] == 'species' and r.random() < .5:  # several mobile species
            mob_sp = ['Li', 'Na', 'K'][:int(r.integers(1, 4))]
            sp = [mob_sp[int(r.integers(len(mob_sp)))] if s == 'Li' else s for s in sp]
        else:
            mob_sp = 'Li'
        f0 = r.random((n, 3))
        d = r.uniform(-hop, hop, (F - 1, n, 3)) * r.choice([0, .3, 1.], size=(1, n, 1))
        mobile_sites = [i for i, s in enumerate(sp) if s in ('Li', 'Na', 'K')]
    rest = [i for i in range(n) if i not in mobile_sites]
    base = 1 if c['sel'] == 'molecules' else 0
    if c['sel'] == 'species':
        kw['specie'] = mob_sp
        if mob_sp != 'Li':
            ctx.feat('sel:species-list', f'species-list:fw:{c["fw"]}')
        mob = [[i] for i in mobile_sites]
    elif c['sel'] == 'indices':
        ids = r.permutation(mobile_sites).tolist() if r.random() < .5 else mobile_sites
        kw.update(specie=None, specie_indices=ids)
        mob = [[i] for i in ids]
    else:
        kw.update(specie=None, specie_indices=[[int(q) + 1 for q in m] for m in mol])
        mob = mol
    if c['fw'] in ('default', 'none-left'):
        fw = rest
    elif c['fw'] == 'empty':
        fw = []
        kw['framework_indices'] = []
    else:
        pool = list(range(n)) if r.random() < .4 else rest
        fw = r.choice(pool, size=int(r.integers(1, len(pool) + 1)), replace=False).tolist()
        kw['framework_indices'] = [int(q) + base for q in fw]
        if c['fw'] == 'tuple':
            kw['framework_indices'] = tuple(kw['framework_indices'])
        elif c['fw'] == 'array':
            kw['framework_indices'] = np.array(kw['framework_indices'])
        if set(fw) & set(mobile_sites):
            ctx.feat('fw-includes-mobile')
    dr = drift_history(r, c['drift'], F)
    opts, step, _ = gen.nuisance(r, F, .1, sub, single=False)
    if c['sampling'] == 'single-origin' and len(mob) < 2:
        return
    if 'n_steps' in opts:
        opts['n_steps'] = min(opts['n_steps'], kw.pop('n_steps'))
    for q in ('spacing', 'min_dt', 'max_dt'):
        if q in opts:
            ctx.feat('with:' + q)

    def build(drift, images, npt=False):
        frac = np.concatenate([f0[None], f0[None] + np.cumsum(d + drift[:, None], axis=0)])
        cells = np.broadcast_to(L, (F, 3, 3)).copy()
        allf, allc = gen.record(r, frac, cells, images, sub, int(r.integers(0, sub)))
        return gen.Traj(sp, frac @ L, cells, allf, allc, sub)

    def centre(x):
        return np.stack([x[:, m].mean(axis=1) for m in mob], axis=1)

    results = []
    for drift in ([dr, np.zeros_like(dr)] if np.any(dr) else [dr]):
        t = build(drift, str(r.choice(['random', 'wrapped', 'unwrapped'])))
        atol = 6 * gen.tol(t, be)
        truth = centre(t.x)
        if fw:
            truth = truth - t.x[:, fw].mean(axis=1)[:, None]
        if c['ana']:
            route = {'mda': 'universe'}.get(be, be)
            k2 = gen.parser_kw(route, sampling=c['sampling'], **opts, **kw)
            if sub != 1:
                k2['sub_sample_traj'] = sub
            if c['sampling'] == 'single-origin' and len(mob) < 2:
                return
            a = gen.analyze('D', route, gen.present(t, be), k2)
            td = a.to_dict()
            dts, disp = td['delta_t'], td['disp_3d']
            results.append((np.asarray(a.msd), np.asarray(a.msd_std)))
            ctx.feat('analyzer')
        else:
            p = gen.parse(t, be, sampling=c['sampling'], **opts, **kw)
            dts, disp = p.delta_t, p.disp_3d
        tl = obs.taus(dts, step, ctx)
        obs.check_parser(ctx, disp, tl, truth, c['sampling'], atol)
        ctx.count('histories')
    if len(results) == 2 and fw:
        scale = max(1e-3, np.abs(results[1][0]).max())
        for q, nm_ in ((0, 'msd'), (1, 'msd_std')):
            ctx.close(results[0][q], results[1][q], f'{nm_} with a common drift differs from {nm_} without', rtol=1e-5 if be == 'mda' else 1e-8,
                      atol=(1e-4 if be == 'mda' else 1e-9) * scale)
    # NPT: the same drift argument does not apply to cell changes, but sequences of frames with an unchanged framework must be invariant
    if c['s'] % 5 == 0 and c['sel'] == 'species' and fw:
        t = gen.walk(r, n, F, 'ortho', .2, 'asis', sp, npt=.02, lower=True)
        p = gen.parse(t, be, time_step=.1, **{k: v for k, v in kw.items()})
        tl = obs.taus(p.delta_t, .1, ctx)
        obs.check_parser(ctx, p.disp_3d, tl, obs.relative(t.x, mobile_sites, fw), 'multi-origin', 6 * gen.tol(t, be))
        ctx.feat('npt-invariance')
    tot = np.abs(np.cumsum(dr, axis=0)).max() if F > 1 else 0
    ctx.trivial = not fw and not np.any(dr)
    ctx.feat(be, 'fw:' + c['fw'], 'sel:' + c['sel'], c['sampling'], 'drift:' + c['drift'])
    for cond, f in ((tot > 1, 'drift-wraps'), (len(fw) > 100, 'framework>100'), (len(fw) == 1, 'framework-single'), (F >= 200, 'F>=200')):
        if cond:
            ctx.feat(f)
