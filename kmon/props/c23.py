"""C23: consecutive pieces join and identical replicas pool without loss."""
import os

import numpy as np

from .. import boots, gen, ref
from ..core import case_seed, rng_for

ID = 'C23'
RULE = ("'consec' cases cut a trajectory at random frames (pieces of one frame included) and compare everything reported with the analysis of the uncut trajectory; 'ident' cases pool replicas and compare with the analyses of the "
        "single replicas and with the true motion: values, uncertainties, observation counts, displacement distributions; non-trivial when at least two pieces or replicas and two intervals are involved")
REQUIRED = ['D', 'J', 'C', 'consec', 'ident', 'pieces=1', 'pieces>3', 'pieces>8', 'replicas>6', 'atoms>100', 'frames>100', 'single-frame-piece', 'crossing-at-cut', 'replicas=1', 'replicas=2', 'replicas>3', 'sub>1', 'sub-misaligned', 'npt', 'molecules', 'charges', 'single-origin', 'logarithmic',
            'limits', 'sub_sample_dt', 'dimension<3', 'copies', 'different-cells', 'fitted', 'tuple', 'repeated-frame-at-cut', 'indices', 'framework_indices'] + list(gen.ROUTES)
ASSUMPTIONS = ['pieces hold different frames (the last frame of one piece is not repeated in the next); a Universe accepts identical replicas only; replicas have the same number of frames']
CONSEC = ['ase', 'pymatgen', 'Xdatcar', 'file']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(700 if q else 20000):
        r = rng_for(ID, seed, 'c', i)
        out.append(dict(k='consec', s=case_seed(ID, seed, 'c', i), ana='DJC'[i % 3], route=CONSEC[(i // 3) % 4], P=int(r.choice([1, 2, 2, 3, 5, 8])) if i % 30 else int(r.choice([14, 25])), F=int(r.choice([9, 14, 30])) if i % 40 != 3 else int(r.choice([120, 300])), n=int(r.choice([2, 3, 6])) if i % 40 != 7 else int(r.choice([120, 500])), sub=int(r.choice([1, 1, 1, 2, 3])),
                        npt=float(r.choice([0, 0, .04])), mol=bool(r.random() < .15), sel=str(r.choice(['specie', 'specie', 'indices'])), fwi=bool(r.random() < .2), single=bool(r.random() < .12), spacing=str(r.choice(['linear', 'linear', 'logarithmic'])),
                        lim=bool(r.random() < .25), ssd=int(r.choice([1, 1, 2])), dim=str(r.choice(boots.DIMS + ['xyz'] * 5)), fit=bool(r.random() < .12), pause=bool(r.random() < .3), steps=str(r.choice(['uniform', 'ballistic', 'heavy'])), cell=str(r.choice(['ortho', 'tri', 'hex', 'cubic']))))
    for i in range(700 if q else 20000):
        r = rng_for(ID, seed, 'i', i)
        out.append(dict(k='ident', s=case_seed(ID, seed, 'i', i), ana='DJC'[i % 3], route=gen.ROUTES[(i // 3) % 5], R=int(r.choice([1, 2, 2, 3, 4, 6])) if i % 30 else int(r.choice([9, 12])), F=int(r.choice([9, 14, 30])) if i % 40 != 3 else int(r.choice([120, 300])), n=int(r.choice([2, 3, 6])) if i % 40 != 7 else int(r.choice([120, 500])), sub=int(r.choice([1, 1, 1, 2])),
                        npt=float(r.choice([0, 0, 0, .04])), mol=bool(r.random() < .15), sel=str(r.choice(['specie', 'specie', 'indices'])), fwi=bool(r.random() < .2), single=bool(r.random() < .12), spacing=str(r.choice(['linear', 'linear', 'logarithmic'])),
                        lim=bool(r.random() < .25), ssd=int(r.choice([1, 1, 2])), dim=str(r.choice(boots.DIMS + ['xyz'] * 5)), copies=bool(r.random() < .15), diffcell=bool(r.random() < .2), cell=str(r.choice(['ortho', 'tri', 'hex', 'cubic'])),
                        steps=str(r.choice(['uniform', 'ballistic', 'heavy']))))
    return out


def setup(c, ctx, r, reps):
    """Species, selection keywords and a list of trajectories with their true relative motion."""
    n, F, sub, fw = c['n'], c['F'], c['sub'], 4
    dt = .1 * sub
    kw = dict(time_step=.1, spacing=c['spacing'])
    if c['mol']:
        tot, sp = 2 * n + fw, ['Li'] * (2 * n) + ['O'] * fw
        kw.update(specie=None, specie_indices=[[2 * j + 1, 2 * j + 2] for j in range(n)])
        mob = None
        others = list(range(2 * n, tot))
        ctx.feat('molecules')
    else:
        tot, sp = n + fw, ['Li'] * n + ['O'] * fw
        mob = list(range(n))
        if c['sel'] == 'indices':
            mob = [int(x) for x in r.permutation(n)]
            kw.update(specie=None, specie_indices=mob)
            ctx.feat('indices')
        others = list(range(n, tot))
    fwi = others
    if c['fwi']:
        fwi = others[:2]
        kw['framework_indices'] = [x + (1 if c['mol'] else 0) for x in fwi]
        ctx.feat('framework_indices')
    if c['single'] and c['ana'] == 'D':
        kw['sampling'] = 'single-origin'
        ctx.feat('single-origin')
    if c['lim']:
        kw.update(min_dt=2 * dt, max_dt=(F - 2) * dt, n_steps=int(r.choice([4, 7, 100])))
        ctx.feat('limits')
    if c['spacing'] != 'linear':
        ctx.feat('logarithmic')
    npt = 0.0 if c['mol'] else c['npt']
    if npt:
        ctx.feat('npt')
    if sub > 1:
        ctx.feat('sub>1')
    if c['ssd'] > 1:
        ctx.feat('sub_sample_dt')
    if len(c['dim']) < 3:
        ctx.feat('dimension<3')
    if n > 100:
        ctx.feat('atoms>100')
    if F > 100:
        ctx.feat('frames>100')
    L0 = gen.make_cell(r, c['cell'], lower=True)
    ts, rel = [], []
    for k in range(reps):
        L = L0
        if c.get('diffcell') and c['ana'] == 'D' and k:
            L = L0 * r.uniform(.9, 1.1)
            ctx.feat('different-cells')
        # an unanalysed tail keeps pieces uneven when sub > 1
        pause = .4 if c.get('pause') else 0.0
        t = gen.walk(r, tot, F, c['cell'], .25, 'asis' if npt else 'wrapped' if pause else 'random', sp, pauses=pause, sub=sub, tail=c.get('tail', 0), npt=npt, lower=True, steps=c['steps'], cell_matrix=L)
        x = t.x
        if c['mol']:
            fr = x @ np.linalg.inv(L)
            fr[:, 1:2 * n:2] = fr[:, 0:2 * n:2] + .02
            t.all_frac, t.all_cells = gen.record(r, fr, t.cells, 'wrapped' if pause else 'random', sub, c.get('tail', 0))
            x = fr @ L
            m = .5 * (x[:, 0:2 * n:2] + x[:, 1:2 * n:2])
        else:
            m = x[:, mob]
        ts.append(t)
        rel.append(m - x[:, fwi].mean(axis=1, keepdims=True))
    return kw, ts, rel


def run(c, ctx):
    ctx.feat(c['ana'], c['k'], c['route'])
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']), c['ana'])


def uncertainty(c):
    return dict(dimension=c['dim'], sub_sample_dt=c['ssd'])


def piece(t, lo, hi):
    return gen.Traj(t.species, t.x, t.cells, t.all_frac[lo:hi], t.all_cells[lo:hi], t.sub)


def run_consec(c, ctx, r, kind):
    c = dict(c, tail=int(r.integers(0, c['sub'])) if c['sub'] > 1 else 0)
    kw, (t, ), (rel, ) = setup(c, ctx, r, 1)
    total = t.all_frac.shape[0]
    P = min(c['P'], total - 1)
    cuts = sorted(int(x) for x in r.choice(np.arange(1, total), P - 1, replace=False))
    if P > 2 and r.random() < .5:
        cuts[0] = 1
        cuts = sorted(set(cuts))
    if c.get('pause') and P > 1:
        same = [e for e in range(1, total) if np.array_equal(t.all_frac[e], t.all_frac[e - 1])]
        if same:
            cuts = sorted(set(cuts[1:]) | {int(r.choice(same))})
            ctx.feat('repeated-frame-at-cut')
    edges = [0] + cuts + [total]
    extra = {}
    if kind == 'C' and r.random() < .5:
        extra['ionic_charge'] = r.choice([-1., 1., 2.], c['n'])
        ctx.feat('charges')
    route = c['route']
    k2 = gen.parser_kw(route, **kw)
    if c['sub'] > 1:
        k2['sub_sample_traj'] = c['sub']
        if any(e % c['sub'] for e in cuts):
            ctx.feat('sub-misaligned')
    with gen.Scratch() as sd:
        whole = gen.present(t, route, sd)
        if route in ('ase', 'pymatgen') and r.random() < .5:
            pieces = [whole[a:b] for a, b in zip(edges[:-1], edges[1:])]
        else:
            pieces = [gen.present(piece(t, a, b), route, sd) for a, b in zip(edges[:-1], edges[1:])]
        if r.random() < .2:
            pieces = tuple(pieces)
            ctx.feat('tuple')
        a = gen.analyze(kind, route, whole, dict(k2), uncertainty=uncertainty(c), **extra)
        b = gen.analyze(kind, route, pieces, dict(k2), dtype='consecutive', uncertainty=uncertainty(c), **extra)
    rt = 1e-9
    at = gen.tol(t, route) * 3
    S = max(1.0, float(np.abs(rel).max() * c['n'])**2)
    ctx.close(b.dt, a.dt, 'intervals of the joined pieces', rtol=1e-12)
    ctx.close(gen.value(b, kind), gen.value(a, kind), f'{gen.VALUE[kind]} of the joined pieces', rtol=rt, atol=at * S)
    ctx.close(gen.std(b, kind), gen.std(a, kind), 'standard deviations of the joined pieces', rtol=1e-7, atol=at * S)
    ctx.close(b.to_dict()['n_o'], a.to_dict()['n_o'], 'observations of the joined pieces', rtol=1e-12)
    ctx.close(b.volume, a.volume, 'volume of the joined pieces', rtol=1e-9)
    ctx.ok(len(b.dr) == len(a.dr), 'number of displacement distributions of the joined pieces')
    for x, y in zip(b.dr, a.dr):
        ctx.close(np.sort(x.samples), np.sort(y.samples), 'displacement distribution of the joined pieces', rtol=rt, atol=at)
    # and the truth at each interval
    taus = np.round(np.asarray(b.dt) / (.1 * c['sub'])).astype(int)
    for j, tau in enumerate(taus):
        against_truth(ctx, b.dr[j], [rel], tau, c, at)
    if c['fit'] and np.size(a.dt) >= 4 and kw.get('sampling') != 'single-origin' and gen.value(a, kind)[-1] > 0:
        for o in (a, b):
            gen.fit(o, kind, a.dt[0], random_state=np.random.RandomState(3), n_walkers=8, n_samples=40, n_burn=20, thin=4, cond_max=1e6)
        if np.array_equal(gen.value(a, kind), gen.value(b, kind)) and np.array_equal(gen.std(a, kind), gen.std(b, kind)):
            ctx.same(gen.coef(b, kind).samples, gen.coef(a, kind).samples, 'samples fitted to the joined pieces')
            ctx.feat('fitted')
    f = t.all_frac
    for e in cuts:
        if np.any(np.abs(f[e] - f[e - 1]) > .5):
            ctx.feat('crossing-at-cut')
    if 1 in np.diff(edges):
        ctx.feat('single-frame-piece')
    if len(edges) == 2:
        ctx.feat('pieces=1')
    if len(edges) > 9:
        ctx.feat('pieces>8')
    if len(edges) > 4:
        ctx.feat('pieces>3')
    ctx.count('pieces', len(edges) - 1)
    ctx.trivial = len(edges) < 3 or np.size(a.dt) < 2


def against_truth(ctx, dist, rels, tau, c, at):
    F, dim = c['F'], c['dim']

    def ln(x):
        return np.sqrt(np.sum(ref.axes(x, dim)**2, axis=-1)).ravel()
    if c['single'] and c['ana'] == 'D':
        opts = [np.concatenate([ln(w[tau - 1] - w[0]) for w in rels])]
        if tau < F:
            opts.append(np.concatenate([ln(w[tau] - w[0]) for w in rels]))
    else:
        win = np.concatenate([ln(ref.windows(w, tau)) for w in rels])
        opts = [win, np.concatenate([win] + [ln(w[tau - 1] - w[0]) for w in rels])]
    g = np.sort(np.asarray(dist.samples, float).ravel())
    fit = [np.sort(o) for o in opts if o.size == g.size]
    ctx.ok(fit, f'{g.size} displacement lengths at an interval of {tau} frames: {[o.size for o in opts]} expected', frames=F)
    ctx.close(g, min(fit, key=lambda o: np.max(np.abs(o - g))), f'displacement lengths against the true motion over {tau} frames', rtol=0, atol=at)


def run_ident(c, ctx, r, kind):
    R = c['R']
    kw, ts, rel = setup(c, ctx, r, R)
    if c['copies']:
        ts, rel = [ts[0]] * R, [rel[0]] * R
        if R > 1:
            ctx.feat('copies')
    extra = {}
    q = 1.0
    if kind == 'C' and r.random() < .5:
        q = extra['ionic_charge'] = r.choice([-1., 1., 2.], c['n'])
        ctx.feat('charges')
    route = c['route']
    k2 = gen.parser_kw(route, **kw)
    if c['sub'] > 1:
        k2['sub_sample_traj'] = c['sub']
    with gen.Scratch() as sd:
        data = [gen.present(t, route, sd) for t in ts]
        given = tuple(data) if r.random() < .2 else data
        if isinstance(given, tuple):
            ctx.feat('tuple')
        a = gen.analyze(kind, route, given, dict(k2), dtype='identical', uncertainty=uncertainty(c), **extra)
        one = [gen.analyze(kind, route, d, dict(k2), uncertainty=uncertainty(c), **extra) for d in data]
    f32 = route == 'universe'
    at = max(gen.tol(t, route) for t in ts) * 3
    S = max(1.0, max(float(np.abs(w).max() * c['n'])**2 for w in rel))
    rt = 1e-4 if f32 else 1e-8
    ctx.close(a.dt, one[0].dt, 'intervals of pooled replicas', rtol=1e-12)
    ctx.close(a.volume, one[0].volume, 'volume of pooled replicas', rtol=1e-9)
    ctx.close(a.to_dict()['n_o'], np.sum([np.asarray(o.to_dict()['n_o']) for o in one], axis=0), 'independent observations add up', rtol=1e-12)
    v = np.mean([gen.value(o, kind) for o in one], axis=0)
    if kind != 'J':
        ctx.close(gen.value(a, kind), v, f'{gen.VALUE[kind]} against the average of the replicas', rtol=rt, atol=1e-6 * v.max() if f32 else at * S)
    ctx.ok(len(a.dr) == len(one[0].dr), 'number of displacement distributions')
    taus = np.round(np.asarray(a.dt) / (.1 * c['sub'])).astype(int)
    for j in range(len(a.dr)):
        u = np.sort(np.concatenate([np.ravel(o.dr[j].samples) for o in one]).astype(float))
        ctx.close(np.sort(np.asarray(a.dr[j].samples, float)), u, 'displacement distribution against the union of the replicas', rtol=rt, atol=at)
        against_truth(ctx, a.dr[j], rel, taus[j], c, at)
        ctx.count('pooled_lengths', u.size)
    # the collective quantities and the uncertainty from the definition over the pooled observations
    top = [o.to_dict() for o in one]
    adt = np.asarray(top[0]['delta_t'])
    for j, t in enumerate(np.asarray(a.dt)):
        i = int(np.argmin(np.abs(adt - t)))
        ds = [np.asarray(x['disp_3d'][i], float) for x in top]
        if kind == 'D':
            o = np.concatenate([ref.observed(d, 'D', c['dim']) for d in ds])
        elif kind == 'J':
            o = ref.observed(np.concatenate(ds, axis=0), 'J', c['dim'])
        else:
            o = np.concatenate([ref.observed(d, 'C', c['dim'], q) for d in ds])
        tot = sum(float(np.asarray(x['n_o'])[i]) for x in top)
        n_ind = tot if kind == 'D' else tot / (c['n'] * (R if kind == 'J' else 1))
        ctx.close(gen.value(a, kind)[j], o.mean(), f'{gen.VALUE[kind]} over the pooled observations', rtol=rt, atol=1e-6 * v.max() if f32 else at * S)
        ctx.close(gen.std(a, kind)[j]**2, np.var(o, ddof=1) / n_ind, 'squared standard deviation over the pooled observations', rtol=max(rt, 1e-6), atol=1e-6 * np.max(o)**2 if f32 else at * S * S)
    ctx.feat('replicas=1' if R == 1 else 'replicas=2' if R == 2 else 'replicas>3' if R > 3 else 'replicas=3')
    if R > 6:
        ctx.feat('replicas>6')
    ctx.count('replicas', R)
    ctx.trivial = R < 2 or np.size(a.dt) < 2
