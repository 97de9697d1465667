"""C22: displacement distributions and the non-Gaussian maximum are the data's own."""
import os

import numpy as np

from .. import boots, gen, ref
from ..core import case_seed, rng_for

ID = 'C22'
RULE = ("'direct' cases hand displacement sets to the uncertainty classes, 'analyzer' cases analyse generated motion by every route; the sorted lengths in dr are compared value by value with the lengths of the displacements "
        "(analyzer cases: of the true motion), and ngp_max with the interval maximising <r^4>/<r^2>^2 of those lengths; non-trivial when at least two intervals are compared")
REQUIRED = ['D', 'J', 'C', 'direct', 'analyzer', 'dim1', 'dim2', 'dim3', 'upper-case', 'sub_sample_dt', 'loaded', 'from_dict', 'fitted', 'identical', 'single-origin', 'molecules', 'logarithmic', 'bootstrap-on', 'block-on',
            'atoms>100', 'one-atom', 'intervals>100', 'windows>200', 'charges', 'peak-first', 'peak-last', 'peak-inside', 'ngp-value', 'lengths>500000'] + list(gen.ROUTES)
ASSUMPTIONS = ['the value of the non-Gaussian parameter is compared for three axes only (its definition for fewer is not documented); intervals whose maxima tie within rounding are not judged']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(1200 if q else 30000):
        r = rng_for(ID, seed, 'd', i)
        out.append(dict(k='direct', s=case_seed(ID, seed, 'd', i), ana='DJC'[i % 3], dim=str(r.choice(boots.DIMS + ['xyz'] * 3)), up=bool(r.random() < .15), ssd=int(r.choice([1, 1, 2, 3])), style=str(r.choice(boots.STYLES)),
                        atoms=int(r.choice([1, 2, 5, 12])) if i % 40 else (120, 300, 1100, 5200)[(i // 40) % 4], peak=str(r.choice(['', 'first', 'last', 'inside'])), un=str(r.choice(['', '', 'bootstrap', 'block'])) if i % 40 else '', big=int(r.choice([0, 300, 1100, 5300])) if i % 25 == 7 else 0, many=int(r.choice([120, 300, 600])) if i % 50 == 9 else 0, huge=i % 150 in (11, 12, 13)))
    for i in range(1000 if q else 25000):
        r = rng_for(ID, seed, 'a', i)
        out.append(dict(k='analyzer', s=case_seed(ID, seed, 'a', i), ana='DJC'[i % 3], dim=str(r.choice(boots.DIMS + ['xyz'] * 3)), up=bool(r.random() < .15), ssd=int(r.choice([1, 1, 2, 3])), route=gen.ROUTES[(i // 3) % 5],
                        steps=str(r.choice(['uniform', 'heavy', 'still', 'ballistic', 'normal'])), n=int(r.choice([2, 3, 6])) if i % 50 != 3 else int(r.choice([150, 600])), F=int(r.choice([8, 15, 40])) if i % 50 != 9 else int(r.choice([150, 300])), reps=int(r.choice([1, 1, 2, 3])) if i % 50 != 13 else int(r.choice([5, 9])), sub=int(r.choice([1, 1, 2])),
                        spacing=str(r.choice(['linear', 'linear', 'logarithmic'])), mol=bool(r.random() < .15), single=bool(r.random() < .15), post=str(r.choice(['', 'load', 'dict', 'fit', 'fit+load']))))
    return out


def lengths(d, dim):
    return np.sort(np.sqrt(np.sum(ref.axes(np.asarray(d, float), dim)**2, axis=-1)).ravel())


def judge(ctx, disps, dts, dim, dr, ngp_max, rtol=1e-9, atol=0., ngp=None, what='dr'):
    """disps, dts: the displacements observed at the reported intervals."""
    ctx.ok(len(dr) == len(disps), f'{len(dr)} displacement distributions for {len(disps)} intervals')
    rat = []
    for j, d in enumerate(disps):
        e = lengths(d, dim)
        g = np.sort(np.asarray(dr[j].samples, float).ravel())
        ctx.ok(g.size == e.size, f'{what}: interval {j} holds {g.size} lengths for {e.size} displacements')
        ctx.close(g, e, f'{what}: lengths at interval {j}', rtol=rtol, atol=atol)
        ctx.count('lengths', e.size)
        rat.append(np.mean(e**4) / np.mean(e**2)**2)
    rat = np.array(rat)
    if not np.all(np.isfinite(rat)):
        return rat
    if ngp is not None and len(dim) == 3:
        ctx.close(ngp, .6 * rat - 1, 'non-Gaussian parameter', rtol=1e-6 if rtol < 1e-6 else 1e-3, atol=1e-9 if rtol < 1e-6 else 1e-3)
        ctx.feat('ngp-value')
    if ngp_max is not None:
        k = int(np.argmin(np.abs(np.asarray(dts) - ngp_max)))
        ctx.ok(abs(dts[k] - ngp_max) <= 1e-9 * abs(ngp_max), 'ngp_max is not one of the reported intervals', got=ngp_max, intervals=dts)
        ctx.ok(rat[k] >= rat.max() * (1 - (1e-9 if rtol < 1e-6 else 1e-4)), 'ngp_max is not the interval with the largest <r^4>/<r^2>^2', got=ngp_max, expected=dts[int(np.argmax(rat))], ratios=rat)
        if rat.size > 2:
            p = int(np.argmax(rat))
            ctx.feat('peak-first' if p == 0 else 'peak-last' if p == rat.size - 1 else 'peak-inside')
    return rat


def run(c, ctx):
    r = rng_for('run', c['s'])
    ctx.feat(c['ana'], c['k'], f'dim{len(c["dim"])}')
    if c['up']:
        ctx.feat('upper-case')
    if c['ssd'] > 1:
        ctx.feat('sub_sample_dt')
    globals()['run_' + c['k']](c, ctx, r, c['ana'], c['dim'], c['dim'].upper() if c['up'] else c['dim'])


def run_direct(c, ctx, r, kind, dim, given):
    n = c['atoms']
    m = int(r.choice([4, 9, 20]))
    if c['many']:
        m, n = c['many'], min(n, 5)
        ctx.feat('intervals>100')
    if c['big']:
        m, n = 4, min(n, 5)
        ctx.feat('windows>200')
    if c['huge']:
        m, n, c['big'] = 4, int(r.choice([1100, 2300])), 480
        ctx.feat('lengths>500000')
    disp = boots.disps(r, n, m, c['style'], max_windows=c['big'] or int(r.choice([8, 25])), min_windows=3)
    if c['style'] == 'integer':
        for d in disp:
            d[0, 0] += 1.
    if c['peak']:
        reach = len(range(0, m, c['ssd'])) // (1 if kind == 'D' else 2)
        if reach > 1:
            j = {'first': 0, 'last': reach - 1, 'inside': reach // 2}[c['peak']] * c['ssd']
            disp[j][:, ::3] *= 40.0
    n_o = r.uniform(3, 50, m) * n
    q = r.choice([-1., 1., 2.], n) if kind == 'C' and r.random() < .5 else 1.0
    if np.ndim(q):
        ctx.feat('charges')
    un = {'': {}, 'bootstrap': dict(bootstrap=True, n_resamples=5, max_resamples=10), 'block': dict(block=True)}[c['un']]
    if un:
        ctx.feat(c['un'] + '-on')
    if n > 100:
        ctx.feat('atoms>100')
    if n == 1:
        ctx.feat('one-atom')
    dts = np.cumsum(r.uniform(.1, 2, m))
    b = boots.make(kind, dts, disp, n_o, q, dimension=given, sub_sample_dt=c['ssd'], **un)
    keep, mean, _ = boots.expected(kind, disp, n_o, dim, q, c['ssd'])
    if not keep:
        ctx.trivial = True
        return
    ctx.close(b.dt, dts[keep], 'intervals', rtol=1e-12)
    judge(ctx, [disp[i] for i in keep], dts[keep], dim, b.euclidian_displacements, None, ngp=b.ngp)
    # the position of the maximum through an analyzer holding this object
    d = dict(delta_t=dts, disp_3d=disp, n_o=n_o, volume=100.0, diff=b.to_dict())
    if kind == 'D':
        d = dict(delta_t=dts, disp_3d=disp, n_o=n_o, volume=100.0, diff=b.to_dict())
    a = gen.analyzer_class(kind).from_dict(d)
    judge(ctx, [disp[i] for i in keep], dts[keep], dim, a.dr, a.ngp_max, what='dr of a restored analyzer')
    ctx.feat('from_dict')
    ctx.trivial = len(keep) < 2


def run_analyzer(c, ctx, r, kind, dim, given):
    route, n, F, R, sub = c['route'], c['n'], c['F'], c['reps'], c['sub']
    kw = dict(time_step=float(r.choice([.1, .1, .002, 4.])), step_skip=int(r.choice([1, 1, 5, 100])), spacing=c['spacing'])
    single = c['single'] and kind == 'D'
    if single:
        kw['sampling'] = 'single-origin'
    L = gen.make_cell(r, 'ortho')
    fw = 3
    if c['mol']:
        tot, sp = 2 * n + fw, ['Li'] * (2 * n) + ['O'] * fw
        kw.update(specie=None, specie_indices=[[2 * j + 1, 2 * j + 2] for j in range(n)])
        fwi = list(range(2 * n, tot))
        ctx.feat('molecules')
    else:
        tot, sp = n + fw, ['Li'] * n + ['O'] * fw
        fwi = list(range(n, tot))
    ts, rel = [], []
    for _ in range(R):
        t = gen.walk(r, tot, F, hop=.2, images='random', species=sp, cell_matrix=L, sub=sub, steps=c['steps'])
        x = t.x
        if c['mol']:
            fr = x @ np.linalg.inv(L)
            fr[:, 1:2 * n:2] = fr[:, 0:2 * n:2] + .02
            t.all_frac, t.all_cells = gen.record(r, fr, t.cells, 'random', sub)
            x = fr @ L
            m = .5 * (x[:, 0:2 * n:2] + x[:, 1:2 * n:2])
        else:
            m = x[:, :n]
        ts.append(t)
        rel.append(m - x[:, fwi].mean(axis=1, keepdims=True))
    with gen.Scratch() as sd:
        data = [gen.present(t, route, sd) for t in ts]
        k2 = gen.parser_kw(route, **kw)
        if sub != 1:
            k2['sub_sample_traj'] = sub
        a = gen.analyze(kind, route, data if R > 1 else data[0], k2, dtype='identical' if R > 1 else None, uncertainty=dict(dimension=given, sub_sample_dt=c['ssd']))
        if np.size(a.dt) == 0:
            ctx.trivial = True
            return
        if 'fit' in c['post'] and np.size(a.dt) >= 4 and not single:
            gen.fit(a, kind, a.dt[0], n_walkers=8, n_samples=20, n_burn=5, thin=2, cond_max=1e6)
            ctx.feat('fitted')
        if 'load' in c['post']:
            a.save(os.path.join(sd, 'k'))
            a = type(a).load(os.path.join(sd, 'k'))
            ctx.feat('loaded')
        elif c['post'] == 'dict':
            a = type(a).from_dict(a.to_dict())
            ctx.feat('from_dict')
    if single:
        ctx.feat('single-origin')
    if R > 1:
        ctx.feat('identical')
    if c['spacing'] != 'linear':
        ctx.feat('logarithmic')
    ctx.feat(route)
    # observed displacements, as the analysis itself stores them, and the true ones
    td = a.to_dict()
    all_dt = np.asarray(td['delta_t'])
    pos = [int(np.argmin(np.abs(all_dt - t))) for t in np.asarray(a.dt)]
    obs = [np.asarray(td['disp_3d'][i], float) for i in pos]
    f32 = route == 'universe'
    at = max(gen.tol(t, route) for t in ts) * 3
    judge(ctx, obs, np.asarray(a.dt), dim, a.dr, a.ngp_max, rtol=1e-5 if f32 else 1e-9, atol=1e-6 if f32 else 1e-12, ngp=None)
    taus = np.round(np.asarray(a.dt) / (kw['time_step'] * kw['step_skip'] * sub)).astype(int)
    for j, tau in enumerate(taus):
        if single:
            full = [w[tau] - w[0] for w in rel] if tau < F else None
            short = [w[tau - 1] - w[0] for w in rel]
            opts = [lengths(np.concatenate(o), dim) for o in (full, short) if o is not None]
        else:
            win = [ref.windows(w, tau) for w in rel]
            first = [w[tau - 1] - w[0] for w in rel]
            opts = [np.sort(np.concatenate([lengths(w, dim) for w in win])), np.sort(np.concatenate([lengths(w, dim) for w in win] + [lengths(w, dim) for w in first]))]
        g = np.sort(np.asarray(a.dr[j].samples, float).ravel())
        fit = [o for o in opts if o.size == g.size]
        ctx.ok(fit, f'{g.size} lengths at an interval of {tau} frames for {R} trajectories of {F} frames and {n} atoms')
        best = min(fit, key=lambda o: np.max(np.abs(o - g)) if o.size else 0)
        ctx.close(g, best, f'dr against the true motion over {tau} frames', rtol=0, atol=at)
    ctx.trivial = len(taus) < 2
