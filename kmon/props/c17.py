"""C17: Arrhenius and VTF relations."""
import copy

import numpy as np
from scipy import constants as K

from ..core import case_seed, rng_for

ID = 'C17'
RULE = ("'law' cases evaluate the relation and every posterior sample's curve against A exp(-Ea/(kB (T - T0))) from CODATA constants; 'bounds' cases build sequences of objects and watch the bounds given, used and sampled; "
        "'fit' cases fit data generated by the law and compare maximum-likelihood and sampled parameters with the generating ones in units of the closed-form uncertainty; non-trivial always")
REQUIRED = ['standard', 'super', 'law', 'bounds', 'fit', 'sampled', 'unsorted', 'scalar', 'array', 'as-distributions', 'as-errors', 'as-frozen', 'default-bounds', 'bounds-list', 'bounds-tuple', 'upper-None', 'lower>0', 'sequence', 'extrapolate-outside',
            'truncated', 'one-temperature', 'T0-bound-above-data', 'descending', 'int-temperature']
ASSUMPTIONS = ['likelihood optimisation and sampling are done by uravu, whose kernel-density likelihood broadens the data slightly; recovered parameters are required within 3 closed-form standard deviations (observed: below 1) '
               'for data without noise and well-determined parameters']
KB = K.k / K.e


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(600 if q else 8000):
        out.append(dict(k='law', s=case_seed(ID, seed, 'l', i), sup=bool(i % 2)))
    for i in range(300 if q else 4000):
        out.append(dict(k='bounds', s=case_seed(ID, seed, 'b', i), sup=bool(i % 3)))
    for i in range(72 if q else 900):
        out.append(dict(k='fit', s=case_seed(ID, seed, 'f', i), sup=bool(i % 2), mc=i % 3 == 0, trunc=i % 8 in (4, 5), w=9 if i % 3 == 0 else 4))
    return out


def law(T, Ea, A, T0=0.0):
    return A * np.exp(-Ea / (KB * (T - T0)))


def build(r, T, y, e, sup, ctx, bounds=None, size=300):
    from kinisi import arrhenius
    from scipy import stats
    from uravu.distribution import Distribution
    cls = arrhenius.SuperArrhenius if sup else arrhenius.StandardArrhenius
    kw = {} if bounds is None else dict(bounds=bounds)
    how = int(r.integers(0, 3)) if size is None else 0
    if how == 0:
        ctx.feat('as-distributions')
        n = size or 200
        q = stats.norm.ppf((np.arange(n) + .5) / n)
        return cls(T, [Distribution(a + b * r.permutation(q)) for a, b in zip(y, e)], **kw)
    if how == 1:
        ctx.feat('as-errors')
        return cls(T, y, diffusion_error=e, **kw)
    ctx.feat('as-frozen')
    return cls(T, [stats.norm(a, b) for a, b in zip(y, e)], **kw)


def temps(r, ctx, lo=200.):
    n = int(r.integers(1, 9))
    T = r.uniform(lo, 1500, n)
    u = r.random()
    if u < .4:
        T = np.sort(T)
    elif u < .7:
        T = np.sort(T)[::-1].copy()
        ctx.feat('descending')
    else:
        ctx.feat('unsorted')
    if n == 1:
        ctx.feat('one-temperature')
    if r.random() < .2:
        T = np.round(T).astype(int)
        ctx.feat('int-temperature')
    return T


def run(c, ctx):
    ctx.feat('super' if c['sup'] else 'standard', c['k'])
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


def run_law(c, ctx, r):
    from kinisi import arrhenius
    sup = c['sup']
    T = temps(r, ctx)
    Ea, A = float(r.uniform(0, 1.5)), float(10.0**r.uniform(-8, 3))
    T0 = float(r.uniform(0, 150)) if sup else 0.0
    f = arrhenius.super_arrhenius if sup else arrhenius.arrhenius
    p = (Ea, A, T0) if sup else (Ea, A)
    if r.random() < .3:
        ctx.close(f(float(T[0]), *p), law(float(T[0]), *p), 'the relation at one temperature', rtol=1e-7)
        ctx.feat('scalar')
    ctx.close(f(T, *p), law(T, *p), 'the relation', rtol=1e-7)
    ctx.feat('array')
    y = law(T, .2, 1e-3)
    hi = float(np.min(T)) - 20 if r.random() < .5 else float(np.min(T)) * float(r.choice([.05, .2, .6]))
    b = ((float(r.uniform(0, .1)), float(r.uniform(.3, 1))), (float(10.0**r.uniform(-6, -4)), float(10.0**r.uniform(-3, 2))))
    if sup:
        b = b + ((float(r.uniform(0, min(20, hi / 2))), hi), )
    o = build(r, T, y, .1 * y, sup, ctx, b)
    fc = np.asarray(o.flatchain)
    ctx.ok(fc.ndim == 2 and fc.shape[1] == len(b) and fc.shape[0] > 1, f'flatchain of shape {fc.shape}')
    par = [fc[:, j] for j in range(fc.shape[1])]
    ctx.same(np.asarray(o.activation_energy.samples), fc[:, 0], 'activation_energy')
    ctx.same(np.asarray(o.preexponential_factor.samples), fc[:, 1], 'preexponential_factor')
    if sup:
        ctx.same(np.asarray(o.T0.samples), fc[:, 2], 'T0')
    exp = np.array([law(float(t), *par) for t in T])
    ctx.close(o.distribution, exp, 'distribution, sample by sample', rtol=1e-7)
    if not sup:
        hi = 0.0
    far = float(hi + 10.0**r.uniform(0, 5))
    near = float(hi + 10.0**r.uniform(0, 2))
    for t in (float(T[0]), float(T.max() * r.uniform(1, 2)), float(hi + r.uniform(1, 19)), int(T.max()) + 1, far, near):
        ctx.close(o.extrapolate(t), law(t, *par), 'extrapolate, sample by sample', rtol=1e-7, temperature=t)
    ctx.feat('extrapolate-outside')
    ctx.count('curves', fc.shape[0] * (len(T) + 4))


def run_bounds(c, ctx, r):
    """A sequence of objects; each has its own bounds whatever came before."""
    sup = c['sup']
    for k in range(int(r.integers(1, 5))):
        T = temps(r, ctx)
        y = law(T.astype(float), .2, 1e-3)
        mode = str(r.choice(['default', 'tuple', 'list', 'none'])) if sup else str(r.choice(['default', 'tuple', 'list']))
        lim = [(0.0 if r.random() < .5 else float(r.uniform(0, .1)), float(r.uniform(.3, 2))), (float(r.choice([0, 1e-9, 1e-5])), float(10.0**r.uniform(-2, 5)))]
        if mode == 'default':
            given, want = None, [(0, 1), (0, 1e20)]
            if sup:
                want = want + [(0, T[0])]
            ctx.feat('default-bounds')
        else:
            if sup:
                lo = float(r.choice([0, 10, 77.5]))
                if lo > 0:
                    ctx.feat('lower>0')
                up = None if mode == 'none' else float(r.uniform(90, 190))
                if up is not None and r.random() < .3:  # wherever the caller puts it
                    up = float(r.uniform(190, 1.2 * T.max()))
                    ctx.feat('T0-bound-above-data' if up > T.min() else 'T0-bound-high')
                if up is None:
                    ctx.feat('upper-None')
                lim.append((lo, up))
            given = tuple(lim) if mode == 'tuple' or (mode == 'none' and r.random() < .5) else list(lim)
            want = list(lim)
            if sup and want[2][1] is None:
                want[2] = (want[2][0], T[0])
            ctx.feat('bounds-list' if isinstance(given, list) else 'bounds-tuple')
        before = copy.deepcopy(given)
        o = build(r, T, y, .1 * y, sup, ctx, given, size=None if r.random() < .3 else 50)
        ctx.ok(given == before and type(given) is type(before), 'the bounds passed in were altered', given=given, before=before)
        got = [tuple(float(v) for v in q) for q in o.bounds]
        ctx.ok(got == [tuple(float(v) for v in q) for q in want], 'bounds used', got=got, expected=want, object=k)
        fc = np.asarray(o.flatchain)
        for j, (a, b) in enumerate(want):
            ctx.ok(np.all((fc[:, j] >= a) & (fc[:, j] <= b)), f'starting values of parameter {j} outside the bounds')
        pr = o.prior()
        for j, (a, b) in enumerate(want):
            w = float(b) - float(a)
            x = np.array([a - .01 * w, a + 1e-6 * w, .5 * (float(a) + float(b)), b - 1e-6 * w, b + .01 * w], float)
            ctx.ok(list(np.isfinite(pr[j].logpdf(x))) == [False, True, True, True, False], f'prior of parameter {j} does not cover exactly the bounds', bounds=(a, b))
        # the data given are the data used
        m = np.asarray(o.y.n, float)
        ctx.ok(np.all(np.abs(m - y) < .02 * y), 'diffusion coefficients used differ from those given', got=m, expected=y)
        sd = np.array([np.std(q.samples) for q in o.y.values])
        ctx.ok(np.all((sd > .06 * y) & (sd < .14 * y)), 'uncertainties used differ from those given', got=sd, expected=.1 * y)
        ctx.ok(np.all(np.asarray(o.x) == T), 'temperatures used differ from those given')
        if k:
            ctx.feat('sequence')
        ctx.count('objects')


def run_fit(c, ctx, r):
    sup = c['sup']
    n = int(r.integers(4, 8))
    A = float(10.0**r.uniform(-5, -2))
    if sup:
        T0 = float(r.uniform(100, 250))
        T = T0 + np.geomspace(40, 600, n) * r.uniform(.9, 1.1, n)
        p = np.array([r.uniform(.03, .1), A, T0])
        e = r.uniform(.02, .06, n)
    else:
        T = np.sort(r.uniform(300, 1000, n))
        T[0], T[-1] = T[0] - 50, T[-1] + 100
        p = np.array([r.uniform(.05, .5), A])
        e = r.uniform(.03, .1, n)
    y = law(T, *p)
    bounds = [(0, 1), (A / 30, A * 30)] + ([(0, float(T.min()) - 5)] if sup else [])
    # closed-form uncertainty of the parameters
    J = np.stack([-1 / (KB * (T - (p[2] if sup else 0))), np.full(n, 1 / p[1])] + ([-p[0] / (KB * (T - p[2])**2)] if sup else []), 1) / e[:, None]
    sd = np.sqrt(np.diag(np.linalg.inv(J.T @ J)))
    if c['trunc']:  # the truth lies outside the bounds on the activation energy
        bounds[0] = (p[0] + 2 * sd[0], 1)
        ctx.feat('truncated')
    order = r.permutation(n) if r.random() < .5 else np.arange(n)
    o = build(r, T[order], y[order], (e * y)[order], sup, ctx, tuple(bounds))
    o.max_likelihood('diff_evo', seed=int(c['s'] % 2**31))
    ml = np.asarray(o.variable_medians, float)
    for j, (a, b) in enumerate(bounds):
        ctx.ok(a - 1e-12 <= ml[j] <= b + 1e-12 * abs(b), f'maximum-likelihood parameter {j} outside the bounds', value=ml[j], bounds=(a, b))
    if not c['trunc']:
        z = (ml - p) / sd
        ctx.ok(np.all(np.abs(z) < 3), 'maximum-likelihood parameters differ from those that generated the data', got=ml, expected=p, deviation=z)
        ctx.data['ml'] = float(np.abs(z).max())
        ctx.ok(np.all(np.abs(law(T, *ml) / y - 1) < 3 * e), 'fitted curve is not within the uncertainty of the data')
    if c['mc'] and not c['trunc']:  # uravu starts walkers outside a bound that cuts the posterior and may leave them there
        o.mcmc(walkers=8, n_samples=60, n_burn=40, progress=False)
        fc = np.asarray(o.flatchain)
        ctx.ok(fc.shape == (480, len(p)), f'flatchain of shape {fc.shape} for 8 x 60 samples')
        for j, (a, b) in enumerate(bounds):
            ctx.ok(np.all((fc[:, j] >= a) & (fc[:, j] <= b)), f'sampled parameter {j} outside the bounds', lowest=fc[:, j].min(), highest=fc[:, j].max(), bounds=(a, b))
        par = [fc[:, j] for j in range(fc.shape[1])]
        ctx.close(o.distribution, np.array([law(t, *par) for t in np.asarray(o.x)]), 'distribution after sampling', rtol=1e-7)
        t = float(T.max() + 100)
        ctx.close(o.extrapolate(t), law(t, *par), 'extrapolate after sampling', rtol=1e-7)
        z = (fc.mean(0) - p) / sd
        ctx.ok(np.all(np.abs(z) < 3), 'sampled parameters differ from those that generated the data', got=fc.mean(0), expected=p, deviation=z)
        s = fc.std(0) / sd
        ctx.ok(np.all((s > .25) & (s < 5)), 'spread of the sampled parameters', got=fc.std(0), expected=sd)
        ctx.data['mc'] = [float(np.abs(z).max()), float(s.min()), float(s.max())]
        ctx.feat('sampled')


def finish(results, ctx, tier):
    ml = [x['data']['ml'] for x in results if 'ml' in x['data']]
    mc = np.array([x['data']['mc'] for x in results if 'mc' in x['data']])
    ctx.count('fits', len(ml))
    if len(ml):
        ctx.count('worst_ml_deviation_permille', 1000 * max(ml))
    if len(mc):
        ctx.count('worst_mcmc_deviation_permille', 1000 * mc[:, 0].max())
        ctx.count('lowest_mcmc_spread_permille', 1000 * mc[:, 1].min())
        ctx.count('highest_mcmc_spread_permille', 1000 * mc[:, 2].max())
