"""C11: the samples of the line follow the GLS posterior of the diffusive regime."""
import numpy as np

from .. import boots, gen, ref
from ..core import case_seed, rng_for

ID = 'C11'
RULE = ("posterior cases compare mean, spread and correlation of the sampled line with the closed-form GLS solution under the reported covariance; 'before' cases change only "
        "data before start_dt and require a bit-identical chain; 'count' cases check sample counts and pairing for unusual sampler settings; 'flat' cases feed curves that do not rise; "
        'a posterior case is non-trivial when the gradient is resolved (6 to 300 standard deviations)')
REQUIRED = ['D', 'J', 'C', 'posterior', 'posterior-resolved', 'posterior-no-intercept', 'posterior-model', 'before', 'before-shorter', 'count', 'flat', 'refit', 'analyzer', 'thin-not-dividing', 'scale-small', 'scale-large',
            'start>0', 'cond<1e16', 'dimension<3', 'intercept-negative', 'count-intercept-only-when-fitted', 'burn', 'burn>samples']
ASSUMPTIONS = ['chains of the default length; agreement is required within 0.3 standard deviations and 25 % of the spread (more than 8 times the observed Monte Carlo error)']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(130 if q else 1600):
        r = rng_for(ID, seed, 'p', i)
        out.append(dict(k='post', s=case_seed(ID, seed, 'p', i), ana='DJC'[i % 3], atoms=int(r.choice([2, 8, 30, 60])), F=int(r.choice([40, 100, 200])), ni=int(r.choice([10, 30, 100])),
                        sc=float(10.0**r.uniform(-1.5, 1.5)), ts=float(10.0**r.uniform(-3.5, 2.5)), model=bool(r.random() < .4), icpt=bool(r.random() < .7), cm=float(r.choice([1e16, 1e16, 1e16, 1e10])),
                        start=float(r.choice([0, 0, .1, .3])), dim=str(r.choice(['xyz', 'xyz', 'xy', 'xz', 'yz', 'x', 'y', 'z'])), off=float(r.choice([0, 0, .5, 2.0])), via=bool(i % 6 == 0), boost=float(r.choice([1, 5, 20] if i % 3 == 0 else [20, 100, 300])), w=5))
    # an execution in which the unbounded optimum has a negative gradient
    out.append(dict(k='post', s=1408903054, ana='D', atoms=60, F=100, ni=30, sc=0.039538333060324345, ts=1.7152367563995687, model=False, icpt=True, cm=1e10, start=.3, dim='z', off=0.0, via=False, boost=1.0, w=5))
    for i in range(60 if q else 700):
        r = rng_for(ID, seed, 'b', i)
        out.append(dict(k='before', s=case_seed(ID, seed, 'b', i), ana='DJC'[i % 3], model=bool(r.random() < .5), icpt=bool(r.random() < .7), cm=float(r.choice([1e16, 1e10, 1e5])), drop=bool(r.random() < .5)))
    for i in range(120 if q else 1500):
        r = rng_for(ID, seed, 'c', i)
        out.append(dict(k='count', s=case_seed(ID, seed, 'c', i), ana='DJC'[i % 3], nw=int(r.choice([4, 6, 10, 32])), ns=int(r.choice([10, 17, 50, 101])), nb=int(r.choice([0, 1, 7, 40])), thin=int(r.choice([1, 2, 3, 7, 10])),
                        icpt=bool(r.random() < .6), via=bool(r.random() < .4)))
    for i in range(6 if q else 60):  # many samples, many walkers
        r = rng_for(ID, seed, 'C', i)
        nw, ns = [(64, 1000), (250, 300), (32, 3500)][i % 3]
        out.append(dict(k='count', s=case_seed(ID, seed, 'C', i), ana='DJC'[(i // 3) % 3], nw=nw, ns=ns, nb=5, thin=1, icpt=bool(r.random() < .6), via=False, w=40))
    for i in range(24 if q else 250):
        out.append(dict(k='flat', s=case_seed(ID, seed, 'f', i), ana='DJC'[i % 3], w=2))
    for i in range(36 if q else 400):
        r = rng_for(ID, seed, 'd', i)
        out.append(dict(k='burn', s=case_seed(ID, seed, 'd', i), ana='DJC'[i % 3], icpt=bool(r.random() < .6), ns=int(r.choice([1, 5, 20, 60])), nb=int(r.choice([0, 1, 30, 100, 300])), via=bool(i % 3 == 0)))
    return out


def walker(r, kind, atoms, F, ni, sc, ts, off=0.0, dim='xyz'):
    x = np.cumsum(r.normal(size=(F, atoms, 3)) * sc, axis=0)
    if off:  # fast local motion: a positive intercept
        x = x + r.normal(size=x.shape) * sc * off
    ks = np.unique(np.linspace(1, F - 1, ni).astype(int))
    disp = [ref.windows(x, k) for k in ks]
    return ks * ts, disp, atoms * ks[-1] / ks


def do_fit(b, kind, start, **kw):
    kw.setdefault('progress', False)
    if kind == 'D':
        b.diffusion(start, **kw)
    elif kind == 'J':
        b.jump_diffusion(start, **kw)
    else:
        b.conductivity(start, 300., 1000., **kw)


def run(c, ctx):
    r = rng_for('run', c['s'])
    kind = c['ana']
    ctx.feat(kind)
    globals()['run_' + c['k']](c, ctx, r, kind)


def run_post(c, ctx, r, kind):
    rs = np.random.RandomState(c['s'] % 10007)
    kw = dict(model=c['model'], fit_intercept=c['icpt'], random_state=rs)
    if c['cm'] != 1e16:
        kw['cond_max'] = c['cm']
        ctx.feat('cond<1e16')
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        n = c['atoms']
        t = gen.walk(r, n, c['F'], 'cubic', .3, 'wrapped', ['Li'] * n, steps='normal')
        a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=float(round(c['ts'], 4)), n_steps=c['ni']), uncertainty=dict(dimension=c['dim']))
        start = a.dt[int(c['start'] * a.dt.size)]
        if c['s'] % 2 == 0:
            gen.fit(a, kind, a.dt[0], n_samples=20, n_burn=5)
            ctx.feat('refit')
        gen.fit(a, kind, start, **kw)
        dt, y, cov = np.asarray(a.dt), gen.value(a, kind), np.asarray(a.to_dict()['diff']['covariance_matrix'])
        dist = np.asarray(a.distribution)
        g = (dist[-1] - dist[0]) / (dt[-1] - dt[0])
        b0 = a.intercept
        ctx.feat('analyzer')
    else:
        dts, disp, n_o = walker(r, kind, c['atoms'], c['F'], c['ni'], c['sc'], c['ts'], c['off'])
        n_o = n_o * c['boost']
        b = boots.make(kind, dts, disp, n_o, 1.0, dimension=c['dim'])
        start = b.dt[int(c['start'] * b.dt.size)]
        do_fit(b, kind, start, **kw)
        dt, y, cov = np.asarray(b.dt), np.asarray(b.n), np.asarray(b.covariance_matrix)
        g, b0 = b.gradient.samples, b.intercept
    reg = dt >= start
    ctx.ok((b0 is not None) == c['icpt'], 'intercept reported if and only if it was fitted')
    ctx.ok(g.size == 32 * 100, f'{g.size} samples with the default settings')
    ctx.ok(np.all(g >= -1e-9 * np.abs(g).max()), 'negative gradient sampled', lowest=g.min())
    m, C = ref.gls(dt[reg], y[reg], cov, c['icpt'])
    s = np.sqrt(np.diag(C))
    ctx.feat('posterior')
    ctx.count('chains')
    if not (np.all(np.isfinite(s)) and 6 < m[0] / s[0] < 300):
        ctx.trivial = True
        ctx.count('unresolved')
        return
    ctx.data['dev'] = [float((g.mean() - m[0]) / s[0]), float(g.std() / s[0])]
    ctx.ok(abs(g.mean() - m[0]) < .3 * s[0], 'mean gradient differs from generalised least squares', got=g.mean(), expected=m[0], std=s[0])
    ctx.ok(.75 < g.std() / s[0] < 1.3, 'spread of the gradient differs from generalised least squares', got=g.std(), expected=s[0])
    if c['icpt']:
        q = b0.samples
        ctx.ok(abs(q.mean() - m[1]) < .3 * s[1], 'mean intercept differs from generalised least squares', got=q.mean(), expected=m[1], std=s[1])
        ctx.ok(.75 < q.std() / s[1] < 1.3, 'spread of the intercept differs from generalised least squares', got=q.std(), expected=s[1])
        rho = C[0, 1] / s[0] / s[1]
        got = np.corrcoef(g, q)[0, 1]
        ctx.ok(abs(np.arctanh(np.clip(got, -.9999, .9999)) - np.arctanh(np.clip(rho, -.9999, .9999))) < .35, 'correlation of gradient and intercept', got=got, expected=rho)
        if m[1] < 0:
            ctx.feat('intercept-negative')
    else:
        ctx.feat('posterior-no-intercept')
    ctx.feat('posterior-resolved')
    for cond, f in ((c['model'], 'posterior-model'), (start > dt[0], 'start>0'), (c['sc'] < .1, 'scale-small'), (c['sc'] > 8, 'scale-large'), (len(c['dim']) < 3, 'dimension<3')):
        if cond:
            ctx.feat(f)


def run_before(c, ctx, r, kind):
    """Same data from start_dt on, arbitrary data before: the chain must be the same, sample by sample."""
    dts, disp, n_o = walker(r, kind, 6, 60, 24, float(r.choice([1., 1., .02, 30.])), float(r.choice([.5, .5, 2e-4, 1e-3, 40.])))
    half = len(disp) if kind == 'D' else len(disp) // 2
    p = int(r.integers(1, half // 2 + 1))
    start = dts[p] if r.random() < .5 else dts[p] - float(r.choice([.02, .2, .7, .95])) * (dts[p] - dts[p - 1])
    other = [d * float(r.uniform(.2, 5)) + r.normal(size=d.shape) if i < p else d for i, d in enumerate(disp)]
    n2 = np.where(np.arange(len(n_o)) < p, n_o * r.uniform(.3, 3, len(n_o)), n_o)
    d2 = dts
    if c['drop'] and kind == 'D':  # the earlier intervals not even present
        q = int(r.integers(1, p + 1))
        other, n2, d2 = other[q:], n2[q:], dts[q:]
        ctx.feat('before-shorter')
    kw = dict(model=c['model'], fit_intercept=c['icpt'], cond_max=c['cm'], n_samples=60, n_burn=20)
    out = []
    for dd, di, nn in ((dts, disp, n_o), (d2, other, n2)):
        b = boots.make(kind, dd, di, nn, 1.0)
        do_fit(b, kind, start, random_state=np.random.RandomState(c['s'] % 9973), **kw)
        out.append(b)
    ctx.same(out[1].gradient.samples, out[0].gradient.samples, 'gradient samples after changing data before start_dt')
    ctx.same(out[1].covariance_matrix, out[0].covariance_matrix, 'covariance matrix after changing data before start_dt')
    if c['icpt']:
        ctx.same(out[1].intercept.samples, out[0].intercept.samples, 'intercept samples after changing data before start_dt')
    ctx.feat('before')


def run_count(c, ctx, r, kind):
    kw = dict(n_walkers=c['nw'], n_samples=c['ns'], n_burn=c['nb'], thin=c['thin'])
    N = c['nw'] * (c['ns'] // c['thin'])
    if N == 0:
        ctx.trivial = True
        return
    seq = [c['icpt'], not c['icpt']] if r.random() < .5 else [c['icpt']]
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 4, 25, 'cubic', .2, 'wrapped', ['Li'] * 4)
        a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1))
    else:
        dts, disp, n_o = walker(r, kind, 5, 40, 16, 1.0, .5)
        b = boots.make(kind, dts, disp, n_o, 1.0)
    for ic in seq:
        if c['via']:
            gen.fit(a, kind, a.dt[1], fit_intercept=ic, **kw)
            co, b0 = gen.coef(a, kind).samples, a.intercept
            fc = np.asarray(a.flatchain)
            ctx.ok(fc.shape == (N, 2 if ic else 1), f'flatchain of shape {fc.shape} for {N} samples')
            ctx.same(fc[:, 0], co, 'first column of flatchain')
            dist = np.asarray(a.distribution)
            ctx.ok(dist.shape == (np.size(a.dt), N), f'distribution of shape {dist.shape}')
            g = a.to_dict()['diff']['gradient']['samples']
        else:
            do_fit(b, kind, b.dt[1], fit_intercept=ic, **kw)
            g, b0 = b.gradient.samples, b.intercept
            fc = np.asarray(b.flatchain)
            ctx.ok(fc.shape == (N, 2 if ic else 1), f'flatchain of shape {fc.shape} for {N} samples')
            ctx.same(fc[:, 0], g, 'gradient samples against the chain')
            ctx.same({'D': b.D, 'J': b.D_J, 'C': b.sigma}[kind].samples.size, N, 'number of samples of the coefficient')
        ctx.ok(g.size == N, f'{g.size} gradient samples, expected {N}')
        ctx.ok((b0 is not None) == ic, 'intercept reported if and only if it was fitted')
        if ic:
            ctx.same(fc[:, 1], b0.samples, 'intercept samples against the chain')
        else:
            ctx.feat('count-intercept-only-when-fitted')
        ctx.ok(np.all(g >= 0), 'negative gradient sampled')
    ctx.feat('count')
    if len(seq) > 1:
        ctx.feat('refit')
    if c['ns'] % c['thin']:
        ctx.feat('thin-not-dividing')


def run_burn(c, ctx, r, kind):
    """Exactly the first n_burn steps are discarded: with equal random_state the samples are the tail of a run without burn-in."""
    ns, nb, nw = c['ns'], c['nb'], int(r.choice([4, 8]))
    out = []
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 4, 25, 'cubic', .2, 'wrapped', ['Li'] * 4)
        a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1))
    else:
        dts, disp, n_o = walker(r, kind, 5, 40, 16, 1.0, .5)
        a = boots.make(kind, dts, disp, n_o, 1.0)
    for n, b in ((ns, nb), (ns + nb, 0)):
        kw = dict(n_samples=n, n_burn=b, n_walkers=nw, thin=1, fit_intercept=c['icpt'], random_state=np.random.RandomState(c['s'] % 9973))
        if c['via']:
            gen.fit(a, kind, a.dt[1], **kw)
            out.append(np.asarray(a.to_dict()['diff']['gradient']['samples']))
        else:
            do_fit(a, kind, a.dt[1], **kw)
            out.append(np.asarray(a.gradient.samples))
    ctx.ok(out[0].size == nw * ns, f'{out[0].size} samples for {nw} walkers and {ns} steps')
    ctx.same(out[0], out[1][-nw * ns:], f'samples after {nb} steps of burn-in against the last {ns} steps of a run without')
    ctx.feat('burn')
    if nb > ns:
        ctx.feat('burn>samples')


def run_flat(c, ctx, r, kind):
    """Curves that do not rise (caged ions): gradients stay non-negative and finite."""
    x = r.normal(size=(60, 6, 3))
    ks = np.arange(1, 40, 2)
    disp = [ref.windows(x, k) for k in ks]
    b = boots.make(kind, ks * .5, disp, 6 * ks[-1] / ks, 1.0)
    do_fit(b, kind, b.dt[1], n_samples=100, n_burn=100)
    g = b.gradient.samples
    ctx.ok(np.all(np.isfinite(g)) and np.all(g >= 0), 'negative or non-finite gradient for a curve that does not rise', lowest=g.min())
    ctx.feat('flat')


def finish(results, ctx, tier):
    d = np.array([x['data']['dev'] for x in results if x['data'].get('dev')])
    ctx.count('resolved_chains', len(d))
    if len(d):
        ctx.count('worst_mean_deviation_permille', 1000 * np.abs(d[:, 0]).max())
        ctx.count('worst_spread_deviation_permille', 1000 * np.abs(d[:, 1] - 1).max())
