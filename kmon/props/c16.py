"""C16: posterior predictive samples combine parameter and data uncertainty; distribution is the sampled lines."""
import os

import numpy as np

from .. import boots, gen
from ..core import case_seed, rng_for
from .c11 import do_fit, walker

ID = 'C16'
RULE = ("'moments' cases draw thousands of predictive rows and compare their mean and full covariance, in the coordinates that whiten the reported covariance, with those of the sampled lines plus noise of the "
        "reported covariance; 'shape' cases check the number of rows and columns for unusual requests; 'ident' cases load a fit whose sampled lines are well separated and attribute every predictive row to the line it was drawn from; 'lines' cases compare distribution with gradient x interval + intercept sample by sample; non-trivial always")
REQUIRED = ['D', 'J', 'C', 'moments', 'shape', 'lines', 'ident', 'fewer-than-chain', 'more-than-chain', 'no-intercept', 'start>0', 'start-between', 'analyzer', 'direct', 'loaded', 'from-dict', 'default-posterior', 'default-predictive', 'predictive=1', 'predictive>1', 'refit', 'model', 'cond<1e16',
            'resolved-pairing', 'sub_sample_dt', 'dimension<3', 'start-type', 'intervals>100']
ASSUMPTIONS = ['tolerance on moments: 9 standard errors of the Gaussian sampling theory plus 1 %; components of the noise below 1e-9 of the largest eigenvalue are not examined']
FAST = dict(n_walkers=8, n_samples=30, n_burn=10, thin=3)


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(150 if q else 1800):
        r = rng_for(ID, seed, 'm', i)
        out.append(dict(k='moments', s=case_seed(ID, seed, 'm', i), ana='DJC'[i % 3], icpt=bool(r.random() < .75), model=bool(r.random() < .3), cm=float(r.choice([1e16, 1e10, 1e4])), start=float(r.choice([0, .2, .5])), via=str(r.choice(['direct', 'analyzer', 'dict', 'file'])),
                        npred=int(r.choice([1, 1, 2, 5])), dim=str(r.choice(boots.DIMS)), ssd=int(r.choice([1, 1, 2])), w=3))
    for i in range(6 if q else 90):
        r = rng_for(ID, seed, 'M', i)
        out.append(dict(k='moments', s=case_seed(ID, seed, 'M', i), ana='DJC'[i % 3], icpt=True, model=bool(r.random() < .3), cm=float(r.choice([1e16, 1e10, 1e4])), start=0., via='direct', npred=6, dim='xyz', ssd=1, many=True, w=12))
    for i in range(160 if q else 2000):
        r = rng_for(ID, seed, 's', i)
        out.append(dict(k='shape', s=case_seed(ID, seed, 's', i), ana='DJC'[i % 3], icpt=bool(r.random() < .6), start=float(r.choice([0, .2, .5])), via=str(r.choice(['direct', 'analyzer', 'dict', 'file'])), dim=str(r.choice(boots.DIMS)), ssd=int(r.choice([1, 1, 2]))))
    for i in range(240 if q else 3000):
        r = rng_for(ID, seed, 'l', i)
        out.append(dict(k='lines', s=case_seed(ID, seed, 'l', i), ana='DJC'[i % 3], icpt=bool(r.random() < .6), start=float(r.choice([0, .2, .5])), via=str(r.choice(['analyzer', 'dict', 'file'])), dim=str(r.choice(boots.DIMS)), ssd=int(r.choice([1, 1, 2]))))
    for i in range(120 if q else 1500):
        r = rng_for(ID, seed, 'i', i)
        out.append(dict(k='ident', s=case_seed(ID, seed, 'i', i), ana='DJC'[i % 3], icpt=bool(r.random() < .7), start=float(r.choice([0, .2, .5])), via=str(r.choice(['direct', 'analyzer'])), npost=str(r.choice(['third', 'all', 'triple', 'default'])), npred=int(r.choice([1, 2, 3])),
                        n=int(r.choice([40, 300, 1000, 3000])), dim=str(r.choice(boots.DIMS)), ssd=1))
    return out


def prepare(c, ctx, r, **kw):
    """A fitted object; returns (predict, dt, start, gradient, intercept or None, covariance, analyzer or None)."""
    kind = c['ana']
    un = dict(dimension=c['dim'], sub_sample_dt=c['ssd'])
    ctx.feat(kind)
    if c['ssd'] > 1:
        ctx.feat('sub_sample_dt')
    if len(c['dim']) < 3:
        ctx.feat('dimension<3')
    refit = r.random() < .3
    if c['via'] == 'direct':
        fr, ns = (60, 30) if not c.get('many') else (320, 300)
        dts, disp, n_o = walker(r, kind, int(r.integers(2, 30)), fr, ns, float(10.0**r.uniform(-1, 1)), float(10.0**r.uniform(-2, 1)))
        b = boots.make(kind, dts, disp, n_o, 1.0, **un)
        start = pick(b.dt, c, r, ctx)
        if refit:
            do_fit(b, kind, b.dt[0], fit_intercept=not c['icpt'], **FAST)
            ctx.feat('refit')
        do_fit(b, kind, start, fit_intercept=c['icpt'], **kw)
        ctx.feat('direct')
        return lambda **k: b.posterior_predictive(progress=False, **k), np.asarray(b.dt), start, b.gradient.samples, None if b.intercept is None else b.intercept.samples, np.asarray(b.covariance_matrix), None
    be = str(r.choice(gen.ROUTES))
    n = int(r.integers(2, 20))
    t = gen.walk(r, n, 60, 'cubic', .2, 'wrapped', ['Li'] * n, steps='normal')
    a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1, n_steps=30), uncertainty=un)
    start = pick(a.dt, c, r, ctx)
    if refit:
        gen.fit(a, kind, a.dt[0], fit_intercept=not c['icpt'], **FAST)
        ctx.feat('refit')
    gen.fit(a, kind, start, fit_intercept=c['icpt'], **kw)
    d = a.to_dict()['diff']
    g, b0, cov = d['gradient']['samples'], None if d['intercept'] is None else d['intercept']['samples'], np.asarray(d['covariance_matrix'])
    if c['via'] == 'dict':
        a = type(a).from_dict(a.to_dict())
        ctx.feat('from-dict')
    elif c['via'] == 'file':
        with gen.Scratch() as sd:
            a.save(os.path.join(sd, 'x'))
            a = type(a).load(os.path.join(sd, 'x'))
        ctx.feat('loaded')
    else:
        ctx.feat('analyzer')
    return lambda **k: a.posterior_predictive(dict(progress=False, **k)), np.asarray(a.dt), start, g, b0, cov, a


def pick(dt, c, r, ctx):
    i = int(c['start'] * len(dt))
    s = dt[i]
    if i:
        ctx.feat('start>0')
        if r.random() < .4:
            s = float(dt[i] - float(r.choice([.02, .3, .6, .95])) * (dt[i] - dt[i - 1]))
            ctx.feat('start-between')
    u = r.random()
    if u < .15:
        ctx.feat('start-type')
        return float(s)
    return s


def run(c, ctx):
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


def run_moments(c, ctx, r):
    kw = dict(model=c['model'], cond_max=c['cm'])
    if c.get('many'):
        kw.update(n_samples=200, n_burn=100)
    if c['via'] == 'file':
        kw.update(n_samples=300, n_burn=200)
    predict, dt, start, g, b0, cov, _ = prepare(c, ctx, r, **kw)
    np.random.seed(c['s'] % 2**31)
    NP, Q = (500, 6) if c.get('many') else (4000, c['npred'])
    rows = np.asarray(predict(n_posterior_samples=NP, n_predictive_samples=Q))
    t = dt[dt >= start]
    if t.size > 100:
        ctx.feat('intervals>100')
    ctx.ok(rows.shape == (NP * Q, t.size), f'posterior predictive of shape {rows.shape}, expected {(NP * Q, t.size)}')
    ctx.ok((b0 is not None) == c['icpt'], 'intercept present if and only if fitted')
    ctx.ok(np.all(np.isfinite(rows)), 'non-finite predictive samples')
    lines = g[:, None] * t + (0 if b0 is None else b0[:, None])
    w, V = np.linalg.eigh(cov)
    keep = w > w.max() * 1e-9
    W = V[:, keep] / np.sqrt(w[keep])
    L = (lines - lines.mean(0)) @ W
    CL = L.T @ L / len(L)
    S = np.eye(keep.sum()) + CL
    y = (rows - lines.mean(0)) @ W
    se = np.sqrt(np.diag(CL) / NP + 1.0 / (NP * Q))
    z = y.mean(0) / se
    ctx.ok(np.all(np.abs(z) < 9), 'mean of the predictive samples differs from the mean line', worst=np.abs(z).max(), expected=lines.mean(0), got=rows.mean(0))
    Sg = y.T @ y / len(y)
    n_eff = NP if Q > 1 else NP * Q
    lim = 9 * np.sqrt((np.outer(np.diag(S), np.diag(S)) + S**2) / n_eff) + .01 * np.sqrt(np.outer(np.diag(S), np.diag(S)))
    e = np.abs(Sg - S)
    i = np.unravel_index(np.argmax(e / lim), e.shape)
    ctx.count('values_compared', S.size + z.size)
    ctx.count('rows', len(rows))
    ctx.ok(np.all(e <= lim), 'covariance of the predictive samples is not that of the lines plus the reported covariance', whitened_got=Sg[i], whitened_expected=S[i], limit=lim[i])
    # the parameters of the sampled lines in the plane they span: independent draws of gradient and intercept would show here
    if c['icpt'] and t.size > 3:
        A = (np.stack([t, np.ones_like(t)], 1).T @ W).T
        P = np.linalg.pinv(A)
        p = y @ P.T
        th = np.stack([g, b0], 1)
        Cth = np.cov(th.T, ddof=0)
        Cn = P @ P.T
        E = Cth + Cn
        G = p.T @ p / len(p)
        sc = np.sqrt(np.diag(E))
        lim = 9 * np.sqrt((np.outer(np.diag(E), np.diag(E)) + E**2) / n_eff) / np.outer(sc, sc) + .01
        d = np.abs(G - E) / np.outer(sc, sc)
        ctx.ok(np.all(d <= lim), 'gradient and intercept of the predictive lines are not drawn together', got=G, expected=E, relative=d)
        if abs(Cth[0, 1]) / sc[0] / sc[1] > 2 * lim[0, 1]:
            ctx.feat('resolved-pairing')
    for cond, f in ((not c['icpt'], 'no-intercept'), (c['model'], 'model'), (c['cm'] < 1e16, 'cond<1e16'), (Q == 1, 'predictive=1'), (Q > 1, 'predictive>1')):
        if cond:
            ctx.feat(f)
    ctx.feat('moments')


def run_shape(c, ctx, r):
    predict, dt, start, g, b0, cov, _ = prepare(c, ctx, r, **FAST)
    m = int((dt >= start).sum())
    a, b = int(r.choice([1, 2, 7, 100])), int(r.choice([1, 2, 9, 40]))
    x = np.asarray(predict(n_posterior_samples=a, n_predictive_samples=b))
    ctx.ok(x.shape == (a * b, m), f'{x.shape} rows and columns for {a} x {b} samples over {m} intervals')
    x = np.asarray(predict(n_predictive_samples=b))
    ctx.ok(x.shape == (g.size * b, m), f'{x.shape} rows and columns for all {g.size} posterior x {b} samples')
    ctx.feat('default-posterior')
    if a < 50:
        x = np.asarray(predict(n_posterior_samples=a))
        ctx.ok(x.shape == (a * 256, m), f'{x.shape} rows and columns for {a} x default samples')
        ctx.feat('default-predictive')
    ctx.ok(np.unique(x, axis=0).shape[0] == x.shape[0], 'repeated predictive samples')
    ctx.feat('shape')
    if not c['icpt']:
        ctx.feat('no-intercept')


def run_lines(c, ctx, r):
    predict, dt, start, g, b0, cov, a = prepare(c, ctx, r, **FAST)
    for _ in range(2):
        d = np.asarray(a.distribution)
        e = dt[:, None] * g[None, :]
        if b0 is not None:
            e = e + b0[None, :]
            sc = np.abs(dt[:, None] * g[None, :]) + np.abs(b0[None, :])
        else:
            sc = np.abs(e)
        ctx.close(d, e, 'distribution against gradient x interval + intercept', rtol=0, atol=1e-12 * sc + 1e-300)
        predict(n_posterior_samples=2, n_predictive_samples=2)
    ctx.ok((b0 is not None) == c['icpt'], 'intercept present if and only if fitted')
    ctx.feat('lines')
    if not c['icpt']:
        ctx.feat('no-intercept')


def run_ident(c, ctx, r):
    """A chain of well separated lines and a scaled-down covariance: each predictive row names the sample it came from."""
    from uravu.distribution import Distribution
    kind, N = c['ana'], c['n']
    if c['via'] == 'direct':
        dts, disp, n_o = walker(r, kind, int(r.integers(2, 30)), 40, 20, 1.0, .1)
        a = b = boots.make(kind, dts, disp, n_o, 1.0, dimension=c['dim'])
        start = pick(b.dt, c, r, ctx)
        do_fit(b, kind, start, fit_intercept=c['icpt'], **FAST)
        d = b.to_dict()
        part = d
    else:
        n = int(r.integers(2, 20))
        t = gen.walk(r, n, 40, 'cubic', .2, 'wrapped', ['Li'] * n, steps='normal')
        be = str(r.choice(gen.ROUTES))
        a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1, n_steps=20), uncertainty=dict(dimension=c['dim']))
        start = pick(a.dt, c, r, ctx)
        gen.fit(a, kind, start, fit_intercept=c['icpt'], **FAST)
        d = a.to_dict()
        part = d['diff']
    ctx.feat(kind)
    dt = np.asarray(a.dt)
    x = dt[dt >= start]
    # line i at the longest interval sits at 1 + i/N; the order of the chain has nothing to do with the height of the line
    h = 1 + np.arange(N) / N
    r.shuffle(h)
    frac = r.permutation(N) / N * .6 if c['icpt'] else np.zeros(N)
    g, b0 = h * (1 - frac) / x[-1], h * frac
    cov = np.asarray(part['covariance_matrix'])
    scale = (1 / (40 * N))**2 / cov.diagonal().max()
    part['covariance_matrix'] = cov * scale
    part['gradient'] = Distribution(g).to_dict()
    part['intercept'] = Distribution(b0).to_dict() if c['icpt'] else None
    part['flatchain'] = np.stack([g, b0], 1) if c['icpt'] else g[:, None]
    o = type(a).from_dict(d)
    NP = {'third': N // 3, 'all': N, 'triple': 3 * N, 'default': None}[c['npost']]
    np.random.seed(c['s'] % 2**31)
    kw = dict(n_predictive_samples=c['npred'], progress=False)
    if NP is not None:
        kw['n_posterior_samples'] = NP
    rows = np.asarray(o.posterior_predictive(**kw) if c['via'] == 'direct' else o.posterior_predictive(kw))
    NP = NP or N
    ctx.ok(rows.shape == (NP * c['npred'], x.size), f'posterior predictive of shape {rows.shape}, expected {(NP * c["npred"], x.size)}')
    order = np.argsort(h)
    near = order[np.clip(np.rint((rows[:, -1] - 1) * N).astype(int), 0, N - 1)]
    res = rows - (g[near][:, None] * x + b0[near][:, None])
    sd = np.sqrt(np.diag(cov) * scale)
    worst = np.abs(res / sd).max()
    ctx.ok(worst < 8, 'a predictive sample does not lie about any one sampled line within the reported uncertainty', worst_in_standard_deviations=worst, row=int(np.argmax(np.abs(res / sd).max(1))))
    u = np.sort(near[::c['npred']] / N + .5 / N) if c['npred'] == 1 else np.sort(near.reshape(NP, -1)[:, 0] / N + .5 / N)
    ks = max(np.abs(np.arange(1, NP + 1) / NP - u).max(), np.abs(np.arange(NP) / NP - u).max())
    ctx.ok(ks < 2.8 / np.sqrt(NP) + 1 / N, 'the predictive samples are not drawn evenly from the whole posterior', ks=ks, limit=2.8 / np.sqrt(NP) + 1 / N, posterior=N, drawn=NP)
    # the residual noise is that of the reported covariance
    w, V = np.linalg.eigh(cov * scale)
    keep = w > w.max() * 1e-7
    y = res @ (V[:, keep] / np.sqrt(w[keep]))
    n = len(y)
    S = y.T @ y / n
    lim = 7 * np.sqrt((1 + np.eye(len(S))) / n) + 60 / n
    ctx.ok(np.all(np.abs(S - np.eye(len(S))) < lim), 'the noise about the sampled line is not that of the reported covariance', worst=np.abs(S - np.eye(len(S))).max(), limit=lim.min())
    ctx.count('rows', n)
    ctx.count('values_compared', res.size + S.size)
    ctx.feat('ident')
    if NP < N:
        ctx.feat('fewer-than-chain')
    if NP > N:
        ctx.feat('more-than-chain')
