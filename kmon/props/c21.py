"""C21: bootstrap resampling and blocking report consistent statistics."""
import numpy as np
from scipy.stats import normaltest

from .. import boots, gen, ref
from ..core import case_seed, rng_for
from ..snap import flatten
from .c11 import walker

ID = 'C21'
RULE = ("'resample' cases look at every resampled mean of every interval: how many there are, that each is a mean of the right number of observations (exact for integer-valued observations), and that their mean and variance agree with "
        "the observations; 'stop' cases force the stopping rule with alpha 0 and 1 and Gaussian data; 'block' cases compare with an independent reblocking; 'switch' cases compare with bootstrap off; non-trivial always")
REQUIRED = ['D', 'J', 'C', 'resample', 'exact-draws', 'stop', 'alpha=0', 'alpha=1', 'gaussian-stop', 'block', 'block-optimal', 'block-correlated', 'block-fallback', 'switch', 'analyzer', 'direct', 'sub_sample_dt', 'dimension<3', 'charges', 'fractional-n_o',
            'draws>windows', 'draws<windows', 'draws=1', 'random_state', 'no-random_state', 'ase', 'pymatgen', 'universe', 'block+bootstrap', 'identical', 'max<n', 'block-windows>5000']
ASSUMPTIONS = ['statistical tolerances: 8 standard errors; the number of draws is the integer part of the number of independent observations']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(240 if q else 3000):
        r = rng_for(ID, seed, 'r', i)
        out.append(dict(k='resample', s=case_seed(ID, seed, 'r', i), ana='DJC'[i % 3], via=bool(i % 4 == 3), dim=str(r.choice(boots.DIMS)), ssd=int(r.choice([1, 1, 2])), nr=int(r.choice([20, 100, 400])) if i % 24 != 5 else int(r.choice([1300, 2600, 5200])), w=2))
    for i in range(90 if q else 1000):
        out.append(dict(k='stop', s=case_seed(ID, seed, 's', i), ana='DJC'[i % 3], mode=['alpha=0', 'alpha=1', 'gaussian-stop'][(i // 3) % 3]))
    for i in range(240 if q else 3000):
        r = rng_for(ID, seed, 'b', i)
        out.append(dict(k='block', s=case_seed(ID, seed, 'b', i), ana='DJC'[i % 3], via=bool(i % 5 == 4), dim=str(r.choice(boots.DIMS)), ssd=int(r.choice([1, 1, 2])), style=str(r.choice(['walk', 'walk', 'white', 'trend'])), bs=bool(r.random() < .2)))
    for i in range(120 if q else 1500):
        r = rng_for(ID, seed, 'w', i)
        out.append(dict(k='switch', s=case_seed(ID, seed, 'w', i), ana='DJC'[i % 3], via=bool(i % 3 == 0), dim=str(r.choice(boots.DIMS)), ssd=int(r.choice([1, 1, 2])), block=bool(r.random() < .3)))
    return out


def run(c, ctx):
    ctx.feat(c['k'], c['ana'])
    if c.get('ssd', 1) > 1:
        ctx.feat('sub_sample_dt')
    if len(c.get('dim', 'xyz')) < 3:
        ctx.feat('dimension<3')
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


PRIMES = [2, 3, 5, 7, 11, 13, 17, 23, 31, 41, 101, 257, 1009, 3001]


def bdict(b):
    return b.to_dict() if not hasattr(b, '_diff') else b.to_dict()['diff']


def precision(disp):
    return 2e-5 if np.asarray(disp[0]).dtype == np.float32 else 0.0


def run_resample(c, ctx, r):
    kind = c['ana']
    kw = dict(dimension=c['dim'], sub_sample_dt=c['ssd'], bootstrap=True, n_resamples=c['nr'], max_resamples=c['nr'] + int(r.choice([0, 50, 250, 2500]) if c['nr'] < 500 else r.choice([0, 50, 250])))
    if r.random() < .5:
        kw['random_state'] = np.random.RandomState(int(r.integers(0, 10**6)))
        ctx.feat('random_state')
    else:
        ctx.feat('no-random_state')
    q = 1.0
    exact = True
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        R = int(r.choice([1, 1, 2]))
        ts = [gen.walk(r, 4, 24, 'ortho', .2, 'wrapped', ['Li'] * 4, cell_matrix=np.diag([9., 11., 13.])) for _ in range(R)]
        data = [gen.present(t, be) for t in ts]
        a = gen.analyze(kind, be, data if R > 1 else data[0], gen.parser_kw(be, time_step=.1), dtype='identical' if R > 1 else None, uncertainty=kw)
        top = a.to_dict()
        d, disp, n_o = top['diff'], top['disp_3d'], np.asarray(top['n_o'])
        exact = False
        ctx.feat('analyzer', be)
        if R > 1:
            ctx.feat('identical')
    else:
        atoms = int(r.choice([1, 2, 3, 5]))
        ni = int(r.integers(3, 8)) * (1 if kind == 'D' else 2)
        disp = [r.integers(-3, 4, size=(atoms, int(r.integers(3, 30) if r.random() < .8 else r.integers(100, 400)), 3)).astype(float) for _ in range(ni)]
        m = r.choice(PRIMES, ni).astype(float)
        if r.random() < .3:
            m[0] = 1
        n_o = (m if kind == 'D' else m * atoms)
        if r.random() < .5:
            n_o = n_o + r.uniform(.1, .8, ni) * (1 if kind == 'D' else atoms)
            ctx.feat('fractional-n_o')
        if kind == 'C' and r.random() < .6:
            q = r.choice([-1., 1., 2.], atoms)
            ctx.feat('charges')
        b = boots.make(kind, np.arange(1, ni + 1) * .5, disp, n_o, q, **kw)
        d = b.to_dict()
        ctx.feat('direct')
    keep, mean, var = boots.expected(kind, disp, n_o, c['dim'], q, c['ssd'])
    ds = d['distributions']
    ctx.ok(ds is not None and len(ds) == len(keep), 'one resampled distribution per interval', got=None if ds is None else len(ds), expected=len(keep))
    for j, i in enumerate(keep):
        x = np.asarray(ds[j]['samples'], float)
        o = ref.observed(disp[i], kind, c['dim'], q)
        draws = int((n_o[i] if kind == 'D' else n_o[i] / np.shape(disp[i])[0]) + 1e-9)
        if abs((n_o[i] if kind == 'D' else n_o[i] / np.shape(disp[i])[0]) - draws) < 1e-6 and c['via']:
            draws = None if draws < 2 else draws
        ctx.ok(x.size >= c['nr'], f'{x.size} resampled means, at least {c["nr"]} requested')
        ctx.ok(x.size < max(c['nr'], kw['max_resamples']) + 100, f'{x.size} resampled means with max_resamples={kw["max_resamples"]}')
        if x.size < kw['max_resamples'] and x.size >= 20:
            p = normaltest(x)[1]
            ctx.ok(not p < 1e-3 * .999, 'resampling stopped although not normal and the maximum not reached', p=p)
        ctx.count('resampled_means', x.size)
        tol = precision(disp)
        ctx.ok(np.all((x >= o.min() - max(tol, 1e-9) * o.max()) & (x <= o.max() * (1 + max(tol, 1e-9)))), 'resampled mean outside the range of the observations')
        if draws is None:
            continue
        if exact:
            k = x * draws
            ctx.ok(np.all(np.abs(k - np.round(k)) < 1e-6 * np.maximum(1, np.abs(k))), f'a resampled mean is not the mean of {draws} observations')
            ctx.feat('exact-draws')
            if draws > o.size:
                ctx.feat('draws>windows')
            if draws < o.size:
                ctx.feat('draws<windows')
            if draws == 1:
                ctx.feat('draws=1')
        v0 = np.var(o)
        s = np.sqrt(v0 / draws / x.size)
        ctx.ok(abs(x.mean() - o.mean()) <= 8 * s + max(1e-9, tol) * abs(o.mean()), 'mean of the resampled means differs from the mean of the observations', got=x.mean(), expected=o.mean(), error=s)
        if v0 > 0:
            m4 = np.mean((o - o.mean())**4) / v0**2
            kurt = 3 + (m4 - 3) / draws
            lim = 8 * np.sqrt(max(kurt - 1, .1) / x.size) + .02
            rat = x.var() / (v0 / draws)
            if lim < .9:
                ctx.ok(abs(rat - 1) < lim, 'variance of the resampled means is not that of the observations divided by the number of independent observations', ratio=rat, limit=lim, draws=draws)
                ctx.count('variances_compared')
    nb, vb, sb = (np.asarray(d[k]) for k in ('n_bootstrap', 'v_bootstrap', 's_bootstrap'))
    ctx.close(nb, [np.mean(x['samples']) for x in ds], 'reported mean of the resampled means', rtol=1e-12)
    ctx.close(vb, [np.var(x['samples'], ddof=1) for x in ds], 'reported variance of the resampled means', rtol=1e-9)
    ctx.close(sb, [np.std(x['samples'], ddof=1) for x in ds], 'reported standard deviation of the resampled means', rtol=1e-9)


def run_stop(c, ctx, r):
    kind = c['ana']
    nr = int(r.choice([20, 60, 130]))
    mx = nr + int(r.choice([-10, 1, 99, 100, 101, 350]))
    ctx.feat(c['mode'])
    if mx < nr:
        ctx.feat('max<n')
    if c['mode'] == 'gaussian-stop':
        disp = [r.normal(size=(3, 60, 3)) for _ in range(6)]
        n_o = np.full(6, 20000.)
        nr, mx = 40, 5000
        b = boots.make(kind, np.arange(1, 7) * .5, disp, n_o, 1.0, bootstrap=True, n_resamples=nr, max_resamples=mx)
        sizes = [len(x['samples']) for x in b.to_dict()['distributions']]
        ctx.data['gauss'] = [int(sum(x == nr for x in sizes)), len(sizes)]
        ctx.ok(max(sizes) < mx, 'resampling of Gaussian means never stopped', sizes=sizes)
        return
    disp = [r.normal(size=(2, 12, 3)) for _ in range(8)]
    b = boots.make(kind, np.arange(1, 9) * .5, disp, np.full(8, 20.), 1.0, bootstrap=True, n_resamples=nr, max_resamples=mx, alpha=0. if c['mode'] == 'alpha=0' else 1.)
    for x in b.to_dict()['distributions']:
        got = len(x['samples'])
        if c['mode'] == 'alpha=0':
            ctx.ok(got == nr, f'{got} resampled means although accepted at once, n_resamples={nr}')
        else:
            ctx.ok(max(nr, mx) <= got < max(nr, mx + 100), f'{got} resampled means although never accepted, n_resamples={nr}, max_resamples={mx}')


def reblock(x):
    """Flyvbjerg-Petersen blocking with the optimal block of Lee et al.: (mean, squared standard error, level, levels)."""
    lev = []
    y = np.asarray(x, float)
    while y.size >= 2:
        lev.append((y.mean(), np.var(y, ddof=1) / y.size))
        h = y.size // 2
        y = .5 * (y[0:2 * h:2] + y[1:2 * h:2])
    opt = None
    marg = np.inf
    for k, (m, v) in enumerate(lev):
        a, b = 8.0**k, 2 * len(x) * (v / lev[0][1])**2
        marg = min(marg, abs(a / b - 1) if b > 0 else np.inf)
        if a > b and opt is None:
            opt = k
    k = len(lev) - 1 if opt is None else opt
    return lev[k][0], lev[k][1], opt, len(lev), marg


def run_block(c, ctx, r):
    kind = c['ana']
    kw = dict(dimension=c['dim'], sub_sample_dt=c['ssd'], block=True)
    if c['bs']:
        kw.update(bootstrap=True, n_resamples=10, max_resamples=20)
        ctx.feat('block+bootstrap')
    q = 1.0
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 4, 40, 'ortho', .2, 'wrapped', ['Li'] * 4)
        a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1), uncertainty=kw)
        top = a.to_dict()
        disp, n_o = top['disp_3d'], np.asarray(top['n_o'])
        n, s, v = gen.value(a, kind), gen.std(a, kind), np.asarray(top['diff']['v'])
        ctx.feat('analyzer', be)
    else:
        atoms = int(r.choice([1, 2, 5]))
        if c['style'] == 'walk':
            dts, disp, n_o = walker(r, kind, atoms, int(r.choice([40, 90, 200, 700])), 12, 1.0, .5)
        elif c['style'] == 'white':
            hi = int(r.choice([300, 300, 1500, 6000, 14000]))
            disp = [r.normal(size=(atoms, int(r.integers(max(4, hi // 3), hi)), 3)) for _ in range(10)]
            if max(d.shape[1] for d in disp) > 5000:
                ctx.feat('block-windows>5000')
            dts, n_o = np.arange(1, 11) * .5, np.full(10, 9.)
        else:
            disp = [np.sort(np.abs(r.normal(size=(atoms, int(r.integers(4, 40)), 3))), axis=1) for _ in range(10)]
            dts, n_o = np.arange(1, 11) * .5, np.full(10, 9.)
        if kind == 'C' and r.random() < .5:
            q = r.choice([-1., 1., 2.], atoms)
        b = boots.make(kind, dts, disp, n_o, q, **kw)
        n, s, v = np.asarray(b.n), np.asarray(b.s), np.asarray(b.v)
        ctx.feat('direct')
    keep, mean, _ = boots.expected(kind, disp, n_o, c['dim'], q, c['ssd'])
    ctx.ok(n.size == len(keep) == v.size, f'{n.size} values for {len(keep)} intervals')
    for j, i in enumerate(keep):
        o = ref.observed(disp[i], kind, c['dim'], q)
        m, vv, opt, L, marg = reblock(o)
        tol = precision(disp)
        if marg < max(1e-9, 300 * tol):
            continue
        ctx.close(n[j], m, 'mean with blocking', rtol=max(1e-9, tol))
        ctx.close(v[j], vv, 'variance with blocking', rtol=max(1e-7, 50 * tol), atol=tol * m * m * 1e-3, level=opt, levels=L)
        ctx.close(s[j]**2, vv, 'squared standard deviation with blocking', rtol=max(1e-7, 50 * tol), atol=tol * m * m * 1e-3)
        ctx.ok(o.min() * (1 - max(tol, 1e-9)) - 1e-9 <= n[j] <= o.max() * (1 + max(tol, 1e-9)), 'blocked mean outside the range of the observations')
        ctx.feat('block-fallback' if opt is None else 'block-optimal')
        if opt:
            ctx.feat('block-correlated')
        ctx.count('reblockings')


def run_switch(c, ctx, r):
    kind = c['ana']
    kw = dict(dimension=c['dim'], sub_sample_dt=c['ssd'], block=c['block'])
    on = dict(kw, bootstrap=True, n_resamples=12, max_resamples=15)
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 4, 30, 'ortho', .2, 'wrapped', ['Li'] * 4)
        a, b = (gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1), uncertainty=u).to_dict()['diff'] for u in (kw, on))
        ctx.feat('analyzer')
    else:
        dts, disp, n_o = walker(r, kind, int(r.integers(2, 5)), 40, 14, 1.0, .5)
        a, b = (boots.make(kind, dts, disp, n_o, 1.0, **u).to_dict() for u in (kw, on))
        ctx.feat('direct')
    for k in ('dt', 'n', 's', 'v', 'ngp', 'n_o'):
        ctx.same(np.asarray(b[k]), np.asarray(a[k]), f'{k} with bootstrap switched on')
    ctx.ok(len(a['euclidian_displacements']) == len(b['euclidian_displacements']), 'number of displacement distributions with bootstrap switched on')
    fa, fb = flatten(a['euclidian_displacements'], 'dr', {}), flatten(b['euclidian_displacements'], 'dr', {})
    for k in fa:
        ctx.same(fb[k], fa[k], f'{k} with bootstrap switched on')
    ctx.ok(a['distributions'] is None, 'distributions without bootstrap')
    ctx.ok(b['distributions'] is not None and len(b['distributions']) == np.size(b['n']), 'one resampled distribution per interval')


def finish(results, ctx, tier):
    g = [x['data']['gauss'] for x in results if 'gauss' in x['data']]
    if g:
        a, n = np.sum(g, axis=0)
        ctx.count('gaussian_stops', a)
        ctx.count('gaussian_distributions', n)
        if n >= 30:
            ctx.ok(a > .9 * n, f'resampling continued for {n - a} of {n} distributions that were normal at once')
