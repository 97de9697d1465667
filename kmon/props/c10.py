"""C10: the covariance matrix used for fitting."""
import numpy as np

from .. import boots, gen, ref
from ..core import case_seed, rng_for

ID = 'C10'
RULE = ('each case draws a variance and observation-count profile (smooth, noisy, reversed, constant, wildly varying; or from a real trajectory), fits with '
        'one start_dt/cond_max/model setting and compares the reported covariance matrix with the closed form; non-trivial when the matrix has at least 2x2 entries')
REQUIRED = ['D', 'J', 'C', 'model', 'no-model', 'start>0', 'start-exact', 'start-between', 'cond:1e3', 'cond:1e6', 'cond:1e10', 'cond:default', 'reconditioned', 'profile:smooth', 'profile:noisy',
            'profile:wild', 'profile:reversed', 'profile:constant', 'intervals>60', 'intervals>200', 'two-intervals', 'analyzer', 'refit', 'no-intercept', 'sub_sample_dt', 'single-origin']
ASSUMPTIONS = ['condition number and closed form are checked tightly for cond_max up to 1e10; at the default 1e16 the clipped eigenvalues are at rounding level and the '
               'comparison is relative to the largest eigenvalue']
FAST = dict(n_walkers=6, n_samples=12, n_burn=2, thin=2)


def cases(tier, seed):
    n_cases = 2000 if tier == 'quick' else 50000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        c = dict(k='cov' if i % 4 else 'analyzer', s=case_seed(ID, seed, i), ana='DJC'[i % 3], m=int(r.choice([2, 3, 6, 15, 30])),
                 profile=str(r.choice(['smooth', 'noisy', 'noisy', 'wild', 'reversed', 'constant'])), cond=str(r.choice(['1e3', '1e6', '1e10', '1e12', '1e14', 'default'])),
                 model=bool(r.random() < .35), start=str(r.choice(['zero', 'exact', 'between', 'exact', 'last2'])), icpt=bool(r.random() < .8), ssd=int(r.choice([1, 1, 1, 2])),
                 nprof=str(r.choice(['natural', 'natural', 'constant', 'wild'])))
        if i % 60 == 1:
            c.update(m=80, w=3)
        if i % 250 == 9:
            c.update(k='cov', m=int(r.choice([120, 260, 400])), start=str(r.choice(['zero', 'between'])), w=8)
        out.append(c)
    return out


def run(c, ctx):
    r = rng_for('run', c['s'])
    kind = c['ana']
    if c['k'] == 'cov':
        m = c['m'] * c['ssd'] * (1 if kind == 'D' else 2)
        k = np.arange(1, m + 1)
        n = {'natural': 30. * m / k, 'constant': np.full(m, 25.), 'wild': np.sort(10.0**r.uniform(.5, 3, m))[::-1]}[c['nprof']]
        base = k**2 / n
        v = {'smooth': base, 'noisy': base * r.chisquare(4, m) / 4, 'wild': 10.0**r.uniform(-3, 3, m), 'reversed': base[::-1], 'constant': np.full(m, 2.5)}[c['profile']]
        if c['profile'] == 'constant':
            n = np.full(m, 25.)
        dts = k * float(r.choice([.1, 1.0, 3.7, 2e-4, 1e3]))
        # two observations per interval whose sample variance is v*n and whose mean is a line
        atoms = 1 if kind != 'D' else 2
        disp = []
        top = np.sqrt(v * n / 2).max()
        for i in range(m):
            s = np.sqrt(v[i] * n[i] / 2)
            mean = 1.5 * top + top * k[i] / m + 1
            a, b = np.sqrt(mean + s), np.sqrt(mean - s)
            d = np.zeros((atoms, 2 if kind != 'D' else 1, 3))
            if kind == 'D':
                d[0, 0, 0], d[1, 0, 1] = a, b
            else:
                d[0, 0, 0], d[0, 1, 2] = a, b
            disp.append(d)
        b = boots.make(kind, dts, disp, n, 1.0, sub_sample_dt=c['ssd'])
        fit = {'D': b.diffusion, 'J': b.jump_diffusion, 'C': lambda s, **kw: b.conductivity(s, 300., 1000., **kw)}[kind]
        get = lambda: np.asarray(b.covariance_matrix)
        dt, var, nn = np.asarray(b.dt), np.asarray(b.v), np.asarray(b.n_i)[:np.size(b.dt)]
    else:
        F = int(r.choice([12, 40]))
        n_mob = int(r.choice([2, 8]))
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, n_mob + 2, F, 'ortho', .15, 'random', gen.species_list(r, n_mob + 2, n_mob), steps='normal')
        so = kind == 'D' and r.random() < .3
        a = gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1, sampling='single-origin' if so else 'multi-origin'), uncertainty=dict(sub_sample_dt=c['ssd']))
        fit = lambda s, **kw: gen.fit(a, kind, s, **kw)
        get = lambda: np.asarray(a.to_dict()['diff']['covariance_matrix'])
        dt, var = np.asarray(a.dt), gen.std(a, kind)**2
        nn = np.asarray(a.to_dict()['n_o'])[::c['ssd']][:dt.size]
        ctx.feat('analyzer')
        if so:
            ctx.feat('single-origin')
    m = dt.size
    fits = 2 if c['s'] % 3 == 0 else 1
    for rep in range(fits):
        st = c['start'] if rep == 0 else 'exact'
        p = int(r.integers(0, max(1, m - 1)))
        start = {'zero': 0, 'exact': dt[p], 'between': dt[p] + 1e-3 * dt[0], 'last2': dt[max(0, m - 2)]}[st]
        reg = dt >= start
        if reg.sum() < 1 or (reg.sum() < 2):
            ctx.trivial = True
            return
        model = c['model'] if rep == 0 else not c['model']
        cm = 1e16 if c['cond'] == 'default' else float(c['cond'])
        kw = dict(FAST, model=model, fit_intercept=c['icpt'], progress=False)
        if c['cond'] != 'default':
            kw['cond_max'] = cm
        fit(start, **kw)
        cov = get()
        N = int(reg.sum())
        ctx.ok(cov.shape == (N, N), f'covariance of shape {cov.shape} for {N} intervals not shorter than start_dt')
        vv, n2 = var[reg], nn[reg]
        if model:
            x = dt[reg]**2 / n2
            vv = (x @ vv) / (x @ x) * x
        raw = ref.covariance(vv, n2)
        w = np.linalg.eigvalsh(raw)
        exp = ref.recondition(raw, cm)
        sc = np.abs(exp).max()
        ctx.close(cov, exp, 'covariance matrix', rtol=0, atol=sc * (1e-8 if cm <= 1e10 else 1e-7))
        ctx.close(cov, cov.T, 'symmetry of the covariance matrix', rtol=0, atol=1e-12 * sc)
        ev = np.linalg.eigvalsh(cov)
        ctx.close(ev, np.linalg.eigvalsh(exp), 'eigenvalues of the covariance matrix', rtol=1e-6, atol=5e-14 * ev[-1] + (N * 1e-15) * ev[-1])
        ctx.ok(ev[0] > -1e-9 * ev[-1], 'covariance matrix is not positive semi-definite', lowest=ev[0], highest=ev[-1])
        if cm <= 1e10:
            ctx.ok(ev[-1] / ev[0] <= cm * 1.01 + 1, 'condition number above cond_max', cond=ev[-1] / ev[0], cond_max=cm)
        if w[0] < w[-1] / cm:
            ctx.feat('reconditioned')
        ctx.feat('model' if model else 'no-model')
        for cond, f in ((start > 0, 'start>0'), (st == 'exact', 'start-exact'), (st == 'between', 'start-between'), (N > 60, 'intervals>60'), (N > 200, 'intervals>200'), (N == 2, 'two-intervals'), (rep, 'refit')):
            if cond:
                ctx.feat(f)
    ctx.feat(kind, 'cond:' + c['cond'])
    if c['k'] == 'cov':
        ctx.feat('profile:' + c['profile'])
    if not c['icpt']:
        ctx.feat('no-intercept')
    if c['ssd'] > 1:
        ctx.feat('sub_sample_dt')
