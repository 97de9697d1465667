"""C26: options left out behave as their documented defaults."""
import contextlib
import io

import numpy as np

from .. import boots, gen
from ..core import case_seed, rng_for
from ..snap import compare, flatten, snapshot

ID = 'C26'
RULE = ("every case runs the code twice on the same data and seeds: once with an option (or a whole parameter dictionary) left out or None, once with its documented default given; 'parser' cases compare everything a parser exposes, 'unc' cases all estimates, 'fit' cases whole chains, 'route' cases whole analyzers with no uncertainty_params, "
        "'ppd' cases predictive samples, 'memory' cases data on either side of 8 GB, 'arr' cases Arrhenius objects, 'progress' cases what is printed; a case is non-trivial when another value of the option would have changed what is compared")
PARSER = ('n_steps', 'spacing', 'sampling', 'min_dt', 'max_dt', 'sub_sample_traj', 'sub_sample_atoms', 'memory_limit', 'specie_indices', 'masses', 'framework_indices', 'progress')
UNC = ('sub_sample_dt', 'bootstrap', 'block', 'n_resamples', 'dimension', 'alpha', 'random_state', 'progress')
FIT = ('cond_max', 'fit_intercept', 'n_samples', 'n_walkers', 'n_burn', 'thin', 'random_state', 'progress')
REQUIRED = ['parser', 'unc', 'fit', 'route', 'ppd', 'memory', 'arr', 'progress', 'D', 'J', 'C', 'all-omitted', 'None', 'empty', 'over-100-steps', 'alpha-decides', 'cond-decides', 'below-8GB', 'above-8GB', 'limit', *(f'{x}:{y}' for x in ('refused', 'accepted') for y in gen.BACKENDS), 'standard', 'super', 'minimised', 'whole-chain', 'long', 'via-analyzer', 'charge', 'dtype', *gen.ROUTES,
            *('parser:' + x for x in PARSER), *('unc:' + x for x in UNC), *('fit:' + x for x in FIT)]
ASSUMPTIONS = ["not judged, because documentation and code disagree about the default: model of the fits, max_resamples, cond_max of minimum_eigenvalue_method", 'random_state omitted means the global numpy generator, which is seeded alike before both runs']


def cases(tier, seed):
    out, big = [], tier != 'quick'
    for i in range(360 if not big else 5000):
        out.append(dict(k='parser', s=case_seed(ID, seed, 'p', i), opt=PARSER[i % len(PARSER)], be=gen.BACKENDS[(i // len(PARSER)) % 3], every=bool((i // 7) % 4 == 0), long=bool((i // 5) % 5 == 0)))
    for i in range(240 if not big else 4000):
        out.append(dict(k='unc', s=case_seed(ID, seed, 'u', i), opt=UNC[i % len(UNC)], ana='DJC'[(i // len(UNC)) % 3], every=bool((i // 5) % 4 == 0)))
    for i in range(72 if not big else 800):
        out.append(dict(k='fit', s=case_seed(ID, seed, 'f', i), opt=FIT[i % len(FIT)], ana='DJC'[(i // len(FIT)) % 3], via=bool((i // 3) % 2), every=bool((i // 24) % 3 == 0), w=9))
    for i in range(90 if not big else 900):
        out.append(dict(k='route', s=case_seed(ID, seed, 'r', i), be=gen.ROUTES[i % 5], ana='DJC'[(i // 5) % 3], two=bool((i // 15) % 2)))
    for i in range(18 if not big else 150):
        out.append(dict(k='ppd', s=case_seed(ID, seed, 'q', i), ana='DJC'[i % 3], via=bool((i // 3) % 2), whole=bool((i // 6) % 2), w=5))
    for i in range(8 if not big else 40):
        out.append(dict(k='memory', s=case_seed(ID, seed, 'm', i), over=bool(i % 2), w=20))
    for i in range(6 if not big else 24):
        out.append(dict(k='limit', s=case_seed(ID, seed, 'l', i), be=gen.BACKENDS[i % 3], over=bool((i // 3) % 2), w=30))
    for i in range(60 if not big else 600):
        out.append(dict(k='arr', s=case_seed(ID, seed, 'a', i), sup=bool(i % 2)))
    for i in range(36 if not big else 300):
        out.append(dict(k='progress', s=case_seed(ID, seed, 'g', i), be=gen.ROUTES[i % 5], ana='DJC'[i % 3]))
    return out


def run(c, ctx):
    ctx.feat(c['k'])
    if c.get('ana'):
        ctx.feat(c['ana'])
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


def less(kw, opt):
    return {k: v for k, v in kw.items() if k != opt}


def seen(p):
    out = {'dt': np.asarray(p.delta_t), 'intervals': np.asarray(p.time_intervals), 'volume': np.asarray(p.volume), 'n_o': np.asarray(getattr(p, '_n_o', 0)), 'indices': np.asarray(p.indices), 'drift': np.asarray(p.drift_indices)}
    flatten(list(p.disp_3d), 'disp', out)
    return out


def differ(a, b):
    return set(a) != set(b) or any(not (np.shape(a[k]) == np.shape(b[k]) and np.array_equal(a[k], b[k])) for k in a)


def run_parser(c, ctx, r):
    from kinisi import parser
    be, opt = c['be'], c['opt']
    if opt == 'sub_sample_atoms':
        be = 'mda'
    cls = {'ase': parser.ASEParser, 'pymatgen': parser.PymatgenParser, 'mda': parser.MDAnalysisParser}[be]
    ctx.feat({'mda': 'universe'}.get(be, be), 'parser:' + opt)
    F = int(r.integers(104, 180)) if opt == 'n_steps' or r.random() < .3 else int(r.integers(6, 60))
    if c.get('long'):
        F = int(np.exp(r.uniform(np.log(200), np.log(1600))))
        ctx.feat('long')
    n = int(r.choice([3, 6]))
    t = gen.walk(r, n + 3, F, 'ortho', .2, 'wrapped', ['Li'] * n + ['O'] * 3)
    f = 1000. if be == 'pymatgen' else 1.
    ts, skip = float(r.choice([.001, .1, 1., 2.])) * f, int(r.choice([1, 10, 50]))
    sub = 1 if opt == 'sub_sample_traj' else int(r.choice([1, 1, 2, 3]))
    full = dict(n_steps=100, spacing='linear', sampling='multi-origin', min_dt=ts * skip, max_dt=None, sub_sample_traj=1, memory_limit=8., specie_indices=None, masses=None, framework_indices=None, progress=True)
    if be == 'mda':
        full['sub_sample_atoms'] = 1
    kw = dict(full, sub_sample_traj=sub, progress=False)
    who = dict(specie='Li')
    if opt not in ('specie_indices', 'sub_sample_atoms') and r.random() < .5 or opt == 'masses':
        who = dict(specie=None, specie_indices=[[1, 2], [2, 3]] if opt == 'masses' or r.random() < .5 else [1, 3])
        ctx.feat('selected')
    kw.update(who)
    if not c['every']:
        if r.random() < .5 and opt != 'spacing':
            kw['spacing'] = 'logarithmic'
        if r.random() < .4 and opt != 'sampling':
            kw['sampling'] = 'single-origin'
        if r.random() < .5 and opt not in ('n_steps', 'min_dt', 'max_dt'):
            kw['n_steps'] = int(r.integers(2, 12))
        if opt != 'framework_indices' and r.random() < .3:
            kw['framework_indices'] = []
    if opt in ('progress', 'sub_sample_traj', 'sub_sample_atoms'):
        kw[opt] = full[opt]
    structures = gen.present(t, be)
    make = lambda k: cls(structures, time_step=ts, step_skip=skip, **k)
    # the length of the simulation in steps is that of the stored history (how the first frame counts: finding first-frame-window, C03)
    steps = make(kw).dc.shape[1]
    ctx.ok(abs(steps - (-(-F // sub))) <= 1, f'{steps} steps of {F} frames, every {sub}')
    kw['max_dt'] = steps * ts * skip * sub
    explicit = seen(make(kw))
    if c['every']:
        ctx.feat('all-omitted')
        given = {k: v for k, v in kw.items() if k == 'specie' or k == 'sub_sample_traj' and v != 1 or k == 'specie_indices' and v is not None}
        compare(ctx, seen(make(given)), explicit, f'{be} parser with every option left out against the documented defaults')
    compare(ctx, seen(make(less(kw, opt))), explicit, f'{be} parser with {opt} left out against {opt}={kw[opt]!r}')
    if opt in ('min_dt', 'max_dt'):
        compare(ctx, seen(make(dict(kw, **{opt: None}))), explicit, f'{be} parser with {opt}=None against {opt}={kw[opt]!r}')
        ctx.feat('None')
    if opt == 'n_steps' and steps >= 103:
        ctx.feat('over-100-steps')
        if kw['spacing'] == 'linear':
            ctx.ok(len(explicit['dt']) == 100, f'{len(explicit["dt"])} intervals for {steps} steps with n_steps=100')
    ctx.count('parsers_compared')


def run_unc(c, ctx, r):
    kind, opt = c['ana'], c['opt']
    ctx.feat('unc:' + opt)
    ni = int(r.integers(3, 7)) * (1 if kind == 'D' else 2)
    disp = boots.disps(r, int(r.integers(2, 6)), ni, str(r.choice(boots.STYLES)), 30, 3)
    heavy = opt == 'alpha' or r.random() < .3
    n_o = np.array([max(2., (12. if heavy else 200.) / (i + 1)) for i in range(ni)]) * (1 if kind == 'D' else disp[0].shape[0])
    dt = .1 * np.arange(1, ni + 1)
    rs = int(r.integers(10**6))
    full = dict(sub_sample_dt=1, bootstrap=False, block=False, n_resamples=1000, dimension='xyz', alpha=1e-3, random_state=None, progress=True)
    kw = dict(full, progress=False, max_resamples=2000)
    kw['random_state'] = 'new'
    if not c['every']:
        if opt != 'sub_sample_dt' and r.random() < .5:
            kw['sub_sample_dt'] = 2
        if opt != 'dimension' and r.random() < .5:
            kw['dimension'] = str(r.choice(boots.DIMS))
        if opt != 'block' and r.random() < .2 and min(d.shape[0] * d.shape[1] for d in disp) > 20:
            kw['block'] = True
    if opt in ('n_resamples', 'alpha', 'random_state') or opt != 'bootstrap' and not c['every'] and r.random() < .4:
        kw['bootstrap'] = True
    if not c['every']:
        if opt != 'n_resamples' and r.random() < .7:
            kw['n_resamples'] = int(r.choice([50, 200]))
        if opt != 'alpha' and r.random() < .5:
            kw['alpha'] = .05
    if opt in ('random_state', 'progress'):
        kw[opt] = full[opt]
    charge = 1.0 if kind != 'C' else float(r.choice([1., -2.]))

    def go(k):
        np.random.seed(rs)
        k = dict(k)
        if k.get('random_state') == 'new':
            k['random_state'] = np.random.RandomState(rs)
        from kinisi import diffusion
        one = {'D': diffusion.MSDBootstrap, 'J': diffusion.MSTDBootstrap, 'C': diffusion.MSCDBootstrap}[kind]
        b = one(dt.copy(), [d.copy() for d in disp], charge, n_o.copy(), **k) if kind == 'C' else one(dt.copy(), [d.copy() for d in disp], n_o.copy(), **k)
        return flatten(b.to_dict(), 'dict', {})

    explicit = go(kw)
    compare(ctx, go(less(kw, opt)), explicit, f'{kind} estimates with {opt} left out against {opt}={kw[opt]!r}')
    if c['every'] and opt not in ('n_resamples', 'alpha'):
        given = {k: kw[k] for k in ('random_state', 'max_resamples', 'progress') if k != opt}
        if kw['bootstrap']:
            given['bootstrap'] = True
        compare(ctx, go(given), explicit, f'{kind} estimates with every option left out against the documented defaults')
        ctx.feat('all-omitted')
    if opt == 'alpha' and (differ(go(dict(kw, alpha=1e-2)), explicit) or differ(go(dict(kw, alpha=1e-4)), explicit)):
        ctx.feat('alpha-decides')
    ctx.count('estimates_compared')


def fitted(r, kind, via):
    """A function that makes a new object ready to be fitted, and its last interval."""
    if via:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 8, 30, 'ortho', .2, 'wrapped', ['Li'] * 6 + ['O'] * 2)
        data, p = gen.present(t, be), gen.parser_kw(be, time_step=.1, n_steps=10)
        return be, lambda: gen.analyze(kind, be, data, p)
    ni = 10 if kind == 'D' else 20
    # mean-squared values over many orders of magnitude: the condition number of the covariance exceeds any small bound
    grow = float(r.choice([0., 0., 1., 1.5]))
    disp = [d * 10**(grow * i / 2) for i, d in enumerate(boots.disps(r, 4, ni, 'diffusive', 40, 10))]
    n_o = np.array([200. / (i + 1) for i in range(ni)]) * (1 if kind == 'D' else 4)
    return None, lambda: boots.make(kind, .1 * np.arange(1, ni + 1), disp, n_o, 1.0)


def run_fit(c, ctx, r):
    kind, opt, via = c['ana'], c['opt'], c['via']
    ctx.feat('fit:' + opt)
    be, new = fitted(r, kind, via)
    if be:
        ctx.feat('via-analyzer', be)
    rs = int(r.integers(10**6))
    full = dict(cond_max=1e16, fit_intercept=True, n_samples=1000, n_walkers=32, n_burn=500, thin=10, random_state=None, progress=True)
    small = dict(n_samples=60, n_walkers=8, n_burn=10, thin=3, progress=False, random_state='new')
    kw = dict(full, progress=False, random_state='new') if c['every'] else dict(full, **small)
    kw[opt] = full[opt]
    if opt == 'fit_intercept':
        kw[opt] = True
    elif not c['every'] and r.random() < .3:
        kw['fit_intercept'] = False
    if r.random() < .5:
        kw['model'] = bool(r.random() < .5)

    def go(k, form='dict'):
        o = new()
        np.random.seed(rs)
        if k is not None:
            k = dict(k)
            if k.get('random_state') == 'new':
                k['random_state'] = np.random.RandomState(rs)
        if via:
            args = (.1, 310.) if kind == 'C' else (.1, )
            m = {'D': 'diffusion', 'J': 'jump_diffusion', 'C': 'conductivity'}[kind]
            getattr(o, m)(*args) if form == 'omitted' else getattr(o, m)(*args, k)
            return snapshot(o, kind)
        args = (.1, 310., 900.) if kind == 'C' else (.1, )
        getattr(o, {'D': 'diffusion', 'J': 'jump_diffusion', 'C': 'conductivity'}[kind])(*args, **(k or {}))
        return flatten(dict(o.to_dict(), cov=o.covariance_matrix), 'dict', {})

    explicit = go(kw)
    compare(ctx, go(less(kw, opt)), explicit, f'{kind} fit with {opt} left out against {opt}={kw[opt]!r}')
    if opt == 'cond_max' and differ(go(dict(kw, cond_max=1e10)), explicit):
        ctx.feat('cond-decides')
    if c['every']:
        everything = dict(full, random_state=None)
        base = go(everything)
        for form, k in (('empty', {}), ('None', None), ('omitted', None)) if via else (('empty', {}), ):
            compare(ctx, go(k, form), base, f'{kind} fit with parameters {form} against the documented defaults')
            ctx.feat(form)
        ctx.ok(base['chain'].shape[0] == 3200 if via else True, f'{base.get("chain", np.zeros(0)).shape[0]} samples in the chain of a default fit')
        ctx.feat('all-omitted')
    ctx.count('fits_compared')


def run_route(c, ctx, r):
    """Whole analyzers without uncertainty_params, dtype or charge."""
    kind, be = c['ana'], c['be']
    ctx.feat(be)
    t = gen.walk(r, 7, int(r.integers(12, 40)), 'ortho', .2, 'wrapped', ['Li'] * 5 + ['O'] * 2)
    data, p = gen.present(t, be), gen.parser_kw(be, time_step=.1)
    cls = gen.analyzer_class(kind)
    f = getattr(cls, 'from_' + be)
    full = dict(sub_sample_dt=1, bootstrap=False, block=False, n_resamples=1000, dimension='xyz', alpha=1e-3, random_state=None, progress=True)
    last = dict(ionic_charge=1) if kind == 'C' else {}
    base = snapshot(f(data, dict(p), dtype=None, uncertainty_params=full, **last), kind)
    for name, kw in (('empty', dict(uncertainty_params={})), ('None', dict(uncertainty_params=None)), ('all-omitted', {})):
        for extra in ([{}, last] if kind == 'C' else [{}]):
            a = f(data, dict(p), **kw, **extra)
            compare(ctx, snapshot(a, kind), base, f'{kind} from_{be} with uncertainty_params {name}, {"ionic_charge" if kind == "C" and not extra else "dtype"} left out against the documented defaults')
        ctx.feat(name)
    compare(ctx, snapshot(f(data, dict(p), dtype=None), kind), base, f'{kind} from_{be} with dtype=None')
    ctx.feat('dtype')
    if kind == 'C':
        ctx.feat('charge')
        if c['two']:
            b = snapshot(f(data, dict(p), ionic_charge=np.ones(5)), kind)
            ctx.close(b['value'], base['value'], 'charge of one for each ion against the default charge', rtol=1e-9)
    if c['two'] and be in ('ase', 'pymatgen', 'Xdatcar', 'file', 'universe'):
        two = snapshot(f([data, data], dict(p), dtype='identical', uncertainty_params=full, **last), kind)
        compare(ctx, snapshot(f([data, data], dict(p), dtype='identical'), kind), two, f'{kind} from_{be}, identical, with uncertainty_params left out')
    ctx.count('analyzers_compared')


def run_ppd(c, ctx, r):
    kind, via = c['ana'], c['via']
    be, new = fitted(r, kind, via)
    rs = int(r.integers(10**6))
    o = new()
    start = .3
    kw = dict(n_samples=40, n_walkers=8, n_burn=10, thin=int(r.choice([2, 5])), random_state=np.random.RandomState(rs), progress=False)
    if c['whole']:  # as many posterior samples as a default fit has
        kw.update(n_samples=1000, n_walkers=32, thin=int(r.choice([5, 10])))
        ctx.feat('whole-chain')
    if via:
        gen.fit(o, kind, start, **kw)
        if be:
            ctx.feat('via-analyzer', be)
    else:
        args = (start, 310., 900.) if kind == 'C' else (start, )
        getattr(o, {'D': 'diffusion', 'J': 'jump_diffusion', 'C': 'conductivity'}[kind])(*args, **kw)
    dt = np.asarray(o.dt)
    left = int(np.sum(dt >= start))
    size = -(-kw['n_samples'] // kw['thin']) * kw['n_walkers']
    n = int(np.asarray(gen.coef(o, kind).samples if via else o.gradient.samples).size)

    def go(k, form=None):
        np.random.seed(rs)
        if not via:
            return np.asarray(o.posterior_predictive(**(k or {})))
        return np.asarray(o.posterior_predictive() if form == 'omitted' else o.posterior_predictive(k))

    base = go(dict(n_posterior_samples=n, n_predictive_samples=256, progress=True))
    ctx.ok(base.shape == (n * 256, left), f'predictive samples of shape {base.shape} for {n} posterior samples, 256 each, {left} intervals')
    for form in ('omitted', 'None', 'empty')[:1 if c['whole'] else 3]:
        ctx.same(go(None if form != 'empty' else {}, form), base, f'predictive samples with parameters {form} against the documented defaults ({kind})')
        ctx.feat({'omitted': 'all-omitted'}.get(form, form))
    ctx.same(go(dict(n_predictive_samples=3)), go(dict(n_posterior_samples=n, n_predictive_samples=3)), 'n_posterior_samples left out')
    ctx.same(go(dict(n_posterior_samples=None, n_predictive_samples=3)), go(dict(n_posterior_samples=n, n_predictive_samples=3)), 'n_posterior_samples=None')
    ctx.same(go(dict(n_posterior_samples=4)), go(dict(n_posterior_samples=4, n_predictive_samples=256)), 'n_predictive_samples left out')
    ctx.ok(abs(n - size) <= kw['n_walkers'], f'{n} posterior samples, about {size} expected')
    ctx.count('predictions_compared', 6)


def run_memory(c, ctx, r):
    """Data a little below or above 8 GB by the parser's own count; single origins, so that nothing of that size is stored."""
    from kinisi.parser import Parser
    n, F = int(r.choice([40, 60])), int(r.integers(1200, 1800))
    disp = np.zeros((n, F, 3))
    disp[:, :, 0] = r.normal(size=(n, 1))

    def go(lim=None, **k):
        if lim is not None:
            k['memory_limit'] = lim
        try:
            return Parser(disp=disp, indices=idx, drift_indices=np.array([], dtype=int), time_step=1., step_skip=1, n_steps=steps, sampling='single-origin', progress=False, **k), None
        except MemoryError as e:
            return None, str(e)

    # bytes grow linearly with the number of selected sites: a small selection is measured by bisection, the rest scaled
    idx, steps = np.zeros(2, dtype=int), 100
    lo, hi = 0., 1.
    for _ in range(45):
        mid = (lo + hi) / 2
        if go(mid)[1]:
            lo = mid
        else:
            hi = mid
    want = 8 * (r.uniform(1.002, 1.1) if c['over'] else r.uniform(.9, .998))
    idx = np.zeros(max(2, int(round(want / (hi / 2)))), dtype=int)
    size = hi / 2 * len(idx)
    a, said_a = go()
    b, said_b = go(8.)
    ctx.ok((a is None) == (b is None) and said_a == said_b, f'{size:.3f} GB of displacements: {"refused" if a is None else "accepted"} by default, {"refused" if b is None else "accepted"} with the documented default of 8 GB', said=said_a)
    ctx.ok((a is None) == (size > 8), f'{size:.3f} GB of displacements {"refused" if a is None else "accepted"} by default')
    ctx.feat('above-8GB' if size > 8 else 'below-8GB')
    ctx.count('limits_compared')


def run_limit(c, ctx, r):
    """The same through the parsers of trajectories: the same pair of atoms chosen again and again makes a large selection of a small trajectory."""
    from kinisi import parser
    be = c['be']
    cls = {'ase': parser.ASEParser, 'pymatgen': parser.PymatgenParser, 'mda': parser.MDAnalysisParser}[be]
    ctx.feat({'mda': 'universe'}.get(be, be))
    t = gen.walk(r, 3, int(r.integers(900, 1300)), 'ortho', .2, 'wrapped', ['Li', 'Li', 'O'])
    data = gen.present(t, be)

    def go(pairs, **k):
        kw = dict(specie=None, specie_indices=[[1, 2]] * pairs, time_step=1., step_skip=1, progress=False, framework_indices=[])
        try:
            return cls(data, **dict(kw, **k)), None
        except MemoryError as e:
            return None, str(e)

    two = go(2, n_steps=t.F)[0]
    each = sum(np.asarray(d).nbytes for d in two.disp_3d) / 2 * 1e-9
    pairs = int(round(8 * (r.uniform(1.01, 1.1) if c['over'] else r.uniform(.9, .99)) / each))
    size = pairs * each
    a, said_a = go(pairs, n_steps=t.F, sampling='single-origin')
    b, said_b = go(pairs, n_steps=t.F, sampling='single-origin', memory_limit=8.)
    ctx.ok((a is None) == (b is None) and said_a == said_b, f'{be}: {size:.3f} GB of displacements: {"refused" if a is None else "accepted"} by default, {"refused" if b is None else "accepted"} with the documented default of 8 GB', said=said_a)
    ctx.feat('refused:' + be if b is None else 'accepted:' + be)
    ctx.count('limits_compared')


def run_arr(c, ctx, r):
    from kinisi import arrhenius
    sup = c['sup']
    ctx.feat('super' if sup else 'standard')
    cls = arrhenius.SuperArrhenius if sup else arrhenius.StandardArrhenius
    n = int(r.integers(4, 8))
    T = np.sort(r.uniform(300, 900, n))
    if r.random() < .5:
        T = T[::-1].copy()
    Ea, A = r.uniform(.02, .6), 10**r.uniform(-4, 3)
    T0 = r.uniform(0, .5) * T.min() if sup else 0.
    y = A * np.exp(-Ea / 8.617333262e-5 / (T - T0))
    e = .05 * y
    bounds = [(0, 1), (0, 1e20), (0, T[0])] if sup else ((0, 1), (0, 1e20))

    def go(**kw):
        np.random.seed(5)
        o = cls(T.copy(), y.copy(), diffusion_error=e.copy(), **kw)
        first = np.array([[float(np.asarray(x)) for x in b] for b in o.bounds])
        out = dict(bounds=first, y=np.asarray(o.y.n))
        try:
            o.max_likelihood('mini')
        except ValueError:  # the unbounded minimiser of uravu may leave the region where the VTF relation is finite
            ctx.feat('minimiser-failed')
        else:
            out['best'] = np.array([float(np.asarray(v.n)) for v in o.variables])
            ctx.feat('minimised')
        return out

    explicit, left = go(bounds=bounds), go()
    compare(ctx, left, explicit, f'{"super-" if sup else ""}Arrhenius relation with bounds left out against the documented default')
    compare(ctx, go(), explicit, 'second relation with bounds left out')
    if sup:
        compare(ctx, go(bounds=[(0, 1), (0, 1e20), (0, None)]), explicit, 'upper bound of T0 left out')
        T2 = T.copy()
        T[:] = T + 50
        again = go()
        ctx.ok(again['bounds'][2, 1] == T[0], f'default bound of T0 is {again["bounds"][2, 1]} for a first temperature of {T[0]}')
        T[:] = T2
    ctx.count('relations_compared')


def printed(f):
    e, o = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(e), contextlib.redirect_stdout(o):
        out = f()
    return out, e.getvalue() + o.getvalue()


def run_progress(c, ctx, r):
    kind, be = c['ana'], c['be']
    ctx.feat(be)
    t = gen.walk(r, 7, 12, 'ortho', .2, 'wrapped', ['Li'] * 5 + ['O'] * 2)
    data, p = gen.present(t, be), gen.parser_kw(be, time_step=.1)
    cls = gen.analyzer_class(kind)
    f = getattr(cls, 'from_' + be)
    loud = {k: v for k, v in p.items() if k != 'progress'}
    said = {}
    for a, pk in (('parser', loud), ('none', p)):
        for b, un in (('estimates', {}), ('none', dict(progress=False))):
            o, said[a, b] = printed(lambda: f(data, dict(pk), uncertainty_params=dict(un)))
    ctx.ok(said['none', 'none'] == '', 'something is printed with progress=False', said=said['none', 'none'][-200:])
    for k in (('parser', 'none'), ('none', 'estimates'), ('parser', 'estimates')):
        ctx.ok('%|' in said[k], f'no progress bar although progress is left out for {[x for x in k if x != "none"]}', said=said[k][-200:])
    small = dict(n_samples=10, n_walkers=8, n_burn=2, thin=1)
    m = {'D': 'diffusion', 'J': 'jump_diffusion', 'C': 'conductivity'}[kind]
    args = (.1, 310.) if kind == 'C' else (.1, )
    _, quiet = printed(lambda: getattr(o, m)(*args, dict(small, progress=False)))
    _, loud = printed(lambda: getattr(o, m)(*args, dict(small)))
    ctx.ok(quiet == '' and '%|' in loud, 'progress bar of a fit', quiet=quiet[-100:], loud=loud[-100:])
    _, quiet = printed(lambda: o.posterior_predictive(dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)))
    _, loud = printed(lambda: o.posterior_predictive(dict(n_posterior_samples=3, n_predictive_samples=2)))
    ctx.ok(quiet == '' and '%|' in loud, 'progress bar of the predictive sampling', quiet=quiet[-100:], loud=loud[-100:])
    ctx.count('runs_listened_to', 8)
