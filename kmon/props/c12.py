"""C12: units and normalisation of D, D_J and the conductivity."""
import numpy as np
from scipy import constants as K

from .. import boots, gen, ref
from ..core import case_seed, rng_for
from .c11 import do_fit, walker

ID = 'C12'
RULE = ("'conv' cases compare every sample of the coefficient with the gradient sample converted from first principles (SI constants); 'scale' cases analyse the same motion in "
        "scaled length and time units; 'replica' cases pass several replicas as 'identical' and compare with the pooled truth; non-trivial when the gradient samples are positive and distinct")
REQUIRED = ['long-chain', 'D', 'J', 'C', 'conv', 'scale', 'replica', 'analyzer', 'direct', 'dim1', 'dim2', 'dim3', 'upper-case', 'atoms>100', 'one-atom', 'int-temperature', 'npt', 'tri', 'charges', 'molecules', 'sub_sample_dt',
            'no-intercept', 'refit', 'ase', 'pymatgen', 'universe', 'file', 'Xdatcar', 'loaded', 'T<100', 'T>2000', 'V>1e6']
ASSUMPTIONS = ['volume is that of the first analysed frame']
FAST = dict(n_walkers=8, n_samples=30, n_burn=10, thin=3)


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(420 if q else 5000):
        r = rng_for(ID, seed, 'v', i)
        out.append(dict(k='conv', s=case_seed(ID, seed, 'v', i), ana='DJC'[i % 3], via=bool(i % 2), dim=str(r.choice(boots.DIMS)), up=bool(r.random() < .15), atoms=int(r.choice([1, 2, 5, 11])) if i % 30 else int(r.choice([120, 1100])),
                        route=gen.ROUTES[(i // 6) % 5], cell=str(r.choice(['cubic', 'ortho', 'tri', 'hex'])), npt=float(r.choice([0, 0, .04])), mol=bool(r.random() < .15), icpt=bool(r.random() < .7), ssd=int(r.choice([1, 1, 2]))))
    for i in range(45 if q else 500):
        r = rng_for(ID, seed, 's', i)
        out.append(dict(k='scale', s=case_seed(ID, seed, 's', i), ana='DJC'[i % 3], a=float(r.choice([.1, .5, 3., 10.])), b=float(r.choice([.01, .5, 4., 50.])), be=str(r.choice(gen.ROUTES)), w=3))
    for i in range(36 if q else 400):
        r = rng_for(ID, seed, 'r', i)
        out.append(dict(k='replica', s=case_seed(ID, seed, 'r', i), ana='DJC'[i % 3], R=int(r.choice([2, 3, 5])), be=str(r.choice(gen.ROUTES)), same=bool(i % 2), w=3))
    return out


def factor(kind, d, n, T, V):
    """Coefficient per unit gradient (A^2/ps)."""
    if kind == 'D':
        return 1e-16 / 1e-12 / (2 * d)
    if kind == 'J':
        return 1e-16 / 1e-12 / (2 * d * n)
    si = 1e-20 / 1e-12 / (2 * d) * K.e**2 / (V * 1e-30 * K.k * T)  # S/m
    return si * 10.0  # mS/cm


def run(c, ctx):
    r = rng_for('run', c['s'])
    ctx.feat(c['ana'])
    globals()['run_' + c['k']](c, ctx, r, c['ana'])


def run_conv(c, ctx, r, kind):
    dim = c['dim']
    given = dim.upper() if c['up'] else dim
    T = float(10.0**r.uniform(.5, 4)) if r.random() < .6 else int(r.choice([int(r.integers(2, 100)), int(r.integers(100, 400)), int(r.integers(400, 6000))]))
    for cond, f in ((T < 100, 'T<100'), (T > 2000, 'T>2000')):
        if cond:
            ctx.feat(f)
    n = c['atoms']
    kw = dict(FAST, fit_intercept=c['icpt'], progress=False)
    if c['s'] % 12 == 0:  # chains of every length
        kw.update(n_walkers=int(r.choice([8, 32, 100])), n_samples=int(r.choice([150, 800, 2500])), thin=int(r.choice([1, 2])))
        ctx.feat('long-chain')
    fits = 2 if r.random() < .3 else 1
    if not c['via']:
        V = float(10.0**r.uniform(1, 9))
        sc, ts = (1.0, .5) if r.random() < .4 else (float(10.0**r.uniform(-5, 3)), float(10.0**r.uniform(-4, 4)))
        dts, disp, n_o = walker(r, kind, n, 30, 14, sc, ts)
        q = r.choice([-1., 1., 2.], n) if r.random() < .5 else 1.0
        b = boots.make(kind, dts, disp, n_o, q, dimension=given, sub_sample_dt=c['ssd'])
        for k in range(fits):
            if k:
                T = T + 50
                kw['fit_intercept'] = not kw['fit_intercept']
                ctx.feat('refit')
            st = b.dt[1]
            if kind == 'D':
                b.diffusion(st, **kw)
            elif kind == 'J':
                b.jump_diffusion(st, **kw)
            else:
                b.conductivity(st, T, V, **kw)
            co, g = {'D': b.D, 'J': b.D_J, 'C': b.sigma}[kind].samples, b.gradient.samples
            ctx.close(co, g * factor(kind, len(dim), n, T, V), f'{gen.COEF[kind]} against gradient', rtol=1e-9)
        ctx.feat('direct')
    else:
        route, F = c['route'], 20 if n > 1 else 60
        fw = 3
        kp = {}
        if c['mol'] and n > 1 and n < 100:
            tot = 2 * n + fw
            sp = ['Li'] * (2 * n) + ['O'] * fw
            kp = dict(specie=None, specie_indices=[[2 * j + 1, 2 * j + 2] for j in range(n)])
            npt = 0.0
            ctx.feat('molecules')
        else:
            tot = n + fw
            sp = gen.species_list(r, tot, n, contiguous=True)
            npt = c['npt']
        L = gen.make_cell(r, c['cell'], lower=True)
        if r.random() < .25:
            L = L * float(r.choice([5, 20, 60]))
        if abs(np.linalg.det(L)) > 1e6:
            ctx.feat('V>1e6')
        t = gen.walk(r, tot, F, c['cell'], .15, 'random' if not npt else 'asis', sp, npt=npt, lower=True, cell_matrix=L)
        if kp:
            fr = t.x @ np.linalg.inv(L)
            fr[:, 1:2 * n:2] = fr[:, 0:2 * n:2] + .02
            t.all_frac, t.all_cells = gen.record(r, fr, t.cells, 'wrapped')
        extra = {}
        if kind == 'C' and r.random() < .5:
            extra['ionic_charge'] = r.choice([-1., 1., 2.], n)
            ctx.feat('charges')
        with gen.Scratch() as sd:
            a = gen.analyze(kind, route, gen.present(t, route, sd), gen.parser_kw(route, time_step=.1, **kp), uncertainty=dict(dimension=given, sub_sample_dt=c['ssd']), **extra)
            V = abs(np.linalg.det(t.cells[0]))
            for k in range(fits):
                if k:
                    T = T + 50
                    kw['fit_intercept'] = not kw['fit_intercept']
                    ctx.feat('refit')
                gen.fit(a, kind, a.dt[1], T=T, **kw)
                ctx.close(a.volume, V, 'volume', rtol=1e-5)
                dist = np.asarray(a.distribution)
                g = (dist[-1] - dist[0]) / (a.dt[-1] - a.dt[0]) if np.size(a.dt) > 1 else a.to_dict()['diff']['gradient']['samples']
                f = factor(kind, len(dim), n, T, V)
                big = np.abs(dist).max() / (a.dt[-1] - a.dt[0])  # cancellation in the difference quotient
                ctx.close(gen.coef(a, kind).samples, g * f, f'{gen.COEF[kind]} against gradient', rtol=3e-5 if route == 'universe' else 1e-7, atol=1e-12 * big * f)
                ctx.close(np.asarray(a.flatchain)[:, 0], gen.coef(a, kind).samples, 'flatchain', rtol=0)
            if r.random() < .4:
                import os
                a.save(os.path.join(sd, 'x'))
                l = type(a).load(os.path.join(sd, 'x'))
                gen.fit(l, kind, a.dt[1], T=T + 25, **kw)
                g = l.to_dict()['diff']['gradient']['samples']
                ctx.close(gen.coef(l, kind).samples, g * factor(kind, len(dim), n, T + 25, V), f'{gen.COEF[kind]} fitted after loading', rtol=3e-5 if route == 'universe' else 1e-7)
                ctx.feat('loaded')
        if npt:
            ctx.feat('npt')
        ctx.feat('analyzer', route)
        if c['cell'] in ('tri', 'hex'):
            ctx.feat('tri')
    ctx.trivial = np.unique(g).size < 3
    ctx.feat('conv', f'dim{len(dim)}')
    for cond, f in ((c['up'], 'upper-case'), (n > 100, 'atoms>100'), (n == 1, 'one-atom'), (isinstance(T, int), 'int-temperature'), (not c['icpt'], 'no-intercept'), (c['ssd'] > 1, 'sub_sample_dt')):
        if cond:
            ctx.feat(f)


def agree(ctx, x, y, msg, k=.45):
    """Two samples of the same posterior."""
    s = max(np.std(x), np.std(y))
    ctx.ok(abs(np.mean(x) - np.mean(y)) < k * s, msg + ' (mean)', got=np.mean(x), expected=np.mean(y), std=s)
    ctx.ok(.7 < np.std(x) / np.std(y) < 1.4, msg + ' (spread)', got=np.std(x), expected=np.std(y))


def run_scale(c, ctx, r, kind):
    n, F, be = 12, 60, c['be']
    L = gen.make_cell(r, 'ortho')
    t = gen.walk(r, n, F, hop=.3, images='wrapped', species=['Li'] * n, steps='normal', cell_matrix=L)
    res = []
    for a, b in ((1., 1.), (c['a'], 1.), (1., c['b'])):
        u = gen.Traj(t.species, t.x * a, t.cells * a, t.all_frac, t.all_cells * a)
        an = gen.analyze(kind, be, gen.present(u, be), gen.parser_kw(be, time_step=.1 * b))
        gen.fit(an, kind, an.dt[2], T=400., random_state=np.random.RandomState(5), n_samples=600)
        res.append(an)
    base, len_, tim = res
    f32 = be == 'universe'
    ctx.close(gen.value(len_, kind), gen.value(base, kind) * c['a']**2, 'mean-squared values with scaled positions', rtol=1e-4 if f32 else 1e-8, atol=1e-5 * gen.value(base, kind).max() * c['a']**2 if f32 else 0)
    ctx.close(tim.dt, base.dt * c['b'], 'intervals with a scaled time step', rtol=1e-9)
    ctx.close(gen.value(tim, kind), gen.value(base, kind), 'mean-squared values with a scaled time step', rtol=1e-8)
    g = gen.coef(base, kind).samples
    vol = c['a']**3 if kind == 'C' else 1.0
    if np.mean(g) / np.std(g) > 5:  # otherwise the non-negative gradient matters and chains mix slowly
        agree(ctx, gen.coef(len_, kind).samples * vol / c['a']**2, g, f'{gen.COEF[kind]} with positions scaled by {c["a"]}')
        agree(ctx, gen.coef(tim, kind).samples * c['b'], g, f'{gen.COEF[kind]} with the time step scaled by {c["b"]}')
    ctx.feat('scale')


def run_replica(c, ctx, r, kind):
    """Several replicas of the same walk of n ions: the coefficient is that of one cell, not a multiple."""
    n, F, be, R = 6, 50, c['be'], c['R']
    L = np.eye(3) * 12.
    T = 600.
    ts = [gen.walk(r, n, F, hop=.3, images='wrapped', species=['Li'] * n, steps='normal', cell_matrix=L) for _ in range(R)]
    if c['same'] and kind != 'J':  # literal copies leave the mean-squared values unchanged
        ts = [ts[0]] * R
    a = gen.analyze(kind, be, [gen.present(t, be) for t in ts], gen.parser_kw(be, time_step=.1), dtype='identical')
    gen.fit(a, kind, a.dt[1], T=T, random_state=np.random.RandomState(3), n_samples=400)
    g = a.to_dict()['diff']['gradient']['samples']
    V = 12.0**3
    ctx.close(gen.coef(a, kind).samples, g * factor(kind, 3, n * (R if kind == 'J' else 1), T, V), f'{gen.COEF[kind]} of {R} replicas', rtol=3e-5)
    # what the values mean: MSD per atom, MSTD of all ions analysed together, MSCD per cell
    single = [gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1)) for t in ts]
    m = np.mean([gen.value(s, kind) for s in single], axis=0)
    if kind != 'J':
        ctx.close(gen.value(a, kind), m, f'{gen.VALUE[kind]} of {R} replicas against their average', rtol=1e-6, atol=1e-6 * m.max())
        if c['same']:
            gen.fit(single[0], kind, a.dt[1], T=T, random_state=np.random.RandomState(3), n_samples=400)
            x, y = gen.coef(single[0], kind).samples, gen.coef(a, kind).samples
            if np.mean(x) / np.std(x) > 5:
                ctx.ok(abs(np.mean(y) - np.mean(x)) < .45 * np.std(x), f'{gen.COEF[kind]} of {R} copies differs from one', got=np.mean(y), expected=np.mean(x), std=np.std(x))
    ctx.feat('replica')
