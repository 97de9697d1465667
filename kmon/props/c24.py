"""C24: results respect the symmetries of the problem (pairs of runs on transformed trajectories)."""
import numpy as np

from .. import gen
from ..core import case_seed, rng_for
from .c12 import factor

ID = 'C24'
RULE = ('each case analyses one trajectory and its transformed copy (shifted, axes permuted, mirrored, rotated, cell vectors relabelled, lengths or times in another scale, atoms reordered, cell doubled) through one route and compares '
        'intervals, mean-squared values, standard deviations, displacement lengths, observation counts, the interval of largest non-Gaussian parameter, volume and - in the cases with a fit - covariance and estimates; non-trivial when something moves')
MOVES = ('shift', 'axes', 'mirror', 'rotate', 'relabel', 'length', 'time', 'order', 'supercell')
REQUIRED = ['D', 'J', 'C', 'ase', 'pymatgen', 'Xdatcar', 'file', 'universe', 'npt', 'tri', 'ortho', 'sub>1', 'dimension<3', 'single-origin', 'logarithmic', 'min_dt', 'max_dt', 'sub_sample_dt', 'fit', 'framework', 'no-framework', 'identical', 'molecules',
            'frames>100', 'bootstrap-off', 'charges', 'pinned'] + ['move:' + m for m in MOVES]
ASSUMPTIONS = ['shifting and doubling the cell are symmetries at constant cell only: with a changing cell the unwrapping scheme refers displacements to the positions in the cell',
               'the estimates of the two runs are compared within a fraction of their standard deviation, since rounding may change single acceptance decisions of the sampler']


def cases(tier, seed):
    out = []
    for i in range(900 if tier == 'quick' else 15000):
        r = rng_for(ID, seed, i)
        mv = MOVES[i % len(MOVES)]
        c = dict(k='pair', s=case_seed(ID, seed, i), move=mv, ana='DJC'[(i // len(MOVES)) % 3], be=str(r.choice(gen.ROUTES)), n=int(r.choice([4, 7, 12, 20])), F=int(r.choice([10, 16, 40])),
                 cell=str(r.choice(['cubic', 'ortho', 'aniso', 'tri', 'tri', 'hex', 'general', 'near', 'mono'])), sub=int(r.choice([1, 1, 2, 3])), npt=float(r.choice([0, 0, .02])), dim=str(r.choice(['xyz', 'xyz', 'x', 'y', 'z', 'xy', 'xz', 'yz'])),
                 sampling=str(r.choice(['multi-origin'] * 4 + ['single-origin'])), spacing=str(r.choice(['linear', 'linear', 'logarithmic'])), lim=str(r.choice(['', '', 'min', 'max', 'both'])), ssd=int(r.choice([1, 1, 1, 2])),
                 fw=bool(r.random() < .6), rep=bool(r.random() < .15), mol=bool(r.random() < .12), fit=bool(i % 5 == 2), images=str(r.choice(['wrapped', 'random', 'unwrapped'])), boot=bool(r.random() < .3), ch=bool(r.random() < .5))
        if i % 60 == 16:
            c.update(F=int(r.choice([130, 210])), n=5)
        if mv in ('shift', 'supercell'):
            c['npt'] = 0.
        if mv == 'supercell':
            c.update(mol=False, rep=False)
            if c['ana'] != 'D':
                c['ana'] = 'D'
        if mv == 'rotate':
            c.update(dim='xyz')
            if c['be'] == 'universe':
                c['be'] = 'pymatgen'
        if c['mol']:
            c.update(npt=0., fit=False, ch=False)
        if c['fit']:
            c.update(F=60, ana='D', sampling='multi-origin', spacing='linear', ssd=1, lim='', rep=False, n=20)
        if c['sampling'] == 'single-origin':
            c['ana'] = 'D'
        out.append(c)
    return out


def rotation(r):
    q, _ = np.linalg.qr(r.normal(size=(3, 3)))
    return q * np.sign(np.linalg.det(q))


def transform(t, c, r, P):
    """The transformed trajectory; P is shared by all replicas of one case."""
    f, L = t.all_frac.copy(), t.all_cells.copy()
    sp = list(t.species)
    mv = c['move']
    if mv == 'shift':
        f = f + P['shift']
    elif mv == 'axes':
        L = L[:, :, P['perm']]
        if c['be'] == 'universe':  # stores lengths and angles only: the cell vectors stay along x, y, z
            L = L[:, P['perm'], :]
            f = f[:, :, P['perm']]
    elif mv == 'mirror':
        s = np.where(np.isin(np.arange(3), P['mirror']), -1., 1.)
        if c['be'] == 'universe' or P['keep']:  # an orthorhombic cell is its own mirror image
            f = f * s
        else:
            L = L * s
    elif mv == 'rotate':
        L = L @ P['rot']
    elif mv == 'relabel':
        if c['be'] == 'universe':
            f = f @ np.linalg.inv(P['uni'])
            L = P['uni'] @ L
        else:
            L = L[:, P['perm'], :] * P['sign'][:, None]
            f = f[:, :, P['perm']] * P['sign']
    elif mv == 'length':
        L = L * P['lam']
    elif mv == 'order':
        f = f[:, P['order']]
        sp = [sp[i] for i in P['order']]
    elif mv == 'supercell':
        a = P['vec']
        L = L.copy()
        L[:, a] *= 2
        g = np.einsum('fij,fjk->fik', t.x, np.linalg.inv(L[::t.sub]))  # from the continuous motion: images of the small cell are not images of the large one
        h = g.copy()
        h[:, :, a] += .5
        f, L = gen.record(r, np.concatenate([g, h], axis=1), L[::t.sub], c['images'], t.sub)
        sp = sp + sp
        if c['be'] in ('Xdatcar', 'file'):  # species must stay contiguous
            o = np.argsort([sorted(set(sp), key=sp.index).index(s) for s in sp], kind='stable')
            f, sp = f[:, o], [sp[i] for i in o]
    x = np.einsum('fij,fjk->fik', f, L)[::t.sub]
    return gen.Traj(sp, x, L[::t.sub], f, L, t.sub)


def run(c, ctx):
    r = rng_for('run', c['s'])
    kind, be, n, F, sub, mv = c['ana'], c['be'], c['n'], c['F'], c['sub'], c['move']
    xd = be in ('Xdatcar', 'file')
    cell = c['cell']
    if be == 'universe' and (mv != 'shift' and cell not in ('cubic', 'ortho', 'aniso')):
        cell = str(r.choice(['cubic', 'ortho', 'aniso']))
    mob = max(2, n // 2)
    others = ('O', 'S') if n > 4 else ('O', )
    sp = gen.species_list(r, n, mob, others=others, contiguous=xd) if c['fw'] else ['Li'] * n
    if not c['fw']:
        mob = n
    L = gen.make_cell(r, cell, lower=be == 'universe')
    R = 2 if c['rep'] else 1
    extra, sel = {}, {}
    if c['mol'] and mob >= 4:
        li = [i for i, s in enumerate(sp) if s == 'Li']
        m = len(li) // 2
        idx = np.array(li[:2 * m]).reshape(m, 2)
    else:
        idx = None
    ts = []
    pins = []
    if n > 4 and r.random() < .3:  # one atom of the framework, or else any one, sits on a special position
        pins = [int(r.choice([i for i, s in enumerate(sp) if s != 'Li' or not c['fw']]))]
        ctx.feat('pinned')
    for _ in range(R):
        if idx is None:
            t = gen.walk(r, n, F, cell, .2, c['images'], sp, sub, int(r.integers(0, sub)), c['npt'], lower=be == 'universe', steps='normal' if c['fit'] else str(r.choice(['uniform', 'normal', 'heavy'])), cell_matrix=L, pinned=pins)
        else:  # both atoms of a molecule move together, less than a fifth of the cell apart
            t = gen.walk(r, n, F, cell, .2, 'unwrapped', sp, 1, 0, 0., lower=be == 'universe', steps='normal', cell_matrix=L)
            f = t.all_frac.copy()
            f[:, idx[:, 1]] = f[:, idx[:, 0]] + r.uniform(-.1, .1, (len(idx), 3)) + r.uniform(-.02, .02, (F, len(idx), 3))
            f, cells = gen.record(r, f, t.all_cells, c['images'], sub)
            t = gen.Traj(sp, t.x, t.cells, f, cells, sub)
        ts.append(t)
    P = dict(shift=r.uniform(-1, 1, 3), perm=[int(i) for i in r.permutation(3)], mirror=[int(i) for i in r.choice(3, int(r.integers(1, 4)), replace=False)], rot=rotation(r), sign=r.choice([-1., 1.], 3) if not c['npt'] else np.ones(3), keep=cell in ('cubic', 'ortho', 'aniso') and not c['npt'] and r.random() < .5,
             lam=float(10.0**r.uniform(-1, 1)), tau=float(r.choice([1e-3, .02, .5, 7., 250.])), vec=int(r.integers(3)), uni=np.eye(3))
    while P['perm'] == [0, 1, 2]:
        P['perm'] = [int(i) for i in r.permutation(3)]
    o = r.permutation(n)
    if xd:
        o = o[np.argsort([sorted(set(sp), key=sp.index).index(sp[i]) for i in o], kind='stable')]
    P['order'] = o
    lam, tau = P['lam'] if mv == 'length' else 1., P['tau'] if mv == 'time' else 1.
    dim2 = c['dim']
    if mv == 'axes':  # new axis j is the old axis perm[j]
        dim2 = ''.join(sorted('xyz'[P['perm'].index('xyz'.index(a))] for a in c['dim']))
    h = float(r.choice([.1, 1., .002]))
    frame = h * sub
    kw = {}
    if c['spacing'] != 'linear':
        kw['spacing'] = 'logarithmic'
        ctx.feat('logarithmic')
    if c['sampling'] != 'multi-origin':
        kw['sampling'] = 'single-origin'
        ctx.feat('single-origin')
    if c['lim'] in ('min', 'both'):
        kw['min_dt'] = 2.5 * frame
        ctx.feat('min_dt')
    if c['lim'] in ('max', 'both'):
        kw['max_dt'] = (F - 2.5) * frame
        ctx.feat('max_dt')
    if r.random() < .3 and not c['fit']:
        kw['n_steps'] = int(r.choice([5, 60]))
    q = None
    if kind == 'C' and c['ch']:
        q = r.choice([-1., 1., 2.], mob)
        ctx.feat('charges')
    boot = {} if c['boot'] else dict(bootstrap=False)
    if not c['boot']:
        ctx.feat('bootstrap-off')

    def one(trs, dim, tau, order=None):
        k = {a: (v * tau if a in ('min_dt', 'max_dt') else v) for a, v in kw.items()}
        k = gen.parser_kw(be, time_step=h * tau, **k)
        if sub > 1:
            k['sub_sample_traj'] = sub
        if idx is not None:
            where = idx if order is None else np.argsort(order)[idx]
            k.update(specie=None, specie_indices=[[int(a) + 1 for a in row] for row in where])
        e = {}
        if q is not None:
            e['ionic_charge'] = charges(order)
        data = [gen.present(t, be) for t in trs]
        u = dict(dimension=dim, sub_sample_dt=c['ssd'], **boot)
        if c['boot']:
            u.update(random_state=np.random.RandomState(c['s'] % 2**31), n_resamples=40, max_resamples=60)
        a = gen.analyze(kind, be, data if R > 1 else data[0], k, dtype='identical' if R > 1 else None, uncertainty=u, **e)
        if c['fit']:
            gen.fit(a, kind, 3.5 * frame * tau, T=500., random_state=np.random.RandomState(c['s'] % 2**31), n_samples=250, n_burn=250)
        return a

    def charges(order):
        if order is None:
            return q
        of = {i: v for i, v in zip([i for i in range(n) if sp[i] == 'Li'], q)}
        return np.array([of[i] for i in order if sp[i] == 'Li'])

    a = one(ts, c['dim'], 1.)
    ts2 = [transform(t, c, r, P) for t in ts]
    b = one(ts2, dim2, tau, P['order'] if mv == 'order' else None)
    where = f"{mv} {kind} {be} {c['dim']}"
    # --- comparison ---
    v, w, s, u = gen.value(a, kind), gen.value(b, kind), gen.std(a, kind), gen.std(b, kind)
    ctx.ok(np.asarray(a.dt).shape == np.asarray(b.dt).shape and v.shape == w.shape and s.shape == u.shape, f'{where}: number of intervals', a=np.size(a.dt), b=np.size(b.dt))
    ctx.close(np.asarray(b.dt), np.asarray(a.dt) * tau, f'{where}: intervals', rtol=1e-9)
    f32 = be == 'universe'
    e1 = max(max(gen.tol(t, be) for t in ts) * lam, max(gen.tol(t, be) for t in ts2))
    A, B = a.dr, b.dr
    ctx.ok(len(A) == len(B), f'{where}: number of displacement distributions')
    na = 2 if mv == 'supercell' else 1
    big = 0.
    for i, (x, y) in enumerate(zip(A, B)):
        x, y = np.sort(np.asarray(x.samples).ravel()), np.sort(np.asarray(y.samples).ravel())
        if na == 2:
            x = np.repeat(x, 2)
        big = max(big, float(x.max()) * lam)
        ctx.close(y, x * lam, f'{where}: displacement lengths of interval {i}', rtol=1e-9, atol=2 * e1)
    N = 1 if kind == 'D' else mob * R * (2 if q is not None else 1)
    e2 = (4 * N * big * e1 + 4 * (N * e1)**2) * N if kind != 'D' else 4 * big * e1 + 4 * e1**2
    ctx.close(w, v * lam**2, f'{where}: mean-squared values', rtol=1e-8, atol=e2)
    if na == 1:
        ctx.close(u, s * lam**2, f'{where}: standard deviations', rtol=1e-6, atol=4 * e2)
    else:
        ob = np.array([np.size(x.samples) for x in A], float)
        ctx.close(u, s * np.sqrt(.5 * (2 * ob - 2) / (2 * ob - 1)), f'{where}: standard deviations', rtol=1e-6, atol=4 * e2)
    na_o, nb_o = np.asarray(a.to_dict()['n_o'], float), np.asarray(b.to_dict()['n_o'], float)
    ctx.close(nb_o, na_o * na, f'{where}: independent observations', rtol=1e-9)
    ctx.close(b.volume, a.volume * lam**3 * na, f'{where}: volume', rtol=3e-6 if f32 else 1e-8)
    if not f32:
        m4 = np.array([np.mean(np.asarray(x.samples)**4) / np.mean(np.asarray(x.samples)**2)**2 if np.any(x.samples) else 0 for x in A])
        top = np.sort(m4)
        if top.size < 2 or top[-1] - top[-2] > 1e-6 * top[-1]:
            ctx.close(b.ngp_max, a.ngp_max * tau, f'{where}: interval of the largest non-Gaussian parameter', rtol=1e-9)
    if c['fit']:
        ctx.feat('fit')
        ca, cb = (np.asarray(x.to_dict()['diff']['covariance_matrix']) for x in (a, b))
        ctx.ok(ca.shape == cb.shape, f'{where}: shape of the covariance')
        if na == 1:
            scale = np.abs(ca).max() * lam**4
            ctx.ok(np.abs(cb - ca * lam**4).max() <= 1e-5 * scale + 40 * np.sqrt(scale) * e2, f'{where}: covariance', worst=np.abs(cb - ca * lam**4).max() / scale)
            ga, gb = gen.coef(a, kind).samples, gen.coef(b, kind).samples
            k = lam**2 / tau / (lam**3 if kind == 'C' else 1)
            d = abs(gb.mean() / k - ga.mean()) / ga.std()
            ctx.ok(d < .8, f'{where}: estimate', a=ga.mean(), b=gb.mean() / k, in_std=d)
            ctx.ok(.5 < gb.std() / k / ga.std() < 2, f'{where}: standard deviation of the estimate', a=ga.std(), b=gb.std() / k)
    ctx.trivial = not np.any(v > 0)
    ctx.sig = ('c24', mv, kind, be, cell, c['dim'], sub, c['npt'] > 0, c['sampling'], c['lim'])
    ctx.feat(kind, be, 'move:' + mv, 'framework' if c['fw'] else 'no-framework')
    if c['npt']:
        ctx.feat('npt')
    if cell in ('tri', 'hex', 'general', 'near', 'mono'):
        ctx.feat('tri')
    else:
        ctx.feat('ortho')
    if sub > 1:
        ctx.feat('sub>1')
    if len(c['dim']) < 3:
        ctx.feat('dimension<3')
    if c['ssd'] > 1:
        ctx.feat('sub_sample_dt')
    if R > 1:
        ctx.feat('identical')
    if idx is not None:
        ctx.feat('molecules')
    if F > 100:
        ctx.feat('frames>100')
    ctx.count('intervals_compared', v.size)
    ctx.count('displacements_compared', int(sum(np.size(x.samples) for x in A)))
