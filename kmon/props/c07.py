"""C07: the five input routes agree on the same physical trajectory."""
import numpy as np

from .. import gen, ref
from ..core import case_seed, rng_for
from .c12 import factor

ID = 'C07'
RULE = ('each case draws one physical trajectory and analyses it through all five routes (ASE, pymatgen, Xdatcar object, XDATCAR file, '
        'MDAnalysis) with the same settings in physical units, comparing intervals, mean-squared values, uncertainties, displacement '
        'distributions, observation counts and volume with one another and with the true motion; non-trivial when atoms cross boundaries')
REQUIRED = ['D', 'J', 'C', 'ase', 'pymatgen', 'Xdatcar', 'file', 'universe', 'sub>1', 'npt', 'tri', 'single-origin', 'logarithmic', 'min_dt', 'max_dt', 'dimension<3',
            'sub_sample_dt', 'charges-array', 'framework-list', 'indices', 'molecules', 'fit', 'atoms>100', 'atoms>300', 'frames>100', 'identical', 'step_skip>1', 'images:wrapped', 'images:random', 'species>2', 'left-handed', 'n_steps', 'between-steps']
ASSUMPTIONS = ['MDAnalysis stores float32 coordinates: comparison tolerance scales with float32 precision', 'XDATCAR files written with 12 decimals']


def cases(tier, seed):
    n_cases = 800 if tier == 'quick' else 15000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        c = dict(k='routes', s=case_seed(ID, seed, i), ana='DJC'[i % 3], n=int(r.choice([3, 6, 12, 25])), F=int(r.choice([8, 15, 40])),
                 cell=str(r.choice(['cubic', 'ortho', 'aniso', 'tri', 'hex'])), sub=int(r.choice([1, 1, 2, 3])), npt=float(r.choice([0, 0, .03])),
                 sampling=str(r.choice(['multi-origin', 'multi-origin', 'single-origin'])) if i % 3 == 0 else 'multi-origin',
                 spacing=str(r.choice(['linear', 'linear', 'logarithmic'])), dim=str(r.choice(['xyz', 'xyz', 'x', 'y', 'z', 'xy', 'xz', 'yz'])),
                 ssd=int(r.choice([1, 1, 2])), sel=str(r.choice(['species', 'species', 'indices', 'molecules'])), fw=str(r.choice(['default', 'list'])),
                 dtype=str(r.choice(['', '', '', 'identical'])), fit=bool(i % 9 < 3 and i % 2 == 0), skip=int(r.choice([1, 1, 10, 3, 250, 2000])), ts=float(r.choice([.1, .1, .001, .0005, 2., .04])), nst=int(r.choice([0, 0, 0, 4, 9, 300])),
                 images=str(r.choice(['random', 'wrapped', 'unwrapped'])), lim=str(r.choice(['', '', 'min', 'max', 'both'])))
        if i % 20 == 0:
            c.update(n=120, F=8, fit=False)
        if i % 100 == 7:
            c.update(n=int(r.choice([400, 1050])), F=7, fit=False, sub=1, dtype='', lim='', ssd=1, w=5)
        if i % 100 == 57:
            c.update(n=6, F=int(r.choice([150, 300, 1050])), fit=False, sub=1, dtype='', w=6)
        if i % 7 == 3:
            c['left'] = True
        if c['fit']:
            c.update(F=40, dtype='', sampling='multi-origin', ssd=1, n=12, lim='')
        if c['sel'] == 'molecules':
            c['npt'] = 0.
        if c['lim'] or c['ssd'] > 1:
            c['F'] = max(c['F'], 25)
        out.append(c)
    return out


def run(c, ctx):
    r = rng_for('run', c['s'])
    n, F, sub, kind = c['n'], c['F'], c['sub'], c['ana']
    n_mob = max(2, n // 2)
    sp = gen.species_list(r, n, n_mob, others=('O', 'S') if n > 3 else ('O', ), contiguous=True)
    trs = []
    L = gen.make_cell(r, c['cell'], lower=True)
    routes = gen.ROUTES
    if c.get('left'):  # cell vectors in left-handed order: the formats that store vectors can express them
        L = L * np.where(np.arange(3) == int(r.integers(3)), -1., 1.)[:, None]
        routes = [q for q in routes if q != 'universe']
        ctx.feat('left-handed')
    for _ in range(2 if c['dtype'] else 1):
        t = gen.walk(r, n, F, c['cell'], .15, c['images'], sp, sub, int(r.integers(0, sub)), c['npt'], lower=True, steps='normal', cell_matrix=L)
        trs.append(t)
    if c['sel'] == 'molecules':
        # pairs that move together
        nm = n // 3
        for t in trs:
            a, b = np.arange(nm), np.arange(nm, 2 * nm)
            inv = np.linalg.inv(L)
            t.x[:, b] = t.x[:, a] + (r.uniform(-.2, .2, (nm, 3)) @ L)[None]
            fr = t.x @ inv
            t.all_frac, t.all_cells = gen.record(r, fr, t.cells, c['images'], sub, int(r.integers(0, sub)))
        mols = [[k, nm + k] for k in range(nm)]
        kw = dict(specie=None, specie_indices=[[p + 1, q + 1] for p, q in mols])
        if r.random() < .5:
            kw['masses'] = [1.0, 3.0]
        rest = list(range(2 * nm, n))
        if c['fw'] == 'list' and rest:
            kw['framework_indices'] = [q + 1 for q in rest[:max(1, len(rest) // 2)]]
        n_sel = nm
    else:
        ids = [i for i, s in enumerate(sp) if s == 'Li']
        if c['sel'] == 'indices':
            ids = r.permutation(ids).tolist()
            kw = dict(specie=None, specie_indices=ids)
        else:
            kw = dict(specie='Li')
        rest = [i for i in range(n) if i not in ids]
        if c['fw'] == 'list':
            kw['framework_indices'] = rest[:max(1, len(rest) // 2)]
        n_sel = len(ids)
    if n_sel < 2 and c['sampling'] == 'single-origin':
        c = dict(c, sampling='multi-origin')
    dt = c['ts'] * c['skip'] * sub
    kw.update(sampling=c['sampling'], spacing=c['spacing'], time_step=c['ts'], step_skip=c['skip'])
    if c['nst'] and not c['fit'] and F > 10 and not c['lim'] and (kind == 'D' or c['nst'] > 8):
        kw['n_steps'] = c['nst']
        ctx.feat('n_steps')
    if r.random() < .2:
        kw['memory_limit'] = 4
    if r.random() < .05:
        kw['progress'] = True
    if c['lim'] in ('min', 'both'):
        kw['min_dt'] = float(r.choice([2, 1.5])) * dt
    if c['lim'] in ('max', 'both'):
        kw['max_dt'] = (F - float(r.choice([4, 3.5]))) * dt
    if (kw.get('min_dt', 0) / dt) % 1 > .1:
        ctx.feat('between-steps')
    extra = {}
    if kind == 'C':
        extra['ionic_charge'] = r.choice([-2, -1, 1, 2, 3], n_sel).astype(float) if r.random() < .6 else float(r.choice([1, -1, 2]))
        if np.ndim(extra['ionic_charge']):
            ctx.feat('charges-array')
    un = dict(dimension=c['dim'], sub_sample_dt=c['ssd'])
    res = {}
    with gen.Scratch() as d:
        for route in routes:
            data = [gen.present(t, route, d) for t in trs]
            k2 = gen.parser_kw(route, **kw)
            if sub != 1:
                k2['sub_sample_traj'] = sub
            a = gen.analyze(kind, route, data if c['dtype'] else data[0], k2, dtype=c['dtype'] or None, uncertainty=un, **extra)
            if c['fit']:
                gen.fit(a, kind, 2.5 * dt, T=500., n_walkers=8, n_samples=30, n_burn=10, thin=3)
            res[route] = a
            ctx.feat(route)
    # the true motion, as a common reference
    if c['sel'] == 'molecules':
        w = np.array(kw.get('masses', [1., 1.]))
        cen = [np.einsum('a,fkax->fkx', w / w.sum(), t.x[:, np.array(mols)]) for t in trs]
        fw = [q - 1 for q in kw['framework_indices']] if 'framework_indices' in kw else rest
    else:
        cen = [t.x[:, ids] for t in trs]
        fw = kw.get('framework_indices', rest)
    truth = [x - t.x[:, fw].mean(1)[:, None] if len(fw) else x for x, t in zip(cen, trs)]
    b = res['pymatgen']
    v0, s0 = gen.value(b, kind), gen.std(b, kind)
    scale = max(1e-12, float(np.max(v0)))
    tau = np.round(b.dt / dt).astype(int)
    for q, tt in enumerate(tau):  # truth including the leading observation the back ends report (see C03)
        dd = []
        for x in truth:
            first = (x[tt - 1] - x[0])[:, None]
            if c['sampling'] == 'single-origin':
                dd.append(first)
            else:
                dd.append(np.concatenate([first, ref.windows(x, tt)], axis=1))
        if kind == 'C':
            dd = [np.concatenate(dd, axis=1)]
        o = ref.observed(np.concatenate(dd, axis=0), kind, c['dim'], extra.get('ionic_charge', 1.))
        if len(np.asarray(b.dr[q].samples)) == sum(x.shape[0] * x.shape[1] for x in dd):
            ctx.close(v0[q], o.mean(), f'{gen.VALUE[kind]} at {tt} frames against the true motion', rtol=1e-7, atol=1e-9 * scale)
        else:
            ctx.count('layout_without_leading_observation')
    vol = abs(np.linalg.det(trs[0].cells[0]))
    for route, a in res.items():
        f32 = route == 'universe'
        rt = 2e-3 if f32 else 1e-7
        coord = max(t.scale for t in trs) + float(np.abs(L).max())
        err = (4e-6 if f32 else 1e-10) * coord * np.sqrt(F)
        # relative error of a squared displacement of size sqrt(scale)
        at = 2 * np.sqrt(scale) * err * (n_sel if kind != 'D' else 1) * 3 + err**2 * n_sel
        rt = 1e-5 if f32 else 1e-8
        ctx.close(a.dt, b.dt, f'intervals of route {route} against pymatgen', rtol=1e-9)
        ctx.close(gen.value(a, kind), v0, f'{gen.VALUE[kind]} of route {route} against pymatgen', rtol=rt, atol=at)
        ctx.close(gen.std(a, kind), s0, f'{gen.VALUE[kind]}_std of route {route} against pymatgen', rtol=rt, atol=at)
        ctx.close(a.volume, vol, f'volume of route {route} against the first cell', rtol=1e-5 if f32 else 1e-8)
        ctx.ok(len(a.dr) == len(b.dr), f'number of displacement distributions of route {route}')
        for p, q in zip(a.dr, b.dr):
            ctx.close(np.sort(p.samples), np.sort(q.samples), f'displacement lengths of route {route}', rtol=rt, atol=3 * err)
        ctx.close(a.to_dict()['n_o'], b.to_dict()['n_o'], f'independent observations of route {route}', rtol=1e-9)
        if c['fit']:  # the same physical quantity from the gradient (the chains themselves differ by the precision of the input: C11, C14)
            da, db = a.to_dict()['diff'], b.to_dict()['diff']
            g, cm = np.asarray(da['gradient']['samples']), np.asarray(db['covariance_matrix'])
            f = factor(kind, len(c['dim']), n_sel * len(trs), 500., vol)
            ctx.close(gen.coef(a, kind).samples, g * f, f'{gen.COEF[kind]} of route {route} against the fitted gradient', rtol=1e-5 if f32 else 1e-7)
            ctx.close(da['covariance_matrix'], cm, f'covariance of route {route}', rtol=0, atol=(1e-4 if f32 else 1e-7) * np.abs(cm).max())
            ctx.feat('fit')
    ctx.trivial = bool(np.all(np.floor(trs[0].x @ np.linalg.inv(trs[0].cells[0]))[0] == np.floor(trs[0].x @ np.linalg.inv(trs[0].cells[0]))))
    ctx.feat(kind, c['sampling'], c['spacing'], c['cell'], 'images:' + c['images'], c['sel'])
    for cond, f in ((sub > 1, 'sub>1'), (c['npt'] > 0, 'npt'), ('min_dt' in kw, 'min_dt'), ('max_dt' in kw, 'max_dt'), (len(c['dim']) < 3, 'dimension<3'),
                    (c['ssd'] > 1, 'sub_sample_dt'), ('framework_indices' in kw, 'framework-list'), (n > 100, 'atoms>100'), (n > 300, 'atoms>300'), (F > 100, 'frames>100'), (c['dtype'], 'identical'),
                    (c['skip'] > 1, 'step_skip>1'), (len(set(sp)) > 2, 'species>2')):
        if cond:
            ctx.feat(f)
