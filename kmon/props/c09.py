"""C09: uncertainties use the number of independent observations."""
import numpy as np

from .. import boots, gen, ref
from ..core import case_seed, rng_for

ID = 'C09'
RULE = ('each case draws displacement sets with arbitrary observation counts (direct) or a trajectory with sampling, grid, replica and sub-sampling '
        'settings (analyzer), and compares every reported standard deviation and observation count with the definition; non-trivial when at '
        'least two intervals are compared')
REQUIRED = ['D', 'J', 'C', 'direct', 'analyzer', 'single-origin', 'multi-origin', 'identical', 'replicas>2', 'sub_sample_dt', 'logarithmic', 'max_dt', 'min_dt', 'n_steps<frames',
            'dimension<3', 'atoms>100', 'atoms>1000', 'intervals>100', 'intervals>500', 'windows>1000', 'replicas>6', 'ase', 'pymatgen', 'universe', 'sub>1', 'molecules', 'one-atom', 'sub_sample_dt+identical', 'few-windows', 'bootstrap-on', 'some-charges-zero', 'step_skip>1', 'npt', 'triclinic']
ASSUMPTIONS = ['longest analysed interval is that of the interval grid before sub_sample_dt']


def cases(tier, seed):
    n_cases = 3000 if tier == 'quick' else 80000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        kind = 'DJC'[i % 3]
        c = dict(k='direct' if i % 2 else 'analyzer', s=case_seed(ID, seed, i), ana=kind, dim=str(r.choice(boots.DIMS + ['xyz'] * 4)), style=str(r.choice(boots.STYLES)),
                 atoms=int(r.choice([1, 2, 5, 12])), m=int(r.choice([2, 4, 7, 20])), ssd=int(r.choice([1, 1, 2, 3, 5])), be=str(r.choice(gen.ROUTES)),
                 sampling='single-origin' if kind == 'D' and r.random() < .3 else 'multi-origin', spacing=str(r.choice(['linear', 'linear', 'logarithmic'])),
                 reps=int(r.choice([1, 1, 1, 2, 3, 5])), F=int(r.choice([6, 12, 30, 70])), lim=str(r.choice(['', '', '', 'min', 'max', 'both'])), sub=int(r.choice([1, 1, 2])),
                 ns=int(r.choice([100, 100, 5, 11])), mol=bool(r.random() < .15), bs=bool(i % 40 in (0, 1, 2)))
        if i % 80 == 4:
            c.update(atoms=130, F=8, reps=1)
        if i % 80 == 6:
            c.update(F=150, ns=150, lim='', atoms=2)
        if c['k'] == 'direct' and i % 80 == 7:
            c.update(m=140)
        if i % 120 == 9:
            c.update(m=int(r.choice([300, 520, 1050])), atoms=int(r.choice([1, 2])), k='direct')
        if i % 120 == 11:
            c.update(m=5, atoms=int(r.choice([300, 1100, 5200])), k='direct')
        if i % 120 == 13:
            c.update(m=5, atoms=2, k='direct', win=int(r.choice([300, 1100, 5300])))
        if i % 150 == 8:
            c.update(k='analyzer', atoms=int(r.choice([300, 1100])), F=8, reps=1, w=4)
        if i % 150 == 10:
            c.update(k='analyzer', atoms=2, F=int(r.choice([260, 520, 1100])), reps=1, ns=int(r.choice([100, 300, 2000])), lim='', w=5)
        if i % 150 == 14:
            c.update(k='analyzer', atoms=2, F=12, reps=int(r.choice([7, 11])), w=3)
        out.append(c)
    return out


def run(c, ctx):
    r = rng_for('run', c['s'])
    kind, dim, k = c['ana'], c['dim'], c['ssd']
    q = 1.0
    if c['k'] == 'direct':
        n = c['atoms']
        disp = boots.disps(r, n, c['m'], c['style'], max_windows=c.get('win') or int(r.choice([4, 15, 40])), min_windows=2)
        n_o = r.uniform(1.5, 500, c['m'])
        if c['bs'] and kind != 'D':  # at least one independent observation of the collective quantity
            n_o = n_o * n
        if kind == 'C':
            q = r.choice([-2., -1., 0., 1., 3.], n) if r.random() < .6 else float(r.choice([1, 2, -1]))
        dts = np.cumsum(r.uniform(.1, 2, c['m']))
        un = dict(bootstrap=True, n_resamples=5, max_resamples=10) if c['bs'] else {}
        b = boots.make(kind, dts, disp, n_o, q, dimension=dim, sub_sample_dt=k, **un)
        idx, m, v = boots.expected(kind, disp, n_o, dim, q, k)
        if not idx:
            ctx.trivial = True
            return
        ctx.close(b.s, np.sqrt(v), 'standard deviation', rtol=1e-8)
        ctx.close(b.v, v, 'variance', rtol=1e-8)
        ctx.close(np.asarray(b.n_i)[:len(idx)], n_o[idx], 'independent observations (n_i)', rtol=1e-12)
        ctx.close(b.dt, dts[idx], 'intervals', rtol=1e-12)
        ctx.feat('direct')
        if c['bs']:
            ctx.feat('bootstrap-on')
        nsel = n
    else:
        F, sub, reps = c['F'], c['sub'], c['reps']
        n_mob = c['atoms'] if not (c['sampling'] == 'single-origin' or kind != 'D') else max(2, c['atoms'])
        be = c['be']
        kw = dict(sampling=c['sampling'], spacing=c['spacing'], time_step=float(r.choice([.2, .2, .001, 3.])), step_skip=int(r.choice([1, 1, 2, 20, 500])), n_steps=c['ns'])
        dt = kw['time_step'] * kw['step_skip'] * sub
        if kw['step_skip'] > 1:
            ctx.feat('step_skip>1')
        if c['mol'] and n_mob > 1:
            n = 2 * n_mob + 3
            sp = ['Li'] * n
            kw.update(specie=None, specie_indices=[[2 * j + 1, 2 * j + 2] for j in range(n_mob)])
            ctx.feat('molecules')
        else:
            n = n_mob + 3
            sp = gen.species_list(r, n, n_mob)
        if c['lim'] in ('min', 'both') and F > 6:
            kw['min_dt'] = 3 * dt
        if c['lim'] in ('max', 'both') and F > 6:
            kw['max_dt'] = (F // 2 + 1) * dt
        L = gen.make_cell(r, str(r.choice(['ortho', 'ortho', 'cubic', 'tri', 'aniso'])), lower=True)
        npt = float(r.choice([0, 0, .02])) if 'specie_indices' not in kw else 0.
        if npt:
            ctx.feat('npt')
        if np.any(L - np.diag(np.diag(L))):
            ctx.feat('triclinic')
        ts = []
        for _ in range(reps):
            t = gen.walk(r, n, F, hop=.2, images='random', species=sp, cell_matrix=L, sub=sub, npt=npt)
            if 'specie_indices' in kw:
                fr = t.x @ np.linalg.inv(L)
                for j in range(n_mob):
                    fr[:, 2 * j + 1] = fr[:, 2 * j] + .01
                t.all_frac, t.all_cells = gen.record(r, fr, t.cells, 'random', sub)
            ts.append(t)
        if kind == 'C':
            q = r.choice([-2., -1., 0., 1., 3.], n_mob) if r.random() < .5 else 1.0
        extra = {'ionic_charge': q} if kind == 'C' else {}
        data = [gen.present(t, be) for t in ts]
        k2 = gen.parser_kw(be, **kw)
        if sub != 1:
            k2['sub_sample_traj'] = sub
        un = dict(bootstrap=True, n_resamples=5, max_resamples=10) if c['bs'] and c['sampling'] == 'multi-origin' else {}
        a = gen.analyze(kind, be, data if reps > 1 else data[0], k2, dtype='identical' if reps > 1 else None, uncertainty=dict(dimension=dim, sub_sample_dt=k, **un), **extra)
        td = a.to_dict()
        disp = [np.asarray(d, float) for d in td['disp_3d']]
        dts = np.asarray(td['delta_t'])
        tau = dts / dt
        nd = len(disp)
        # the documented count, from first principles
        n_o = (n_mob * tau[-1] / tau if c['sampling'] == 'multi-origin' else np.full(tau.size, float(n_mob))) * reps
        ctx.close(td['n_o'], n_o[:nd], 'number of independent observations', rtol=1e-9)
        idx = list(range(0, nd, k))
        if kind != 'D':
            idx = idx[:len(idx) // 2]
        keep, s_exp = [], []
        for i in idx:
            if kind == 'C' and reps > 1:
                if disp[i].shape[0] != n_mob:  # replicas are observations of one cell
                    ctx.ok(False, 'conductivity replicas are not separate observations', shape=disp[i].shape)
            o = ref.observed(disp[i], kind, dim, q)
            if o.size <= 1:
                continue
            ind = n_o[i] if kind == 'D' else (tau[-1] / tau[i] * (reps if kind == 'C' else 1))
            keep.append(i)
            s_exp.append(np.sqrt(np.var(o, ddof=1) / ind))
        f32 = be == 'universe'
        ctx.close(a.dt, dts[keep], 'intervals', rtol=1e-12)
        ctx.close(gen.std(a, kind), s_exp, f'{gen.VALUE[kind]}_std', rtol=1e-4 if f32 else 1e-9, atol=1e-6 * (np.max(s_exp) if s_exp else 0) if f32 else 0)
        ctx.feat('analyzer', be, c['sampling'], c['spacing'])
        for cond, f in ((reps > 1, 'identical'), (reps > 2, 'replicas>2'), ('max_dt' in kw, 'max_dt'), ('min_dt' in kw, 'min_dt'), (c['ns'] < F, 'n_steps<frames'), (sub > 1, 'sub>1'),
                        (reps > 1 and k > 1, 'sub_sample_dt+identical')):
            if cond:
                ctx.feat(f)
        idx, nsel = keep, n_mob
    ctx.trivial = len(idx) < 2
    if np.ndim(q) and np.any(q) and not np.all(q):
        ctx.feat('some-charges-zero')
    ctx.feat(kind)
    for cond, f in ((k > 1, 'sub_sample_dt'), (len(dim) < 3, 'dimension<3'), (nsel > 100, 'atoms>100'), (nsel > 1000, 'atoms>1000'), (len(disp) > 100, 'intervals>100'), (len(disp) > 500, 'intervals>500'), (disp[0].shape[1] > 1000, 'windows>1000'), (c['reps'] > 6 and c['k'] == 'analyzer', 'replicas>6'), (nsel == 1, 'one-atom'),
                    (min(d.shape[1] for d in disp) <= 3, 'few-windows')):
        if cond:
            ctx.feat(f)
