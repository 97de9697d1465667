"""C08: MSD, MSTD and MSCD are the defined averages over the requested axes."""
import numpy as np

from .. import boots, gen, ref
from ..core import case_seed, rng_for

ID = 'C08'
RULE = ('each case draws a displacement set (or a trajectory) whose axes differ by orders of magnitude and compares every reported value with '
        'the definition evaluated independently, for one quantity, axis choice and charge assignment; non-trivial when at least two intervals '
        'with at least two windows are compared')
REQUIRED = ['D', 'J', 'C'] + [f'{k}:{d}' for k in 'DJC' for d in boots.DIMS] + ['upper-case', 'charge:scalar', 'charge:array', 'charge:list', 'charge:negative', 'charge:zero', 'charge:int',
            'sub_sample_dt', 'intervals>100', 'intervals>500', 'atoms>200', 'atoms>1000', 'windows>1000', 'big:atoms', 'big:frames', 'big:replicas', 'one-atom', 'analyzer', 'odd-intervals', 'one-window-last', 'float32', 'block', 'identical'] + boots.STYLES
ASSUMPTIONS = ['mixed-case or permuted axis names are not specified and not tried']


def cases(tier, seed):
    n_cases = 3600 if tier == 'quick' else 90000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        kind = 'DJC'[i % 3]
        c = dict(k='direct' if i % 5 else 'analyzer', s=case_seed(ID, seed, i), ana=kind, dim=boots.DIMS[(i // 3) % 7], style=str(r.choice(boots.STYLES)),
                 atoms=int(r.choice([1, 2, 3, 7, 20])), m=int(r.choice([2, 3, 5, 8, 13, 30])), up=bool(r.random() < .25),
                 ch=str(r.choice(['scalar', 'array', 'array', 'list', 'negative', 'zero', 'int'])), ssd=int(r.choice([1, 1, 1, 2, 3, 7])), f32=bool(r.random() < .1),
                 one=bool(r.random() < .3))
        if i % 60 == 2:
            c.update(m=int(r.choice([101, 130, 202])), atoms=2, k='direct')
        if i % 60 == 4:
            c.update(atoms=int(r.choice([201, 500, 1100, 5200])), m=5, k='direct')
        if i % 90 == 7:
            c.update(win=int(r.choice([300, 1100, 5300])), m=4, atoms=int(r.choice([1, 2])), k='direct')
        if i % 180 == 11:
            c.update(m=int(r.choice([520, 1050])), atoms=2, k='direct')
        if i % 100 == 5:
            c.update(big=str(r.choice(['atoms', 'frames', 'replicas'])), k='analyzer', w=4)
        out.append(c)
    return out


def charge_of(r, ch, n):
    if ch == 'scalar':
        return float(r.choice([1., 2., .5]))
    if ch == 'int':
        return int(r.choice([1, 2, 3]))
    if ch == 'negative':
        return float(-r.integers(1, 4))
    if ch == 'zero':
        q = r.choice([-1., 1., 2.], n)
        q[int(r.integers(n))] = 0.
        return q
    q = r.choice([-3, -2, -1, -.5, .5, 1, 2, 3, 4], n).astype(float)
    return q.tolist() if ch == 'list' else q


def run(c, ctx):
    r = rng_for('run', c['s'])
    kind, dim, k = c['ana'], c['dim'], c['ssd']
    given = dim.upper() if c['up'] else dim
    if c['k'] == 'direct':
        n = c['atoms']
        disp = boots.disps(r, n, c['m'], c['style'], max_windows=c.get('win') or int(r.choice([4, 15, 40])), min_windows=1 if c['one'] else 2)
        if c['f32']:
            disp = [d.astype(np.float32) for d in disp]
        if n == 1 and kind == 'D' and c['one']:
            disp = [d if d.shape[1] > 1 else np.concatenate([d, d + 1], axis=1) for d in disp]
        n_o = r.uniform(2, 50, c['m'])
        q = charge_of(r, c['ch'], n) if kind == 'C' else 1.0
        dts = np.cumsum(r.uniform(.1, 2, c['m']))
        b = boots.make(kind, dts, disp, n_o, q, dimension=given, sub_sample_dt=k)
        idx, m, v = boots.expected(kind, disp, n_o, dim, q, k)
        got, got_dt = np.asarray(b.n), np.asarray(b.dt)
        if c['f32']:
            ctx.feat('float32')
        if len(idx) and disp[idx[-1]].shape[1] == 1 or (kind != 'D' and c['one']):
            ctx.feat('one-window-last')
        if kind == 'C' and isinstance(q, np.ndarray):
            ctx.feat('charge:array')
        if kind == 'C':
            ctx.feat('charge:' + c['ch'])
        if c['s'] % 4 == 0 and all(d.shape[1] > 3 for d in disp) and k == 1 and len(idx):
            # blocking changes the variance; its mean is that of the observations up to those dropped by halving
            bb = boots.make(kind, dts, disp, n_o, q, dimension=given, sub_sample_dt=k, block=True)
            for g, i in zip(bb.n, idx):
                o = ref.observed(disp[i], kind, dim, q)
                ctx.ok(o.min() - 1e-9 * abs(o.max()) <= g <= o.max() * (1 + 1e-9), 'blocked mean outside the range of the observations', got=g, low=o.min(), high=o.max())
            ctx.feat('block')
    else:
        n_mob, F = max(2, c['atoms']), int(r.choice([9, 20, 41]))
        if c.get('big') == 'atoms':
            n_mob, F = int(r.choice([300, 1100])), 9
        if c.get('big') == 'frames':
            F = int(r.choice([260, 1100]))
        n = n_mob + 3
        sp = gen.species_list(r, n, n_mob)
        L = np.diag(r.permutation([4., 12., 40.]))
        reps = 2 if r.random() < .3 else 1
        if c.get('big') == 'replicas':
            reps, F = int(r.choice([7, 11])), 9
        if c.get('big'):
            ctx.feat('big:' + c['big'])
        ts = [gen.walk(r, n, F, hop=.2, images='random', species=sp, cell_matrix=L) for _ in range(reps)]
        q = charge_of(r, c['ch'], n_mob) if kind == 'C' else 1.0
        extra = {'ionic_charge': q} if kind == 'C' else {}
        be = str(r.choice(gen.ROUTES))
        data = [gen.present(t, be) for t in ts]
        a = gen.analyze(kind, be, data if reps > 1 else data[0], gen.parser_kw(be, time_step=.5), dtype='identical' if reps > 1 else None,
                        uncertainty=dict(dimension=given, sub_sample_dt=k), **extra)
        td = a.to_dict()
        disp, n_o, dts = [np.asarray(d, float) for d in td['disp_3d']], td['n_o'], np.asarray(td['delta_t'])
        qq = q
        idx, m, v = boots.expected(kind, disp, n_o, dim, qq, k)
        got, got_dt = gen.value(a, kind), np.asarray(a.dt)
        ctx.feat('analyzer')
        if reps > 1:
            ctx.feat('identical')
    f32 = c['f32'] or (c['k'] == 'analyzer' and be == 'universe')
    rt = 2e-5 if f32 else 1e-9
    ctx.close(got_dt, np.asarray(dts)[idx], 'reported intervals', rtol=1e-12)
    scale = np.array([np.max(np.sum(ref.axes(np.asarray(disp[i], float), dim)**2, -1)) * (disp[i].shape[0]**2 * np.max(np.abs(q))**2 if kind != 'D' else 1) for i in idx])
    ctx.close(got, m, f'{gen.VALUE[kind]} over {given}', rtol=rt, atol=(1e-5 if f32 else 1e-12) * scale if len(idx) else 0)
    ctx.trivial = len(idx) < 2
    ctx.feat(kind, f'{kind}:{dim}', c['style'])
    for cond, f in ((c['up'], 'upper-case'), (k > 1, 'sub_sample_dt'), (len(disp) > 100, 'intervals>100'), (disp[0].shape[0] > 200, 'atoms>200'), (disp[0].shape[0] > 1000, 'atoms>1000'), (disp[0].shape[1] > 1000, 'windows>1000'), (len(disp) > 500, 'intervals>500'), (disp[0].shape[0] == 1, 'one-atom'),
                    (len(disp) % 2 == 1 and kind != 'D', 'odd-intervals')):
        if cond:
            ctx.feat(f)
