"""C03: every window exactly once, all atoms of an observation from the same window."""
import numpy as np

from .. import gen, obs, ref
from ..core import case_seed, rng_for

ID = 'C03'
RULE = ('each case builds a history in which every displacement is unique, extracts observations through the base parser, a back '
        'end or an analyzer and matches them one-to-one with the windows of the history; non-trivial when more than one interval '
        'with more than one window is seen')
REQUIRED = ['base', 'ase', 'pymatgen', 'mda', 'analyzer', 'multi-origin', 'single-origin', 'linear', 'logarithmic', 'n_steps<length', 'min_dt>1',
            'max_dt', 'atoms>500', 'length>1000', 'intervals>100', 'sub>1', 'one-atom', 'indices-subset', 'step-skip>1', 'still-frames']
ASSUMPTIONS = ['a trajectory of F frames has F-1 steps; the extra first observation that the back ends add is the known finding',
               'a displacement history passed to the base parser starts at zero displacement before its first entry']


def cases(tier, seed):
    n_cases = 2800 if tier == 'quick' else 80000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        via = ['base', 'base', 'ase', 'pymatgen', 'mda', 'analyzer', 'base'][i % 7]
        c = dict(k='win', s=case_seed(ID, seed, i), via=via, sampling=str(r.choice(['multi-origin', 'multi-origin', 'single-origin'])),
                 spacing=str(r.choice(['linear', 'logarithmic'])), n_steps=int(r.choice([2, 4, 10, 33, 100, 200])),
                 n=int(r.choice([1, 2, 3, 8, 30])), sub=int(r.choice([1, 1, 2, 4])), lims=[bool(r.random() < .3), bool(r.random() < .3)],
                 N=int(r.choice([3, 6, 17, 40, 75] if via != 'base' else [2, 3, 9, 30, 100, 130])), skip=int(r.choice([1, 1, 5, 20])), pause=float(r.choice([0, 0, 0, .2, .6])), images=str(r.choice(['random', 'wrapped'])))
        if i % 50 == 0:
            c.update(via='base', n=int(r.choice([600, 2000])), N=20, w=4)
        if i % 50 == 1:
            c.update(via='base', n=3, N=int(r.choice([1100, 2100])), n_steps=20, w=4)
        if i % 50 == 2:
            c.update(via='base', n=2, N=260, n_steps=250, w=4)
        if i % 50 == 3:
            c.update(via=str(r.choice(['ase', 'pymatgen', 'mda'])), n=int(r.choice([150, 600])), N=10, w=4)
        if i % 200 == 4:
            c.update(via='base', n=2, N=int(r.choice([6000, 12000])), n_steps=8, w=20)
        if i % 200 == 5:
            c.update(via='base', n=2, N=1100, n_steps=1050, w=20)
        if i % 400 == 6:
            c.update(via='base', n=int(r.choice([1300, 5100])), N=int(r.choice([500, 1800])), n_steps=2, sampling='multi-origin', w=100)
            if c['n'] * c['N'] > 3e6:
                c['n'] = 1300
        if i % 200 == 7:
            c.update(via=str(r.choice(['ase', 'pymatgen', 'mda'])), n=2, N=int(r.choice([700, 1500, 2500])), n_steps=4, w=30)
        out.append(c)
    return out


def limits(r, c, step, N, sub_lo=1):
    mn = mx = None
    if c['lims'][0] and N > 3:
        mn = int(r.integers(2, max(3, N // 2 + 1))) * step
    if c['lims'][1]:
        lo = 1 if mn is None else int(round(mn / step))
        mx = int(r.integers(min(lo + 1, N), N + 1)) * step
    return mn, mx


def run(c, ctx):
    r = rng_for('run', c['s'])
    N, n = c['N'], c['n']
    sub = c['sub'] if c['via'] != 'base' else 1
    ts = 0.02
    step = ts * c['skip'] * sub
    mn, mx = limits(r, c, step, N)
    kw = dict(spacing=c['spacing'], sampling=c['sampling'], n_steps=c['n_steps'], min_dt=mn, max_dt=mx, time_step=ts, step_skip=c['skip'])
    if c['sampling'] == 'single-origin' and n == 1:
        n = 2
    if c['via'] == 'base':
        from kinisi.parser import Parser
        tot = n + int(r.integers(0, 4))
        disp = r.normal(size=(tot, N, 3)) + 0.01
        if c['pause']:
            disp[:, r.random(N) < c['pause']] = 0
        disp = np.cumsum(disp, axis=1)
        idx = sorted(r.choice(tot, size=n, replace=False).tolist()) if r.random() < .7 else r.permutation(tot)[:n].tolist()
        p = Parser(disp.copy(), idx, [], progress=False, **kw)
        # positions: origin, then the displacement history
        truth = np.concatenate([np.zeros((1, n, 3)), np.swapaxes(disp[idx], 0, 1)])
        tl = obs.taus(p.delta_t, step, ctx)
        atol = 1e-9 * max(1, np.abs(disp).max())
        for tau, d in zip(tl, p.disp_3d):
            d = np.asarray(d)
            if c['sampling'] == 'multi-origin':
                obs.match_windows(ctx, d, ref.windows(truth, tau), atol, f'displacements over {tau} steps')
            else:
                ctx.close(d, (truth[tau] - truth[0])[:, None], f'single-origin displacement over {tau} steps', rtol=0, atol=atol)
        got = p.disp_3d
        ctx.feat('base')
        if tot > n:
            ctx.feat('indices-subset')
    else:
        be = c['via'] if c['via'] != 'analyzer' else gen.BACKENDS[int(r.integers(3))]
        sp = gen.species_list(r, n + 2, n)
        t = gen.walk(r, n + 2, N, 'ortho', 0.3, c['images'], sp, pauses=c['pause'], sub=sub, tail=int(r.integers(0, sub)), lower=True)
        mobile = [i for i, s in enumerate(sp) if s == 'Li']
        if c['via'] == 'analyzer':
            from kinisi.analyzer import Analyzer
            route = {'mda': 'universe'}.get(be, be)
            k2 = gen.parser_kw(route, **kw)
            if sub != 1:
                k2['sub_sample_traj'] = sub
            kind = 'D' if c['sampling'] == 'single-origin' or N < 6 else 'DJC'[int(r.integers(3))]
            if N < 6 or c['n_steps'] < 4 or mx is not None:
                kind = 'D'
            a = gen.analyze(kind, route, gen.present(t, be), k2).to_dict()
            dts, got = a['delta_t'], a['disp_3d']
            ctx.feat('analyzer')
        else:
            p = gen.parse(t, be, **kw)
            dts, got = p.delta_t, p.disp_3d
        tl = obs.taus(dts, step, ctx)
        truth = obs.relative(t.x, mobile, [i for i in range(n + 2) if i not in mobile])
        obs.check_parser(ctx, got, tl, truth, c['sampling'], 4 * gen.tol(t, be), strict_first=True)
        ctx.feat(be)
    # nothing dropped: every interval that allows two independent observations has its displacements
    need = [q for q, tau in enumerate(tl) if n * (1 if c['sampling'] == 'single-origin' else (N - tau + 1 + tau - 1) // tau) >= 2]
    ctx.ok(len(got) >= len(need), f'{len(got)} displacement arrays for {len(need)} usable intervals')
    ctx.count('intervals', len(got))
    ctx.feat(c['sampling'], c['spacing'])
    ctx.trivial = len(got) < 2
    for cond, f in ((c['n_steps'] < N, 'n_steps<length'), (mn, 'min_dt>1'), (mx, 'max_dt'), (n > 500, 'atoms>500'), (N > 1000, 'length>1000'),
                    (len(got) > 100, 'intervals>100'), (sub > 1, 'sub>1'), (n == 1, 'one-atom'), (c['skip'] > 1, 'step-skip>1'), (c['pause'], 'still-frames')):
        if cond:
            ctx.feat(f)
