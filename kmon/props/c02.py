"""C02: the interval grid and its units."""
import numpy as np

from .. import gen, ref
from ..core import case_seed, rng_for

ID = 'C02'
RULE = ('each case draws frame spacing, sub-sampling, limits, n_steps, spacing and trajectory length, parses through the base '
        'parser, a back end or an analyzer route and compares the reported intervals with the grid computed independently; '
        'non-trivial when at least two intervals are reported')
REQUIRED = ['via:base', 'via:ase', 'via:pymatgen', 'via:mda', 'via:route:file', 'via:route:Xdatcar', 'sub>1', 'skip>1', 'linear', 'logarithmic', 'min_dt', 'max_dt',
            'inexact-step', 'min-not-multiple', 'max-not-multiple', 'n_steps<length', 'n_steps>range', 'min_dt=0', 'integer-step',
            'length>1000', 'back-end-length>1000', 'analyzer:D', 'analyzer:J', 'analyzer:C', 'sub_sample_dt>1', 'sub_sample_atoms', 'single-origin']
ASSUMPTIONS = ['min_dt < trajectory length, min_dt <= max_dt <= trajectory length', 'at least two mobile atoms',
               'min_dt and max_dt within 1e-6 of a multiple of the frame spacing count as that multiple']
STEPS = [0.001, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.7, 1.0, 1.3, 1 / 3, 2.5, 1, 2, 0.0015, 12.5, 1e-4]


def cases(tier, seed):
    n_cases = 5000 if tier == 'quick' else 120000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        via = str(r.choice(['base', 'base', 'base', 'ase', 'pymatgen', 'mda', 'route'], p=[.25, .2, .15, .1, .1, .1, .1]))
        c = dict(k='grid', s=case_seed(ID, seed, i), via=via, step=int(r.integers(len(STEPS))), skip=int(r.choice([1, 1, 2, 3, 7, 10, 50, 250])),
                 sub=int(r.choice([1, 1, 2, 3, 5, 7])), spacing=str(r.choice(['linear', 'logarithmic'])),
                 n_steps=int(r.choice([1, 2, 3, 5, 10, 20, 50, 100, 101, 300, 1000])), default_n=bool(r.random() < .2))
        if via == 'base':
            c['N'] = int(r.choice([2, 3, 7, 10, 25, 49, 64, 99, 100, 101, 140, 200, 333, 500, 1500, 3000]))
        else:
            c['N'] = int(r.choice([3, 5, 10, 20, 33, 60, 110]))
        if i % 50 == 7:
            c.update(via=str(r.choice(['ase', 'pymatgen', 'mda', 'route'])), N=int(r.choice([150, 260, 420, 1100])), sub=1, w=4)
            c['route'] = str(r.choice(gen.ROUTES))
        elif i % 60 == 0:
            c.update(via='route', N=int(r.choice([5, 12, 40])), route=gen.ROUTES[(i // 60) % 5])
        elif via == 'route':
            c['route'] = str(r.choice(gen.ROUTES))
        c['lim'] = [str(r.choice(['none', 'none', 'zero', 'mult', 'frac', 'decimal'])), str(r.choice(['none', 'none', 'mult', 'frac', 'decimal']))]
        out.append(c)
    return out


def pick_limit(r, kind, step, lo, hi):
    """A limit in [lo, hi] frame spacings: (value in ps)."""
    k = int(r.integers(lo, hi + 1))
    if kind == 'mult':
        return k * step
    if kind == 'decimal':  # the literal a user would type
        return float(f'{k * step:.10g}')
    return (k - float(r.choice([0.5, 0.25, 0.9, 0.01]))) * step


def run(c, ctx):
    r = rng_for('run', c['s'])
    N, skip = c['N'], c['skip']
    sub = c['sub'] if c['via'] != 'base' else 1
    ts = STEPS[c['step']]
    step = ts * skip * sub
    lo_k, hi_k = c['lim']
    min_dt = max_dt = None
    if lo_k == 'zero':
        min_dt = 0
    elif lo_k != 'none':
        min_dt = pick_limit(r, lo_k, step, 1, N - 1)
    lo = 1 if not min_dt else max(1, int(np.ceil(round(min_dt / step, 6))))
    if hi_k != 'none':
        max_dt = pick_limit(r, hi_k, step, min(lo + 1, N), N)
        if round(max_dt / step, 6) < lo:
            max_dt = lo * step
    n_steps = 100 if c['default_n'] else c['n_steps']
    kw = {'spacing': c['spacing'], 'min_dt': min_dt, 'max_dt': max_dt}
    if not c['default_n']:
        kw['n_steps'] = n_steps
    lo, hi, n, ideal = ref.grid(step, N, n_steps, c['spacing'], min_dt, max_dt)
    kind = None
    samp = 'single-origin' if r.random() < .25 else 'multi-origin'
    if samp == 'single-origin':
        ctx.feat('single-origin')
    if c['via'] == 'base':
        from kinisi.parser import Parser
        tot = int(r.choice([2, 3, 3, 9, 40]))
        idx = sorted(r.choice(tot, size=int(r.integers(2, tot + 1)), replace=False).tolist())
        p = Parser(r.normal(size=(tot, N, 3)), idx, [], ts, skip, progress=bool(r.random() < .02), sampling=samp, **kw)
        dts = np.asarray(p.delta_t)
        nd = len(p.disp_3d)
    elif c['via'] == 'route':
        with gen.Scratch() as d:
            kind = 'DJC'[int(r.integers(3))]
            t = gen.walk(r, 3, N, 'ortho', 0.2, 'wrapped', ['Li', 'Li', 'O'], sub=sub, tail=int(r.integers(0, sub)), lower=True)
            data = gen.present(t, c['route'], d)
            kw2 = gen.parser_kw(c['route'], ts, skip, **kw)
            if ts == int(ts) and c['route'] in ('pymatgen', 'file', 'Xdatcar'):
                kw2['time_step'] = int(ts) * 1000
            if sub != 1:
                kw2['sub_sample_traj'] = sub
            if c['route'] == 'universe' and r.random() < .4:
                kw2.update(sub_sample_atoms=2, specie='Li')
                t = gen.walk(r, 6, N, 'ortho', 0.2, 'wrapped', ['Li', 'O', 'Li', 'Li', 'O', 'O'], sub=sub, tail=int(r.integers(0, sub)), lower=True)
                data = gen.present(t, 'universe')
                ctx.feat('sub_sample_atoms')
            ssd = int(r.choice([1, 1, 2, 3]))
            try:
                a = gen.analyze(kind, c['route'], data, kw2, uncertainty={'sub_sample_dt': ssd})
            except ValueError:
                raise
            td = a.to_dict()
            dts, nd = np.asarray(td['delta_t']), len(td['disp_3d'])
            want = dts[::ssd]
            if kind != 'D':
                want = want[:len(want) // 2]
                # collective quantities need two windows
                m = [x.shape[1] for x in td['disp_3d'][::ssd]]
                want = want[[m[q] > 1 for q in range(len(want))]]
            ctx.close(a.dt, want, 'intervals of the analysis', rtol=1e-9)
            ctx.feat('analyzer:' + kind)
            if ssd > 1:
                ctx.feat('sub_sample_dt>1')
    else:
        nn = int(r.choice([3, 3, 8, 20])) if N < 200 else 3
        t = gen.walk(r, nn, N, str(r.choice(['ortho', 'tri'])), 0.2, 'wrapped', ['Li', 'Li', 'O'] + ['O', 'Li', 'S', 'Li'] * 5 if nn > 3 else ['Li', 'Li', 'O'], sub=sub, tail=int(r.integers(0, sub)), lower=True) if nn == 3 else gen.walk(r, nn, N, 'ortho', .2, 'random', (['Li', 'Li', 'O'] + ['O', 'Li', 'S', 'Li'] * 5)[:nn], sub=sub, tail=int(r.integers(0, sub)), lower=True, npt=0.)
        if ts == int(ts) and c['via'] == 'pymatgen' and r.random() < .7:
            # integer femtoseconds
            data = gen.to_pymatgen(t)
            from kinisi.parser import PymatgenParser
            k2 = gen.parser_kw('pymatgen', ts, skip, **kw)
            k2['time_step'] = int(ts) * 1000
            p = PymatgenParser(data, sub_sample_traj=sub, **k2)
            ctx.feat('integer-step')
        elif c['via'] == 'mda' and r.random() < .4:
            t = gen.walk(r, 6, N, 'ortho', 0.2, 'wrapped', ['Li', 'O', 'Li', 'Li', 'O', 'O'], sub=sub, tail=int(r.integers(0, sub)), lower=True)
            p = gen.parse(t, 'mda', time_step=ts, step_skip=skip, sub_sample_atoms=2, **kw)
            ctx.feat('sub_sample_atoms')
        else:
            p = gen.parse(t, c['via'], time_step=ts, step_skip=skip, sampling=samp, **kw)
        dts, nd = np.asarray(p.delta_t), len(p.disp_3d)
    k = dts / step
    ki = np.round(k).astype(int)
    w = dict(delta_t=dts, frame_spacing=step, lo=lo, hi=hi, n=n)
    ctx.ok(dts.ndim == 1 and dts.size >= 1, 'no intervals reported', **w)
    ctx.ok(np.all(np.abs(k - ki) <= 1e-8 * np.maximum(1, ki)), 'intervals are not whole multiples of the frame spacing in ps', **w)
    ctx.ok(np.all(np.diff(ki) > 0), 'intervals are not strictly increasing', **w)
    ctx.ok(ki.size <= max(n_steps, 1), f'{ki.size} intervals for n_steps={n_steps}', **w)
    ctx.ok(nd == ki.size, f'{nd} displacement arrays for {ki.size} intervals', **w)
    ctx.ok(ki[0] == lo, f'the first interval is {ki[0]} frame spacings, expected {lo}', **w)
    if n > 1:
        ctx.ok(ki[-1] == hi, f'the last interval is {ki[-1]} frame spacings, expected {hi}', **w)
    a_, b_ = set(np.floor(ideal - 1e-9).astype(int)), set(np.floor(ideal + 1e-9).astype(int))
    got = set(ki.tolist())
    ctx.ok(got <= (a_ | b_ | {lo}) and got >= (a_ & b_), 'intervals are not spaced as requested', ideal=ideal, **w)
    ctx.count('intervals', ki.size)
    ctx.trivial = ki.size < 2
    ctx.feat('via:' + c['via'] + (':' + c['route'] if c['via'] == 'route' else ''), c['spacing'])
    for cond, f in ((sub > 1, 'sub>1'), (skip > 1, 'skip>1'), (min_dt, 'min_dt'), (max_dt, 'max_dt'), (lo_k == 'zero', 'min_dt=0'),
                    (ts in (.1, .3, .7, 1.3, 1 / 3), 'inexact-step'), (lo_k == 'frac', 'min-not-multiple'), (hi_k == 'frac', 'max-not-multiple'),
                    (n_steps < N, 'n_steps<length'), (n_steps > hi - lo + 1, 'n_steps>range'), (isinstance(ts, int), 'integer-step'), (N > 1000, 'length>1000'), (N > 1000 and c['via'] != 'base', 'back-end-length>1000')):
        if cond:
            ctx.feat(f)
