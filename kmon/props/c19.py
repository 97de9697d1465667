"""C19: inputs are never modified and analyses do not influence one another."""
import copy
import hashlib
import os
import pickle

import numpy as np

from .. import boots, gen
from ..core import case_seed, rng_for
from ..snap import compare, flatten, snapshot
from .c11 import do_fit, walker

ID = 'C19'
RULE = ("'inputs' cases digest every object passed in before and after the whole analysis; 'interleave' cases run several analyses whose steps are interleaved at random, sharing inputs and dictionaries, and compare every result "
        "with the same analysis run alone; 'refit' cases compare an object refitted with other settings with a fresh object; 'twins' cases analyse one trajectory after another that are alike (equal ends, equal size, equal coordinates, one object altered in place) and compare each with its own true motion; 'direct' cases do the same for the uncertainty classes and parsers; non-trivial always")
REQUIRED = ['progress-default', 'empty-params', 'inputs', 'interleave', 'refit', 'direct', 'ase', 'pymatgen', 'Xdatcar', 'file', 'universe', 'D', 'J', 'C', 'specie_indices', 'molecules', 'masses', 'framework_indices', 'charges', 'identical', 'consecutive', 'shared-params', 'shared-data',
            'shared-object', 'universe-elsewhere', 'sub_sample_traj', 'sub_sample_atoms', 'bootstrap', 'posterior', 'saved', 'intercept-dropped', 'intercept-added', 'model-change', 'start-change', 'inputs-changed-later', 'arrhenius', 'get-reread', 'failed-between', 'twins', 'twin:ends', 'twin:interior-frame', 'twin:cell', 'twin:roles', 'twin:in-place', 'twin:start', 'twin:longer', 'twin:same']
ASSUMPTIONS = ['equal results means bit-identical results, with a random_state of its own given to every fit']
FAST = dict(n_walkers=8, n_samples=20, n_burn=5, thin=2)


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(300 if q else 3500):
        r = rng_for(ID, seed, 'i', i)
        out.append(dict(k='inputs', s=case_seed(ID, seed, 'i', i), route=gen.ROUTES[i % 5], ana='DJC'[(i // 5) % 3], sel=str(r.choice(['specie', 'list', 'indices', 'molecules', 'masses'])), fw=bool(r.random() < .4), dtype=str(r.choice(['', '', 'identical', 'consecutive'])), sub=int(r.choice([1, 1, 2]))))
    for i in range(110 if q else 1300):
        out.append(dict(k='interleave', s=case_seed(ID, seed, 'v', i), w=4))
    for i in range(120 if q else 1400):
        r = rng_for(ID, seed, 'r', i)
        out.append(dict(k='refit', s=case_seed(ID, seed, 'r', i), ana='DJC'[i % 3], via=bool(r.random() < .6)))
    for i in range(200 if q else 2500):
        out.append(dict(k='twins', s=case_seed(ID, seed, 't', i), route=gen.ROUTES[i % 5], ana='DJC'[(i // 5) % 3]))
    for i in range(100 if q else 1200):
        out.append(dict(k='direct', s=case_seed(ID, seed, 'd', i), ana='DJC'[i % 3]))
    return out


def run(c, ctx):
    ctx.feat(c['k'])
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


def digest(x):
    """Digest of the content of an input, whatever its type."""
    h = hashlib.sha256()

    def add(o):
        h.update(type(o).__name__.encode())
        mod = type(o).__module__
        if isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape, o.flags.writeable)).encode() + np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k, v in o.items():
                add(k)
                add(v)
        elif isinstance(o, (list, tuple)):
            h.update(str(len(o)).encode())
            for v in o:
                add(v)
        elif mod.startswith('ase.'):
            for k in sorted(o.arrays):
                add(k)
                add(o.arrays[k])
            add(np.asarray(o.cell.array))
            add(np.asarray(o.pbc))
            add(sorted(o.info))
            add(len(o.constraints))
        elif mod.startswith('pymatgen.core'):
            add(np.asarray(o.lattice.matrix))
            add(np.asarray(o.frac_coords))
            add(np.asarray(o.cart_coords))
            add([str(s) for s in o.species])
            add(sorted(o.site_properties))
        elif mod.startswith('pymatgen.io'):
            add(list(o.structures))
        elif mod.startswith('MDAnalysis'):
            add([str(q) for q in o.atoms.types])
            here = o.trajectory.frame
            for ts in o.trajectory:
                add(np.array(ts.positions))
                add(np.array(ts.dimensions))
            o.trajectory[here]
        elif isinstance(o, str) and os.path.isfile(o) and os.path.isabs(o):
            h.update(open(o, 'rb').read())
        else:
            h.update(repr(o).encode())

    add(x)
    return h.hexdigest()


def selection(r, sel, n, be, ctx):
    kw = {}
    if sel == 'list':
        kw['specie'] = ['Li']
    elif sel == 'indices':
        kw.update(specie=None, specie_indices=[int(q) for q in r.choice(n, 3, replace=False)])
        ctx.feat('specie_indices')
    elif sel in ('molecules', 'masses'):
        ids = [int(q) + 1 for q in r.permutation(n)[:4]]
        kw.update(specie=None, specie_indices=[ids[:2], ids[2:]])
        if sel == 'masses':
            kw['masses'] = [1.0, 15.99]
            ctx.feat('masses')
        ctx.feat('molecules')
    return kw


def fit_params(r, seed, **kw):
    return dict(FAST, progress=False, random_state=np.random.RandomState(seed), fit_intercept=bool(r.random() < .7), model=bool(r.random() < .3), cond_max=float(r.choice([1e16, 1e8])), **kw)


def do(a, kind, start, T, fp):
    if kind == 'D':
        a.diffusion(start, fp)
    elif kind == 'J':
        a.jump_diffusion(start, fp)
    else:
        a.conductivity(start, T, fp)


def run_inputs(c, ctx, r):
    route, kind, sub = c['route'], c['ana'], c['sub']
    n = 7
    dtype = c['dtype'] or None
    if route == 'universe' and dtype == 'consecutive':
        dtype = None
    sp = gen.species_list(r, n, 4, contiguous=True)
    L = gen.make_cell(r, str(r.choice(['ortho', 'tri'])), lower=True)
    R = 1 if dtype is None else int(r.integers(2, 4))
    ts = [gen.walk(r, n, 24, 'ortho', .2, 'random', sp, sub=sub, cell_matrix=L) for _ in range(R)]
    kw = selection(r, c['sel'], n, route, ctx)
    if c['fw']:
        kw['framework_indices'] = [int(q) for q in r.choice(np.arange(1, n), 2, replace=False)]
        ctx.feat('framework_indices')
    if route == 'universe' and c['sel'] == 'specie' and r.random() < .4:
        kw['sub_sample_atoms'] = 2
        kw.pop('framework_indices', None)
        ctx.feat('sub_sample_atoms')
    pp = gen.parser_kw(route, time_step=.1, **kw)
    pp['progress'] = bool(r.random() < .3)
    if r.random() < .4:
        del pp['progress']
        ctx.feat('progress-default')
    if sub > 1:
        pp['sub_sample_traj'] = sub
        ctx.feat('sub_sample_traj')
    up = dict(progress=bool(r.random() < .3), dimension=str(r.choice(boots.DIMS)))
    u = r.random()
    if u < .2:
        up = {}
        ctx.feat('empty-params')
    elif u < .4:
        up = dict(dimension=str(r.choice(boots.DIMS)))
    if up and r.random() < .3:
        up.update(bootstrap=True, n_resamples=10, max_resamples=20)
        ctx.feat('bootstrap')
    extra = {}
    if kind == 'C' and r.random() < .7:
        m = len(kw['specie_indices']) if kw.get('specie_indices') else (2 if 'sub_sample_atoms' in kw else 4)
        extra['ionic_charge'] = r.choice([-1., 1., 2.], m)
        ctx.feat('charges')
    fp = dict(FAST, progress=False)
    qp = dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)
    if r.random() < .4:
        del fp['progress'], qp['progress']
    if r.random() < .05:
        fp = {}
    with gen.Scratch() as sd:
        data = [gen.present(t, route, sd) for t in ts]
        data = data if R > 1 else data[0]
        everything = dict(data=data, parser=pp, uncertainty=up, fit=fp, predict=qp, extra=extra)
        before = {k: digest(v) for k, v in everything.items()}

        def check(when):
            for k, v in everything.items():
                ctx.ok(digest(v) == before[k], f'{k} changed by {when}')
            ctx.count('digests_compared', len(before))

        a = getattr(gen.analyzer_class(kind), f'from_{route}')(data, pp, dtype=dtype, uncertainty_params=up, **extra)
        check('parsing')
        do(a, kind, a.dt[1], 300., fp)
        check('fitting')
        a.posterior_predictive(qp)
        ctx.feat('posterior')
        a.to_dict()
        a.distribution
        check('posterior prediction')
        a.save(os.path.join(sd, 'o'))
        type(a).load(os.path.join(sd, 'o'))
        ctx.feat('saved')
        check('saving')
        s0 = snapshot(a, kind)
        compare(ctx, snapshot(a, kind), s0, 'reading the results twice')
        ctx.feat('get-reread')
        # changing the inputs afterwards has no effect on the results
        if route in ('ase', 'pymatgen') and dtype is None:
            for fr in data:
                if route == 'ase':
                    fr.positions[:] += 3.0
                else:
                    fr.translate_sites(list(range(n)), [.3, .1, .2])
            if 'ionic_charge' in extra:
                extra['ionic_charge'][:] = 7.0
            for k in list(pp):
                pp[k] = None
            compare(ctx, snapshot(a, kind), s0, 'changing the inputs afterwards')
            ctx.feat('inputs-changed-later')
    ctx.feat(route, kind, *([dtype] if dtype else []))


def run_interleave(c, ctx, r):
    """Several analyses with their steps interleaved, against each alone on fresh copies of the inputs."""
    n = 7
    sp = gen.species_list(r, n, 4, contiguous=True)
    pool = []
    for _ in range(2):
        t = gen.walk(r, n, int(r.choice([24, 30])), 'ortho', .2, 'random', sp)
        pool.append(t)
    with gen.Scratch() as sd:
        data = {}
        jobs = []
        nj = int(r.integers(2, 5))
        shared_pp = {}
        for j in range(nj):
            ti = int(r.integers(0, 2))
            route = str(r.choice(gen.ROUTES))
            kind = str(r.choice(list('DJC')))
            sel = str(r.choice(['specie', 'indices', 'molecules', 'masses']))
            key = (route, sel)
            if key not in shared_pp:
                kw = selection(r, sel, n, route, ctx)
                shared_pp[key] = gen.parser_kw(route, time_step=.1, **kw)
            else:
                ctx.feat('shared-params')
            if (route, ti) not in data:
                data[route, ti] = gen.present(pool[ti], route, sd)
            else:
                ctx.feat('shared-data')
            if route == 'universe':
                sub = r.random() < .3 and sel == 'specie'
                if sub:
                    shared_pp[key + (2, )] = dict(shared_pp[key], sub_sample_traj=2)
                    key = key + (2, )
                    ctx.feat('sub_sample_traj')
            fits = [(float(r.choice([.1, .2, .3])), float(r.choice([300., 600.])), fit_params(r, int(r.integers(0, 1000)))) for _ in range(int(r.integers(1, 3)))]
            jobs.append(dict(route=route, kind=kind, ti=ti, key=key, up=dict(progress=False, dimension=str(r.choice(boots.DIMS)), sub_sample_dt=1), fits=fits))
        # alone, on fresh inputs
        alone = []
        for jb in jobs:
            d = gen.present(pool[jb['ti']], jb['route'], sd)
            a = getattr(gen.analyzer_class(jb['kind']), f'from_{jb["route"]}')(d, copy.deepcopy(shared_pp[jb['key']]), uncertainty_params=copy.deepcopy(jb['up']))
            snaps = [snapshot(a, jb['kind'])]
            for s, T, fp in jb['fits']:
                do(a, jb['kind'], s, T, pickle.loads(pickle.dumps(fp)))
                snaps.append(snapshot(a, jb['kind']))
            alone.append(snaps)
        # interleaved, sharing everything
        objs, pos = [None] * nj, [0] * nj
        order = [j for j, jb in enumerate(jobs) for _ in range(1 + len(jb['fits']))]
        order = [int(q) for q in r.permutation(order)]
        for j in order:
            jb = jobs[j]
            k = jb['kind']
            if objs[j] is None:
                d = data[jb['route'], jb['ti']]
                if jb['route'] == 'universe' and r.random() < .7:
                    d.trajectory[int(r.integers(0, len(d.trajectory)))]
                    ctx.feat('universe-elsewhere')
                objs[j] = getattr(gen.analyzer_class(k), f'from_{jb["route"]}')(d, shared_pp[jb['key']], uncertainty_params=jb['up'])
            else:
                s, T, fp = jb['fits'][pos[j]]
                do(objs[j], k, s, T, fp)
                pos[j] += 1
            if r.random() < .3:  # a request that fails in between
                try:
                    getattr(gen.analyzer_class(k), f'from_{jb["route"]}')(data[jb['route'], jb['ti']], dict(shared_pp[jb['key']], specie='Xx'), uncertainty_params=jb['up'])
                except Exception:
                    ctx.feat('failed-between')
            if r.random() < .2:
                _arrhenius(r)
                ctx.feat('arrhenius')
            for i in range(nj):
                if objs[i] is not None:
                    compare(ctx, snapshot(objs[i], jobs[i]['kind']), alone[i][pos[i]], f'analysis {i} ({jobs[i]["route"]}, {jobs[i]["kind"]}) after a step of analysis {j}')
        ctx.count('interleavings')
        ctx.feat(*[jb['route'] for jb in jobs], *[jb['kind'] for jb in jobs])
        ctx.sig = dict(order=order, jobs=[[jb['route'], jb['kind'], str(jb['key']), len(jb['fits'])] for jb in jobs])
        # two analyses of one object's results share nothing
        if r.random() < .4:
            j = int(r.integers(0, nj))
            cls = type(objs[j])
            twin = cls.from_dict(objs[j].to_dict())
            do(twin, jobs[j]['kind'], .1, 400., fit_params(r, 77))
            compare(ctx, snapshot(objs[j], jobs[j]['kind']), alone[j][pos[j]], 'fitting an object restored from the dictionary of this one')
            ctx.feat('shared-object')


def _arrhenius(r):
    from kinisi import arrhenius
    T = np.linspace(300, 500, 4) + r.uniform(0, 50)
    y = 1e-3 * np.exp(-.2 / 8.617e-5 / T)
    arrhenius.SuperArrhenius(T, y, diffusion_error=.1 * y)


def run_refit(c, ctx, r):
    kind = c['ana']
    un = dict(dimension=str(r.choice(boots.DIMS)), sub_sample_dt=int(r.choice([1, 1, 2])))
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 5, 50, 'ortho', .2, 'wrapped', ['Li'] * 5)
        mk = lambda: gen.analyze(kind, be, gen.present(t, be), gen.parser_kw(be, time_step=.1), uncertainty=un)
        dt = np.asarray(mk().dt)
        fit = lambda a, s, T, fp: do(a, kind, s, T, fp)
        snap = lambda a: snapshot(a, kind)
        ctx.feat(be)
    else:
        dts, disp, n_o = walker(r, kind, 5, 60, 30, 1.0, .5)
        mk = lambda: boots.make(kind, dts, disp, n_o, 1.0, **un)
        dt = np.asarray(mk().dt)
        fit = lambda a, s, T, fp: do_fit(a, kind, s, **fp)
        snap = lambda a: dict(flatten(a.to_dict(), 'dict', {}), n=np.asarray(a.n), s=np.asarray(a.s), v=np.asarray(a.v))
    a = mk()
    first = snap(a)
    seq = []
    for k in range(int(r.integers(2, 4))):
        st = float(dt[int(r.integers(0, dt.size // 2))])
        seq.append((st, float(r.choice([300., 450.])), fit_params(r, int(r.integers(0, 1000)))))
    for k, (st, T, fp) in enumerate(seq):
        if r.random() < .3 and k:
            a.posterior_predictive(dict(n_posterior_samples=2, n_predictive_samples=2, progress=False)) if c['via'] else a.posterior_predictive(2, 2, progress=False)
            ctx.feat('posterior')
        fit(a, st, T, fp)
        b = mk()
        compare(ctx, {k2: v for k2, v in snap(b).items()}, first, 'a fresh object')
        fit(b, st, T, pickle.loads(pickle.dumps(fp)))
        compare(ctx, snap(a), snap(b), f'fit {k} of one object against the same fit of a fresh object')
        if k:
            p = seq[k - 1]
            for cond, f in ((p[2]['fit_intercept'] and not fp['fit_intercept'], 'intercept-dropped'), (fp['fit_intercept'] and not p[2]['fit_intercept'], 'intercept-added'), (p[2]['model'] != fp['model'], 'model-change'), (p[0] != st, 'start-change')):
                if cond:
                    ctx.feat(f)
        ctx.count('refits')
    ctx.feat(kind)


def run_direct(c, ctx, r):
    """Uncertainty classes: arrays and lists passed in are unchanged, and objects built from the same arrays are independent."""
    kind = c['ana']
    dts, disp, n_o = walker(r, kind, 4, 50, 20, 1.0, .5)
    q = r.choice([-1., 1., 2.], 4)
    k = int(r.choice([1, 2]))
    un = dict(dimension=str(r.choice(boots.DIMS)), sub_sample_dt=k)
    if r.random() < .4:
        un.update(bootstrap=True, n_resamples=10, max_resamples=20)
        ctx.feat('bootstrap')
    everything = dict(dt=dts, disp=disp, n_o=n_o, q=q, un=un)
    before = {a: digest(v) for a, v in everything.items()}
    rs = lambda: {'random_state': np.random.RandomState(5)} if 'bootstrap' in un else {}
    mk = lambda: boots.make(kind, dts, disp, n_o, q, **un, **rs())
    a, b = mk(), mk()
    sa = flatten(a.to_dict(), 'dict', {})
    compare(ctx, flatten(b.to_dict(), 'dict', {}), sa, 'two objects from the same arrays')
    fp = fit_params(r, 3)
    do_fit(a, kind, a.dt[1], **fp)
    a.posterior_predictive(2, 2, progress=False)
    compare(ctx, flatten(b.to_dict(), 'dict', {}), sa, 'an object after fitting another from the same arrays')
    d0 = a.to_dict()
    dg = digest(d0)
    e = type(a).from_dict(d0)
    do_fit(e, kind, e.dt[0], **fit_params(r, 4))
    ctx.ok(digest(d0) == dg, 'the dictionary passed to from_dict changed')
    for x, v in everything.items():
        ctx.ok(digest(v) == before[x], f'{x} changed')
    compare(ctx, flatten(mk().to_dict(), 'dict', {}), sa, 'an object built after fitting others')
    ctx.feat(kind)


TWINS = ['ends', 'interior-frame', 'cell', 'roles', 'in-place', 'start', 'longer', 'same']


def twin(r, t, how, n, L):
    """A trajectory that shares much of t."""
    x = t.x @ np.linalg.inv(t.cells[0])
    sp, cell, F = list(t.species), t.cells[0], t.F
    if how in ('ends', 'in-place'):
        y = gen.walk(r, n, F, hop=.1, images='wrapped', species=sp, cell_matrix=cell).x @ np.linalg.inv(cell)
        b = np.minimum(np.arange(F), np.arange(F)[::-1])[:, None, None]
        x = x + .1 * np.sin(7 * y) * (b > (0 if how == 'ends' else -1))
    elif how == 'interior-frame':
        x = x.copy()
        x[int(r.integers(1, F - 1))] += r.uniform(-.08, .08, (n, 3))
    elif how == 'cell':
        cell = cell * r.uniform(.8, 1.2)
    elif how == 'roles':
        sp = [sp[q] for q in r.permutation(n)]
    elif how == 'start':
        x = x[:1] + np.concatenate([np.zeros((1, n, 3)), np.cumsum(r.uniform(-.2, .2, (F - 1, n, 3)), axis=0)])
    elif how == 'longer':
        x = np.concatenate([x, x[-1:] + np.cumsum(r.uniform(-.2, .2, (3, n, 3)), axis=0)])
    cells = np.broadcast_to(cell, (len(x), 3, 3)).copy()
    return gen.Traj(sp, x @ cell, cells, x - np.floor(x), cells)


def run_twins(c, ctx, r):
    from .. import obs, ref
    route, kind = c['route'], c['ana']
    n = 6
    L = gen.make_cell(r, 'ortho')
    t = gen.walk(r, n, int(r.choice([12, 16])), hop=.1, images='wrapped', species=['Li'] * 3 + ['O'] * 3, cell_matrix=L)
    t.all_frac = t.all_frac - np.floor(t.all_frac)
    pp = gen.parser_kw(route, time_step=.1)
    with gen.Scratch() as sd:
        data = gen.present(t, route, sd)
        for step in range(int(r.integers(3, 6))):
            if step:
                how = str(r.choice(TWINS))
                if how == 'roles' and route in ('Xdatcar', 'file'):
                    how = 'ends'
                if how == 'in-place' and route not in ('ase', 'pymatgen', 'universe'):
                    how = 'start'
                if how in ('ends', 'in-place', 'start') and np.abs(np.diff(t.x @ np.linalg.inv(t.cells[0]), axis=0)).max() > .25:
                    how = 'same'
                new = t if how == 'same' else twin(r, t, how, n, L)
                if np.abs(np.diff(new.x @ np.linalg.inv(new.cells[0]), axis=0)).max() > .48:
                    continue
                t = new
                ctx.feat('twin:' + how)
                if how == 'in-place':
                    pos = np.einsum('fij,fjk->fik', t.all_frac, t.all_cells)
                    if route == 'ase':
                        for fr, q in zip(data, pos):
                            fr.positions[:] = q
                    elif route == 'pymatgen':
                        for fr, q in zip(data, t.all_frac):
                            for k in range(n):
                                fr.replace(k, fr[k].specie, q[k])
                    else:
                        data.trajectory.coordinate_array[:] = pos
                else:
                    if r.random() < .5:
                        data = None  # let the addresses of the earlier objects be used again
                    data = gen.present(t, route, sd)
            a = gen.analyze(kind, route, data, pp, uncertainty=dict(progress=False))
            td = a.to_dict()
            tl = obs.taus(td['delta_t'], .1, ctx)
            mob = [i for i, q in enumerate(t.species) if q == 'Li']
            rel = obs.relative(t.x, mob, [i for i in range(n) if i not in mob])
            obs.check_parser(ctx, td['disp_3d'], tl, rel, 'multi-origin', 6 * gen.tol(t, route))
            v = abs(np.linalg.det(t.cells[0]))
            ctx.close(a.volume, v, 'volume of this trajectory', rtol=1e-5)
            exp = [ref.observed(np.asarray(td['disp_3d'][int(np.argmin(np.abs(tl - round(q / .1))))], float), kind, 'xyz', 1.0).mean() for q in a.dt]
            ctx.close(gen.value(a, kind), exp, 'value from the displacements of this trajectory', rtol=1e-5)
            ctx.count('analyses')
    ctx.feat(route, kind)
