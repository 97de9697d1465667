"""C15: save/load/to_dict/from_dict preserve every result at every stage; files are never overwritten."""
import hashlib
import os

import numpy as np

from .. import boots, gen
from ..core import case_seed, rng_for
from ..snap import compare, flatten, snapshot
from .c11 import do_fit, walker

ID = 'C15'
RULE = ('each case brings one analyzer (or uncertainty object) to some stage, passes it through a file or a dictionary (possibly several times), compares every reported result bit for bit, and '
        'continues the analysis on both objects with the same seed; file cases watch the directory for exactly one new file with the documented name and check that existing files are untouched; '
        'non-trivial in every case')
STAGES = ['parsed', 'fitted', 'fitted-no-intercept', 'refitted', 'refitted-no-intercept', 'fitted-model', 'predicted']
REQUIRED = ['D', 'J', 'C', 'file', 'dict', 'direct', 'bootstrap', 'block', 'intervals>10', 'intervals>100', 'intervals>1000', 'upper-case', 'sub_sample_dt', 'identical', 'twice', 'no-overwrite', 'continue-fit', 'continue-predict', 'numpy-start',
            'ase', 'pymatgen', 'universe', 'charges', 'cross-process-name'] + ['stage:' + s for s in STAGES] + [f'dim{k}' for k in (1, 2, 3)] + [
            'name:plain', 'name:hdf', 'name:ext', 'name:dot-dir', 'name:dotted-dir', 'name:parent', 'name:absolute', 'name:two-dots', 'name:hidden']
ASSUMPTIONS = ['files are written in a scratch directory']
FAST = dict(n_walkers=8, n_samples=20, n_burn=5, thin=2)
NAMES = {  # name given -> file expected, relative to the working directory
    'plain': ('res', 'res.hdf'), 'hdf': ('res.hdf', 'res.hdf'), 'ext': ('res.h5', 'res.hdf'), 'dot-dir': ('./res', 'res.hdf'), 'dotted-dir': ('run.1/res', 'run.1/res.hdf'),
    'parent': ('../up/res', '../up/res.hdf'), 'two-dots': ('res.v1.dat', 'res.v1.hdf'), 'hidden': ('.res', '.res.hdf'), 'absolute': (None, None)}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    names = list(NAMES)
    for i in range(330 if q else 3500):
        r = rng_for(ID, seed, i)
        c = dict(k=['file', 'file', 'dict', 'direct'][i % 4], s=case_seed(ID, seed, i), ana='DJC'[i % 3], stage=STAGES[(i // 4) % len(STAGES)], name=names[(i // 2) % len(names)], dim=str(r.choice(boots.DIMS)), up=bool(r.random() < .2),
                 ssd=int(r.choice([1, 1, 2, 3])), bs=str(r.choice(['', '', 'bootstrap', 'block'])), F=int(r.choice([14, 30, 45])), be=str(r.choice(gen.ROUTES)), R=int(r.choice([1, 1, 2])), twice=bool(r.random() < .3))
        if i % 40 in (0, 2):
            c.update(F=260 if c['ana'] != 'D' else 130, ssd=1, w=5, bs='')
        if i % 80 == 7:
            c.update(k='direct', F=1040, ssd=1, w=8, bs='')
        if i in (9, 66) or (not q and i % 160 == 9):
            c.update(k='file', ana='D', F=1040, ssd=1, w=12, R=1, bs='', twice=False, stage='parsed')
        if c['ana'] != 'D' and c['F'] < 20 * c['ssd']:
            c['F'] = 20 * c['ssd'] + 10  # a fit needs several intervals
        out.append(c)
    return out


def stage(fit, predict, dt, st):
    kw = dict(FAST, random_state=np.random.RandomState(11))
    if st == 'parsed':
        return
    if st == 'fitted-no-intercept':
        fit(dt[1], fit_intercept=False, **kw)
    elif st == 'fitted-model':
        fit(dt[0], model=True, **kw)
    else:
        fit(dt[1], **kw)
    if st.startswith('refitted'):
        fit(dt[0], fit_intercept=st == 'refitted', cond_max=1e10, **dict(FAST, n_samples=30))
    if st == 'predicted':
        predict()


def digest(path):
    return hashlib.sha256(open(path, 'rb').read()).hexdigest()


def tree(d):
    return {os.path.relpath(os.path.join(p, f), d): digest(os.path.join(p, f)) for p, _, fs in os.walk(d) for f in fs}


def run(c, ctx):
    r = rng_for('run', c['s'])
    kind = c['ana']
    given = c['dim'].upper() if c['up'] else c['dim']
    un = dict(dimension=given, sub_sample_dt=c['ssd'])
    if c['bs'] == 'bootstrap':
        un.update(bootstrap=True, n_resamples=12, max_resamples=20, random_state=np.random.RandomState(3))
    elif c['bs'] == 'block':
        un.update(block=True)
    ctx.feat(kind, 'stage:' + c['stage'], f'dim{len(c["dim"])}')
    for cond, f in ((c['up'], 'upper-case'), (c['ssd'] > 1, 'sub_sample_dt'), (c['bs'], c['bs'])):
        if cond:
            ctx.feat(f)
    if c['k'] == 'direct':
        return run_direct(c, ctx, r, kind, un)
    be, R = c['be'], c['R']
    sp = gen.species_list(r, 6, 4)
    L = gen.make_cell(r, 'ortho')
    ts = [gen.walk(r, 6, c['F'], 'ortho', .2, 'random', sp, cell_matrix=L, steps='normal') for _ in range(R)]
    extra = {}
    if kind == 'C' and r.random() < .6:
        extra['ionic_charge'] = r.choice([-1., 1., 2.], 4)
        ctx.feat('charges')
    data = [gen.present(t, be) for t in ts]
    a = gen.analyze(kind, be, data if R > 1 else data[0], gen.parser_kw(be, time_step=.1, n_steps=300 if c['F'] < 1000 else 1030), dtype='identical' if R > 1 else None, uncertainty=un, **extra)
    dt = np.asarray(a.dt)
    if r.random() < .3:
        fit = lambda s, **kw: gen.fit(a, kind, np.int64(1) if s > 1 else np.float32(s), **kw)
        ctx.feat('numpy-start')
    else:
        fit = lambda s, **kw: gen.fit(a, kind, s, **kw)
    stage(fit, lambda: a.posterior_predictive(dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)), dt, c['stage'])
    before = snapshot(a, kind)
    cls = type(a)
    if c['k'] == 'dict':
        b = cls.from_dict(a.to_dict())
        compare(ctx, snapshot(b, kind), before, 'from_dict(to_dict())')
        compare(ctx, snapshot(a, kind), before, 'the original after to_dict')
        if c['twice']:
            b = cls.from_dict(b.to_dict())
            compare(ctx, snapshot(b, kind), before, 'dictionary round trip twice')
            ctx.feat('twice')
        ctx.feat('dict')
        follow_up(c, ctx, a, b, kind, dt)
        return
    ctx.feat('file', be, 'name:' + c['name'])
    with gen.Scratch() as top:
        wd = os.path.join(top, 'work')
        for q in (wd, os.path.join(wd, 'run.1'), os.path.join(top, 'up')):
            os.makedirs(q)
        name, exp = NAMES[c['name']]
        if c['name'] == 'absolute':
            name, exp = os.path.join(top, 'up', 'my.res'), os.path.join('..', 'up', 'my.hdf')
        decoys = ['res', 'res.h5', 'res.dat', 'run.hdf', 'run', '.hdf', 'other.hdf']
        for d in decoys:
            if os.path.normpath(d) != os.path.normpath(exp):
                open(os.path.join(wd, d), 'w').write('decoy ' + d)
        cwd = os.getcwd()
        os.chdir(wd)
        try:
            t0 = tree(top)
            a.save(name)
            t1 = tree(top)
            new = sorted(set(t1) - set(t0))
            want = os.path.normpath(os.path.join('work', exp))
            ctx.ok(new == [want], f'saving as {name!r} created {new}, expected {want!r}')
            ctx.ok(all(t1[k] == t0[k] for k in t0), 'saving changed another file', changed=[k for k in t0 if t1[k] != t0[k]])
            compare(ctx, snapshot(a, kind), before, 'the original after save')
            b = cls.load(name)
            compare(ctx, snapshot(b, kind), before, f'loaded from {name!r}')
            ctx.ok(tree(top) == t1, 'loading changed a file')
            if c['s'] % 2:
                compare(ctx, snapshot(cls.load(os.path.splitext(exp)[0] + '.hdf'), kind), before, 'loaded by the name of the file')
                ctx.feat('cross-process-name')
            # never overwritten
            stem = os.path.splitext(exp)[0]
            for again in [name, exp, stem + '.other'] + ([] if '.' in os.path.basename(stem)[1:] else [stem]):
                ctx.raises(Exception, lambda: b.save(again), f'saving as {again!r} over an existing file')
                ctx.ok(tree(top) == t1, f'a refused save as {again!r} changed the existing file')
            ctx.feat('no-overwrite')
            if c['twice']:
                b.save('second')
                b = cls.load('second')
                compare(ctx, snapshot(b, kind), before, 'saved and loaded twice')
                ctx.feat('twice')
            follow_up(c, ctx, a, b, kind, dt)
            if c['twice']:
                sa = snapshot(a, kind)
                b.save('third')
                compare(ctx, snapshot(cls.load('third'), kind), sa, 'fitted after loading, saved and loaded again')
        finally:
            os.chdir(cwd)
    for cond, f in ((dt.size > 10, 'intervals>10'), (dt.size > 100, 'intervals>100'), (dt.size > 1000, 'intervals>1000'), (R > 1, 'identical')):
        if cond:
            ctx.feat(f)


def follow_up(c, ctx, a, b, kind, dt):
    """The restored object behaves like the original from here on."""
    if c['stage'] != 'parsed':
        out = []
        for x in (a, b):
            np.random.seed(123)
            out.append(x.posterior_predictive(dict(n_posterior_samples=4, n_predictive_samples=3, progress=False)))
        ctx.same(out[1], out[0], 'posterior predictive of the restored object')
        ctx.feat('continue-predict')
    for x in (a, b):
        gen.fit(x, kind, dt[min(1, dt.size - 2)], T=444., model=c['s'] % 3 == 0, fit_intercept=c['s'] % 5 != 0, random_state=np.random.RandomState(21), **FAST)
    compare(ctx, snapshot(b, kind), snapshot(a, kind), 'fitting the restored object')
    ctx.feat('continue-fit')


def run_direct(c, ctx, r, kind, un):
    from kinisi import diffusion
    dts, disp, n_o = walker(r, kind, 4, max(20, c['F']), 30 if c['F'] < 100 else 250 if c['F'] < 1000 else 1030, 1.0, .5)
    q = r.choice([-1., 1., 2.], 4) if kind == 'C' else 1.0
    a = boots.make(kind, dts, disp, n_o, q, **un)
    cls = {'D': diffusion.MSDBootstrap, 'J': diffusion.MSTDBootstrap, 'C': diffusion.MSCDBootstrap}[kind]
    dt = np.asarray(a.dt)
    stage(lambda s, **kw: do_fit(a, kind, s, **kw), lambda: a.posterior_predictive(3, 2, progress=False), dt, c['stage'])

    def snap(b):
        s = flatten(b.to_dict(), 'dict', {})
        for k in ('dt', 'n', 's', 'v', 'ngp', 'n_i'):
            s[k] = np.asarray(getattr(b, k))
        for k in ('intercept', 'gradient', 'D', 'D_J', 'sigma'):
            v = getattr(b, k)
            s[k] = None if v is None else np.asarray(v.samples)
        s['cov'] = None if b.covariance_matrix is None else np.asarray(b.covariance_matrix)
        for i, d in enumerate(b.euclidian_displacements):
            s[f'dr{i}'] = np.asarray(d.samples)
        return s

    before = snap(a)
    for target in (cls, diffusion.Bootstrap):
        b = target.from_dict(a.to_dict())
        compare(ctx, snap(b), before, f'{target.__name__}.from_dict')
    b = cls.from_dict(b.to_dict()) if c['twice'] else b
    compare(ctx, snap(a), before, 'the original after to_dict')
    if c['stage'] != 'parsed':
        out = []
        for x in (a, b):
            np.random.seed(123)
            out.append(x.posterior_predictive(4, 3, progress=False))
        ctx.same(out[1], out[0], 'posterior predictive of the restored object')
        ctx.feat('continue-predict')
    for x in (a, b):
        do_fit(x, kind, dt[1], fit_intercept=c['s'] % 5 != 0, random_state=np.random.RandomState(2), **FAST)
    compare(ctx, snap(b), snap(a), 'fitting the restored object')
    ctx.feat('direct', 'continue-fit')
