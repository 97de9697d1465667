"""C18: the memory limit is enforced before displacements are stored."""
import tracemalloc

import numpy as np

from .. import gen
from ..core import case_seed, rng_for

ID = 'C18'
RULE = ('each case parses one trajectory without a binding limit, counts the bytes of the displacement values that were stored, and parses again with limits just below and just above that; the limit below must be refused '
        '(the refusal is also watched for allocations of the size of the displacements), the limit above accepted with identical results; non-trivial when at least two intervals are stored')
REQUIRED = ['ase', 'pymatgen', 'mda', 'float32', 'float64', 'n_steps', 'min_dt', 'max_dt', 'logarithmic', 'sub_sample_traj', 'sub_sample_atoms', 'specie_indices', 'molecules', 'progress', 'route', 'identical', 'default-accepts', 'just-below', 'just-above',
            'tiny-limit', 'huge-limit', 'int-limit', 'allocation-watched', 'D', 'J', 'C', 'framework']
ASSUMPTIONS = ['multi-origin sampling; the limit is in units of 1e9 bytes; limits are exercised a fraction of a byte away from the size as well as far from it']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(1500 if q else 40000):
        r = rng_for(ID, seed, i)
        out.append(dict(k='parser', s=case_seed(ID, seed, i), be=gen.BACKENDS[i % 3], F=int(r.choice([5, 12, 30, 80])), n=int(r.choice([3, 6, 20])), sel=str(r.choice(['specie', 'specie', 'indices', 'molecules'])), opt=str(r.choice(['', 'n_steps', 'min_dt', 'max_dt', 'log', 'sub'])),
                        fw=bool(r.random() < .2), prog=bool(r.random() < .2)))
    for i in range(9 if q else 150):  # many atoms, many intervals
        r = rng_for(ID, seed, 'n', i)
        n, F = [(9000, 4), (6000, 6), (4, 1200)][i // 3 % 3]
        out.append(dict(k='parser', s=case_seed(ID, seed, 'n', i), be=gen.BACKENDS[i % 3], F=F, n=n, sel=str(r.choice(['specie', 'indices'])), opt=str(r.choice(['', 'n_steps'])) if F < 10 else 'all', fw=False, prog=False, w=30))
    for i in range(300 if q else 6000):
        r = rng_for(ID, seed, 'a', i)
        out.append(dict(k='route', s=case_seed(ID, seed, 'a', i), route=gen.ROUTES[i % 5], ana='DJC'[(i // 5) % 3], R=int(r.choice([1, 1, 2, 3]))))
    for i in range(6 if q else 60):
        out.append(dict(k='alloc', s=case_seed(ID, seed, 'm', i), be=gen.BACKENDS[i % 3], w=4))
    return out


def run(c, ctx):
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


def run_parser(c, ctx, r):
    be, F, n = c['be'], c['F'], c['n']
    sub = 2 if c['opt'] == 'sub' else 1
    nm = max(2, n // 2)
    sp = gen.species_list(r, n, nm)
    t = gen.walk(r, n, F, 'ortho', .2, 'random', sp, sub=sub)
    kw = dict(time_step=.1)
    if c['sel'] == 'specie':
        if be == 'mda' and r.random() < .4:
            k = 2
            if sum(s == 'Li' for s in sp[::k]) >= 2:
                kw['sub_sample_atoms'] = k
                ctx.feat('sub_sample_atoms')
    elif c['sel'] == 'indices':
        kw.update(specie=None, specie_indices=[int(q) for q in r.choice(n, int(r.integers(2, n + 1)), replace=False)])
        ctx.feat('specie_indices')
    else:
        m = 1 if n < 4 else 2
        ids = [int(q) + 1 for q in r.permutation(n)[:2 * m]]
        kw.update(specie=None, specie_indices=[ids[:m], ids[m:]])
        ctx.feat('molecules')
    if c['fw']:
        kw['framework_indices'] = []
        ctx.feat('framework')
    o = c['opt']
    if o == 'n_steps':
        kw['n_steps'] = int(r.integers(2, 5))
    elif o == 'all':
        kw['n_steps'] = F
    elif o == 'min_dt':
        kw['min_dt'] = .1 * sub * max(1, F // 2)
    elif o == 'max_dt':
        kw['max_dt'] = .1 * sub * max(2, F // 2)
    elif o == 'log':
        kw.update(spacing='logarithmic', n_steps=6)
    data = gen.present(t, be)
    p0 = gen.parse(t, be, data=data, memory_limit=1e6, **kw)
    stored = sum(int(np.asarray(d).nbytes) for d in p0.disp_3d)
    vals = sum(int(np.asarray(d).size) for d in p0.disp_3d)
    item = stored // vals
    ctx.ok(item * vals == stored and item in (4, 8), 'precision of the displacements', item=item)
    ctx.feat('float32' if item == 4 else 'float64', be, {'log': 'logarithmic', 'sub': 'sub_sample_traj', '': 'plain'}.get(o, o))
    ctx.count('bytes_counted', stored)
    ctx.trivial = len(p0.disp_3d) < 2
    if c['prog']:
        ctx.feat('progress')
    half = .25e-9

    def attempt(lim):
        return gen.parse(t, be, data=data, memory_limit=lim, **{**kw, 'progress': c['prog']})

    below = [stored * 1e-9 - half, stored * .999e-9, stored * .5e-9]
    if item == 8:
        below.append(stored * .51e-9)
    for lim in below + [1e-12]:
        ctx.raises(MemoryError, lambda: attempt(lim), f'{stored} bytes of displacements with a limit of {lim * 1e9:.2f} bytes')
    ctx.feat('just-below', 'tiny-limit')
    for lim in (stored * 1e-9 + half, stored * 1.001e-9, stored * 1.9e-9, 8., 1):
        p = attempt(lim)
        ctx.ok(len(p.disp_3d) == len(p0.disp_3d) and all(np.array_equal(a, b) for a, b in zip(p.disp_3d, p0.disp_3d)), 'displacements depend on the memory limit', limit=lim)
    ctx.feat('just-above', 'huge-limit', 'int-limit')
    p = gen.parse(t, be, data=data, **kw)
    ctx.ok(len(p.disp_3d) == len(p0.disp_3d), 'default memory limit refuses a tiny trajectory')
    ctx.feat('default-accepts')


def run_route(c, ctx, r):
    """The option reaches the parser by every route and analysis; replicas are limited one by one."""
    route, kind, R = c['route'], c['ana'], c['R']
    sp = gen.species_list(r, 6, 3, contiguous=True)
    L = gen.make_cell(r, 'ortho')
    ts = [gen.walk(r, 6, 20, 'ortho', .2, 'random', sp, cell_matrix=L) for _ in range(R)]
    with gen.Scratch() as sd:
        data = [gen.present(t, route, sd) for t in ts]
        data = data if R > 1 else data[0]
        dtype = 'identical' if R > 1 else None
        a = gen.analyze(kind, route, data, gen.parser_kw(route, time_step=.1, memory_limit=1.), dtype=dtype)
        item = 4 if route == 'universe' else 8
        per = sum(d.size for d in a._disp_3d) // R if hasattr(a, '_disp_3d') else sum(np.asarray(d).size for d in a.to_dict()['disp_3d']) // R
        nb = per * item
        for lim in (nb * .5e-9, nb * .999e-9, 1e-12):
            ctx.raises(MemoryError, lambda: gen.analyze(kind, route, data, gen.parser_kw(route, time_step=.1, memory_limit=lim), dtype=dtype), f'{nb} bytes of displacements with a limit of {lim * 1e9:.1f} bytes on route {route}')
        b = gen.analyze(kind, route, data, gen.parser_kw(route, time_step=.1, memory_limit=nb * (R if R > 1 else 1.001) * 1.001e-9), dtype=dtype)
        ctx.same(gen.value(b, kind), gen.value(a, kind), 'results with a sufficient limit')
    ctx.feat(kind, 'route')
    if R > 1:
        ctx.feat('identical')


def run_alloc(c, ctx, r):
    """Refusing must not first allocate the displacements: peak traced memory of a refusal against their size."""
    be = c['be']
    n, F = 40, 300
    t = gen.walk(r, n, F, 'ortho', .1, 'wrapped', ['Li'] * n)
    data = gen.present(t, be)
    p = gen.parse(t, be, data=data, memory_limit=10.)
    stored = sum(d.nbytes for d in p.disp_3d)
    one = max(d.nbytes for d in p.disp_3d)
    del p
    tracemalloc.start()
    try:
        ctx.raises(MemoryError, lambda: gen.parse(t, be, data=data, memory_limit=stored * .9e-9), 'parsing above the limit')
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    ctx.ok(peak < .7 * stored, 'a refused parse allocated as much memory as the displacements need', peak=peak, stored=stored, largest_interval=one)
    ctx.count('refusal_peak_bytes', peak)
    ctx.count('refusal_stored_bytes', stored)
    ctx.feat('allocation-watched')
