"""C20: invalid requests are rejected with an error."""
import numpy as np

from .. import boots, gen
from ..core import case_seed, rng_for
from .c11 import walker

ID = 'C20'
RULE = ('each case takes one valid request that is first shown to be accepted, changes one option to an invalid value, and requires an exception from the constructor; every combination of analysis, route and kind of invalid option '
        'is visited, also next to other unusual but valid options, for single trajectories and for replicas; non-trivial always (the accepted neighbour is part of the case)')
FAULTS = ['spacing', 'sampling', 'dtype', 'dimension', 'species', 'species-list', 'no-selection', 'min_dt', 'min_dt-equal', 'unequal-molecules', 'masses-short', 'masses-long', 'atoms+indices', 'species-subsampled-away', 'consecutive-universe', 'unequal-molecules-late', 'min_dt-log']
REQUIRED = FAULTS + list(gen.ROUTES) + ['D', 'J', 'C', 'parser', 'direct', 'identical', 'consecutive', 'single-origin', 'logarithmic', 'accepted-neighbour', 'sub_sample_traj']
ASSUMPTIONS = ['the exception type is not part of the property; a neighbouring valid request must be accepted']
SP = ['log', 'quadratic', 'geometric', '', 'lin']
SA = ['multi', 'single', 'all', '', 'origin']
DT = ['replicas', 'parallel', 'serial', '', 'consecutives']
DI = ['w', 'xw', 'xyzw', '', 'q', 'xx', 'abc', '1']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    reps = 3 if q else 30
    i = 0
    for rep in range(reps):
        for f in FAULTS:
            for route in gen.ROUTES:
                if f in ('atoms+indices', 'species-subsampled-away', 'consecutive-universe') and route != 'universe':
                    continue
                for ana in 'DJC':
                    out.append(dict(k='analyzer', f=f, route=route, ana=ana, s=case_seed(ID, seed, i)))
                    i += 1
                if route in ('ase', 'pymatgen', 'universe') and f not in ('dtype', 'dimension', 'consecutive-universe'):
                    out.append(dict(k='parser', f=f, route=route, s=case_seed(ID, seed, i)))
                    i += 1
        for ana in 'DJC':
            for d in DI:
                out.append(dict(k='direct', ana=ana, d=d, f='dimension', s=case_seed(ID, seed, i)))
                i += 1
    return out


def spoil(r, f, F, step, n, ctx, sub):
    """(valid parser options, the invalid change, extra constructor arguments, invalid extra)."""
    ok, bad = {}, {}
    if r.random() < .25:
        ok['sampling'] = 'single-origin'
        ctx.feat('single-origin')
    if r.random() < .25:
        ok['spacing'] = 'logarithmic'
        ctx.feat('logarithmic')
    mols = [[1, 2], [3, 4], [5, 6]]
    if f == 'spacing':
        bad['spacing'] = str(r.choice(SP))
    elif f == 'sampling':
        bad['sampling'] = str(r.choice(SA))
    elif f == 'species':
        bad['specie'] = str(r.choice(['Na', 'Xx', 'K', 'Ge']))
    elif f == 'species-list':
        ok['specie'] = ['Li', 'Na']
        bad['specie'] = ['Na', 'K']
    elif f == 'no-selection':
        bad['specie'] = None
        if r.random() < .3:
            bad['specie_indices'] = None
    elif f in ('min_dt', 'min_dt-equal', 'min_dt-log'):
        ok['min_dt'] = step * (F // 2)
        bad['min_dt'] = step * F if f == 'min_dt-equal' else step * F * float(r.choice([1.5, 10]))
        if f == 'min_dt-log':
            ok['spacing'] = 'logarithmic'
    elif f.startswith('unequal-molecules'):
        ok.update(specie=None, specie_indices=mols)
        bad['specie_indices'] = [[1, 2], [3, 4], [5, 6, 7]] if f.endswith('late') else [[1, 2, 3], [4, 5]]
    elif f.startswith('masses'):
        ok.update(specie=None, specie_indices=mols, masses=[1., 16.])
        bad['masses'] = [1.] if f.endswith('short') else [1., 16., 1.]
    elif f == 'atoms+indices':
        ok.update(specie=None, specie_indices=[0, 1, 2] if r.random() < .5 else mols)
        bad['sub_sample_atoms'] = int(r.choice([2, 3]))
    elif f == 'species-subsampled-away':
        ok['specie'] = 'Li'
        bad['sub_sample_atoms'] = 8
    return ok, bad


def run(c, ctx):
    r = rng_for('run', c['s'])
    f = c['f']
    ctx.feat(f)
    if c['k'] == 'direct':
        return run_direct(c, ctx, r)
    route = c['route']
    n, F = 8, int(r.choice([20, 26]))
    sub = int(r.choice([1, 1, 2])) if f.startswith('min_dt') else 1
    sp = ['O', 'Li', 'Li', 'Li', 'Li', 'Li', 'Li', 'Li'] if route == 'universe' else ['Li'] * 6 + ['O'] * 2
    L = gen.make_cell(r, 'ortho')
    h = float(r.choice([.1, 1., .25]))
    ok, bad = spoil(r, f, F, h * sub, n, ctx, sub)
    R = 2 if c['k'] == 'analyzer' and (r.random() < .25 or f == 'dtype') else 1
    if f == 'consecutive-universe':
        R = 2
    dtype = 'identical' if R > 1 else None
    if R > 1 and route != 'universe' and r.random() < .5:
        dtype = 'consecutive'
    if dtype == 'consecutive' and f.startswith('min_dt'):
        dtype = 'identical'
    ts = [gen.walk(r, n, F, 'ortho', .2, 'wrapped', sp, sub=sub, cell_matrix=L) for _ in range(R)]
    if sub > 1:
        ok['sub_sample_traj'] = sub
        ctx.feat('sub_sample_traj')
    with gen.Scratch() as sd:
        if c['k'] == 'parser':
            be = 'mda' if route == 'universe' else route
            data = gen.present(ts[0], be)
            kw = dict(time_step=h, **ok)
            gen.parse(ts[0], be, data=data, **kw)
            ctx.feat('accepted-neighbour', 'parser')
            ctx.raises(Exception, lambda: gen.parse(ts[0], be, data=data, **{**kw, **bad}), f'parser with {bad}')
            return
        ana = c['ana']
        data = [gen.present(t, route, sd) for t in ts]
        data = data if R > 1 else data[0]
        un = dict(dimension=str(r.choice(boots.DIMS)))
        ubad = dict(un)
        dbad = dtype
        if f == 'dimension':
            ubad['dimension'] = str(r.choice(DI))
        if f == 'dtype':
            dbad = str(r.choice(DT))
        if f == 'consecutive-universe':
            dbad = 'consecutive'
        pp = gen.parser_kw(route, time_step=h, **ok)
        pb = gen.parser_kw(route, time_step=h, **{**ok, **bad})
        gen.analyze(ana, route, data, pp, dtype=dtype, uncertainty=un)
        ctx.feat('accepted-neighbour', route, ana, *([dtype] if dtype else []))
        ctx.raises(Exception, lambda: gen.analyze(ana, route, data, pb, dtype=dbad, uncertainty=ubad), f'{ana} from_{route} with {f}', parser=bad, dtype=dbad, dimension=ubad['dimension'])


def run_direct(c, ctx, r):
    dts, disp, n_o = walker(r, c['ana'], 4, 30, 10, 1.0, .5)
    boots.make(c['ana'], dts, disp, n_o, 1.0, dimension='xz')
    ctx.feat('accepted-neighbour', 'direct')
    ctx.raises(Exception, lambda: boots.make(c['ana'], dts, disp, n_o, 1.0, dimension=c['d']), f'dimension {c["d"]!r}')
