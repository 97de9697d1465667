"""C01: unwrapped displacements against the motion the generator drew."""
import numpy as np

from .. import gen, obs
from ..core import case_seed, rng_for

ID = 'C01'
RULE = ('each case draws a continuous motion (hops < half a cell vector), records it in arbitrary periodic images / varying '
        'cells, parses it with one back end and compares every observed displacement with the drawn motion; non-trivial when '
        'at least one atom crosses a boundary')
REQUIRED = ['pinned', 'coordinates>1e6', 'cell:near', 'cell:mono', 'pauses', 'F>2000', 'n>2000'] + ['history:' + h for h in gen.HISTORIES] + ['backend:ase', 'backend:pymatgen', 'backend:mda', 'npt', 'triclinic', 'sub>1', 'images:random', 'images:wrapped',
            'images:unwrapped', 'images:far', 'hop>0.45', 'crossings>100', 'F>=300', 'n>=200', 'general', 'framework-default', 'n_o-steps<F', 'by-indices', 'with:spacing', 'with:min_dt', 'with:max_dt', 'with:sampling', 'with:progress', 'cell>200', 'left-handed']
ASSUMPTIONS = ['every atom moves by less than half of each cell vector between analysed frames',
               'for varying cells, positions are recorded inside the current cell (documented TOR scheme)',
               'MDAnalysis holds positions in single precision']

CELLS = ['cubic', 'ortho', 'aniso', 'tri', 'hex', 'general', 'skew', 'near', 'mono']


def cases(tier, seed):
    out = []
    n_cases = 3600 if tier == 'quick' else 100000
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        be = gen.BACKENDS[i % 3]
        c = dict(k='walk', s=case_seed(ID, seed, i), backend=be, cell=str(r.choice(CELLS)),
                 npt=float(r.choice([0, 0, 0, 0, .0003, .005, .03, .1])), images=str(r.choice(['wrapped', 'random', 'centred', 'unwrapped', 'far'])),
                 hop=float(r.choice([.05, .2, .4, .49 if be == 'mda' else .4999])),
                 steps=str(r.choice(['uniform', 'extreme', 'ballistic', 'heavy', 'still', 'normal'])),
                 n=int(r.choice([1, 2, 5, 20, 60])), F=int(r.choice([2, 3, 5, 12, 40, 90])), sub=int(r.choice([1, 1, 1, 2, 3, 7])),
                 fw=str(r.choice(['empty', 'default'])), n_steps=int(r.choice([5, 100])), hist=str(r.choice(gen.HISTORIES)), pause=float(r.choice([0, 0, .3])))
        if i % 25 == 0:
            c.update(F=int(r.choice([300, 600])), n=4, sub=1, n_steps=12, w=5)
        if i % 25 == 1:
            c.update(n=int(r.choice([200, 1000])), F=8, w=5)
        if i % 240 in (2, 3, 4):
            c.update(F=int(r.choice([2300, 5200])), n=2, sub=1, n_steps=3, w=60)
        if i % 400 in (5, 6, 7):
            c.update(n=int(r.choice([2600, 5200])), F=4, w=60)
        if i < (6 if tier == 'quick' else 30):  # millions of coordinates
            F = int(r.choice([300, 900]))
            c.update(F=F, n=int(1.05e6 / 3 / F) * (3 if be != 'pymatgen' else 1), sub=1, n_steps=3, w=300)
        out.append(c)
    return out


def run(c, ctx):
    r = rng_for('run', c['s'])
    n = c['n']
    sp = ['Li'] * n
    if c['fw'] == 'default' and n > 1:
        sp = gen.species_list(r, n, max(1, n // 2), others=('O', 'S'))
    L = gen.make_cell(r, c['cell'], c['backend'] == 'mda')
    u = r.random()
    if u < .1:
        L = L * float(r.choice([.4, 15, 60]))
        if np.abs(L).max() > 200:
            ctx.feat('cell>200')
    elif u < .2 and c['backend'] != 'mda':
        L = L[[1, 0, 2]] if r.random() < .5 else -L
        ctx.feat('left-handed')
    pins = []
    if n > 2 and r.random() < .2:
        pins = [int(i) for i in r.choice(n, int(r.integers(1, 1 + n // 3)), replace=False)]
        ctx.feat('pinned')
    t = gen.walk(r, n, c['F'], c['cell'], c['hop'], c['images'], sp, sub=c['sub'], tail=int(r.integers(0, c['sub'])),
                 npt=c['npt'], lower=c['backend'] == 'mda', steps=c['steps'], history=c['hist'], pauses=c['pause'], cell_matrix=L, pinned=pins)
    if c['pause']:
        ctx.feat('pauses')
    mobile = [i for i, s in enumerate(sp) if s == 'Li']
    framework = [i for i in range(n) if i not in mobile] if c['fw'] == 'default' else []
    kw = {} if c['fw'] == 'default' else {'framework_indices': []}
    big = 3 * n * c['F'] > 3e5
    opts, step, samp = gen.nuisance(r, c['F'], 0.01, c['sub'], single=len(mobile) > 1) if not big else (dict(time_step=.01), .01 * c['sub'], 'multi-origin')
    opts.setdefault('n_steps', c['n_steps'])
    if big or c['F'] > 200:
        opts['n_steps'] = min(opts['n_steps'], c['n_steps'])
    if r.random() < .25:  # the same atoms named by their indices
        kw.update(specie=None, specie_indices=mobile)
        ctx.feat('by-indices')
    p = gen.parse(t, c['backend'], pbc=bool(r.integers(0, 2)), **opts, **kw)
    for q in ('spacing', 'min_dt', 'max_dt', 'sampling', 'progress'):
        if q in opts:
            ctx.feat('with:' + q)
    ctx.count('parsed')
    tl = obs.taus(p.delta_t, step, ctx)
    truth = obs.relative(t.x, mobile, framework)
    obs.check_parser(ctx, p.disp_3d, tl, truth, samp, 4 * gen.tol(t, c['backend']))
    cross = int(np.sum(np.abs(np.diff(np.floor(t.x @ np.linalg.inv(t.cells[0])), axis=0)) > 0))
    ctx.count('boundary_crossings', cross)
    ctx.trivial = cross == 0
    ctx.feat('backend:' + c['backend'], 'images:' + c['images'], 'steps:' + c['steps'], 'cell:' + c['cell'])
    if c['npt'] > 0:
        ctx.feat('history:' + c['hist'])
    for cond, f in ((3 * n * c['F'] > 1e6, 'coordinates>1e6'), (c['F'] > 2000, 'F>2000'), (n > 2000, 'n>2000'), (c['npt'] > 0, 'npt'), (c['cell'] in ('tri', 'hex', 'general', 'skew', 'near', 'mono'), 'triclinic'), (c['sub'] > 1, 'sub>1'),
                    (c['hop'] > .45 and c['steps'] == 'extreme', 'hop>0.45'), (cross > 100, 'crossings>100'), (c['F'] >= 300, 'F>=300'),
                    (n >= 200, 'n>=200'), (c['cell'] == 'general', 'general'), (bool(framework), 'framework-default'),
                    (c['n_steps'] < c['F'], 'n_o-steps<F')):
        if cond:
            ctx.feat(f)
