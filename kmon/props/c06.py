"""C06: molecules are followed by their (weighted) centre across periodic boundaries."""
import numpy as np

from .. import gen, obs
from ..core import case_seed, rng_for

ID = 'C06'
RULE = ('each case draws rigid-free molecules (their atoms tumble independently around a walking centre, extent below half a cell), '
        'records every atom of every frame in an arbitrary periodic image and compares the observed displacements of every molecule with '
        'the true displacement of its weighted centre relative to the framework; non-trivial when a molecule is cut by a boundary')
REQUIRED = ['ase', 'pymatgen', 'mda', 'masses', 'no-masses', 'fw:default', 'fw:list', 'fw:empty', 'no-framework', 'one-molecule', 'molecules>50', 'size-1', 'size-2',
            'size>=6', 'extent>0.45', 'tri', 'ortho', 'cut', 'zero-mass-atom', 'equal-masses', 'straddles-centre', 'tuple', 'analyzer', 'F>=100', 'permuted', 'on-boundary', 'npt', 'left-handed', 'masses:tuple', 'masses:int', 'with:spacing', 'with:min_dt', 'with:max_dt', 'with:sampling', 'with:step_skip']
ASSUMPTIONS = ['molecule extent below half of each cell vector; centres move by less than half a cell vector per frame']


def cases(tier, seed):
    n_cases = 2800 if tier == 'quick' else 80000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        c = dict(k='mol', s=case_seed(ID, seed, i), backend=gen.BACKENDS[i % 3], size=int(r.choice([1, 2, 2, 3, 4, 6, 9])),
                 nm=int(r.choice([1, 2, 3, 8])), fn=int(r.choice([0, 1, 3, 10])), F=int(r.choice([3, 5, 12, 30])),
                 cell=str(r.choice(['cubic', 'ortho', 'aniso', 'tri', 'hex'])), ext=float(r.choice([.05, .2, .4, .49])),
                 mass=str(r.choice(['none', 'none', 'random', 'random', 'equal', 'extreme', 'zero'])), fw=str(r.choice(['default', 'default', 'list', 'empty'])),
                 sub=int(r.choice([1, 1, 1, 2])), ana=str(r.choice(['', '', '', 'D', 'J'])), order=bool(r.random() < .6), place=str(r.choice(['any', 'any', 'half', 'zero'])),
                 npt=float(r.choice([0, 0, 0, 0, 1e-3, .03, .1])), hist=str(r.choice(gen.HISTORIES)))
        if r.random() < .1:
            c['sub'] = int(r.choice([3, 7, 10]))
        if r.random() < .1:
            c['fn'] = int(r.choice([40, 150]))
        if c['ana'] == 'J':
            c['F'] = max(8, c['F'])
        if i % 50 == 0:
            c.update(nm=60, size=3, F=4)
        if i % 50 == 1:
            c.update(F=120, nm=2)
        if i % 200 in (2, 3, 4):
            c.update(nm=int(r.choice([150, 400])), size=3, F=3, w=20)
        if i % 200 in (5, 6, 7):
            c.update(F=int(r.choice([600, 1200])), nm=1, size=2, w=20)
        if i % 100 in (8, 9, 10):
            c.update(size=int(r.choice([12, 20, 40])), nm=2, F=4)
        out.append(c)
    return out


def inside(f):
    """The image in the cell, kept clear of the boundary (where rounding would decide the image)."""
    return np.clip(f - np.floor(f), 1e-4, 1 - 1e-4)


def nearest(d, cell):
    return d - np.floor(d @ np.linalg.inv(cell) + .5) @ cell


def run(c, ctx):
    r = rng_for('run', c['s'])
    be, F, size, nm, fn = c['backend'], c['F'], c['size'], c['nm'], c['fn']
    n = nm * size + fn
    masses = {'none': None, 'random': r.uniform(.5, 60, size), 'equal': np.full(size, 7.), 'extreme': 10.0**r.uniform(-3, 3, size),
              'zero': np.r_[np.zeros(size - 1), 3.] if size > 1 else np.array([2.])}[c['mass']]
    w = np.ones(size) if masses is None else masses
    w = w / w.sum()
    perm = r.permutation(n) if c['order'] else np.arange(n)
    mol = [perm[k * size:(k + 1) * size].tolist() for k in range(nm)]
    rest = sorted(perm[nm * size:].tolist())
    L = gen.make_cell(r, c['cell'], lower=True)
    L = L * float(r.choice([1, 1, 1, .5, 5]))
    if be != 'mda' and r.random() < .15:  # left-handed cells (MDAnalysis cannot hold one)
        L[2] *= -1
        ctx.feat('left-handed')
    npt = c['npt'] if c['place'] == 'any' and F > 1 else 0.0
    cells = np.broadcast_to(L, (F, 3, 3)).copy()
    if npt:
        cells = gen.cell_history(r, L, F, npt, c['hist'], shear=c['cell'] in ('tri', 'hex'), lower=True)
    # centres walk; atoms tumble around them with offsets spanning at most ext (< .5) in each direction
    c0 = {'any': r.random((nm, 3)), 'half': .5 + r.uniform(-1e-3, 1e-3, (nm, 3)), 'zero': r.uniform(-1e-3, 1e-3, (nm, 3))}[c['place']]
    hop = .12 if c['place'] == 'any' else 1e-3
    frac = np.empty((F, n, 3))
    cen = np.empty((F, nm, 3))
    anchor = c0
    for f in range(F):
        if f and npt:  # the wrapped centre carries its absolute position over to the new cell
            xa = anchor @ cells[f - 1] + r.uniform(-hop, hop, (nm, 3)) @ cells[f]
            anchor = inside(xa @ np.linalg.inv(cells[f]))
            xc[f] = xc[f - 1] + nearest(anchor @ cells[f] - prev, cells[f])
        elif f:
            anchor = anchor + r.uniform(-hop, hop, (nm, 3))
        elif npt:
            anchor = inside(anchor)
            xc = np.zeros((F, nm, 3))
        prev = anchor @ cells[f]
        for k in range(nm):
            o = r.random((size, 3))
            span = o.max(axis=0) - o.min(axis=0)
            span[span == 0] = 1
            ext = c['ext'] if r.random() < .7 else c['ext'] * r.random()
            # smooth tumbling: keep weighted centre within the hop limit by centring the offsets on the weighted mean
            o = (o - o.min(axis=0)) / span * ext
            o = o - (w[:, None] * o).sum(axis=0)
            if c['place'] == 'zero' and size > 1 and r.random() < .3:
                o[0] = 0.0
                o = o - (w[:, None] * o).sum(axis=0)
                if np.any(o.max(axis=0) - o.min(axis=0) >= .5):
                    o *= .5
            frac[f, mol[k]] = anchor[k] + o
            cen[f, k] = anchor[k]
    if rest:
        fr = r.random((len(rest), 3))[None] + np.concatenate([np.zeros((1, len(rest), 3)), np.cumsum(r.uniform(-.1, .1, (F - 1, len(rest), 3)), axis=0)])
        frac[:, rest] = fr
        if npt:
            fr = inside(fr)
            frac[:, rest] = fr
            xr = np.zeros((F, len(rest), 3))
            for f in range(1, F):
                fr[f] = inside((fr[f - 1] @ cells[f - 1] + r.uniform(-.1, .1, (len(rest), 3)) @ cells[f]) @ np.linalg.inv(cells[f]))
                frac[f, rest] = fr[f]
                xr[f] = xr[f - 1] + nearest(fr[f] @ cells[f] - fr[f - 1] @ cells[f - 1], cells[f])
    for k in range(nm):
        cen[:, k] = np.einsum('a,fax->fx', w, frac[:, mol[k]])
    cut = bool(np.any([np.any(np.floor(frac[:, m]).max(axis=1) != np.floor(frac[:, m]).min(axis=1)) for m in mol]))
    if npt:  # the image of a molecule's atoms does not matter; framework atoms are recorded inside the cell
        if r.random() < .5:
            inmol = np.concatenate(mol)
            frac[:, inmol] += r.integers(-2, 3, (F, len(inmol), 3))
        ctx.feat('npt')
    allf, allc = gen.record(r, frac, cells, 'asis' if npt else str(r.choice(['random', 'wrapped', 'centred', 'asis'])), c['sub'], int(r.integers(0, c['sub'])))
    sp = ['Li'] * n if r.random() < .5 else [str(e) for e in r.choice(['H', 'C', 'O', 'Li'], n)]
    t = gen.Traj(sp, np.einsum('fij,fjk->fik', frac, cells), cells, allf, allc, c['sub'])
    kw = dict(specie=None, specie_indices=[[int(q) + 1 for q in m] for m in mol])
    if r.random() < .3:
        kw['specie_indices'] = tuple(tuple(m) for m in kw['specie_indices']) if r.random() < .5 else [tuple(m) for m in kw['specie_indices']]
        ctx.feat('tuple')
    if masses is not None:
        kw['masses'] = masses.tolist()
        if r.random() < .3:
            kw['masses'] = tuple(kw['masses'])
            ctx.feat('masses:tuple')
        if c['mass'] == 'equal':
            kw['masses'] = type(kw['masses'])(int(q) for q in kw['masses'])
            ctx.feat('masses:int')
    if c['fw'] == 'default':
        fw = rest
    elif c['fw'] == 'empty':
        fw, kw['framework_indices'] = [], []
    else:
        fw = sorted(r.choice(rest, size=int(r.integers(1, len(rest) + 1)), replace=False).tolist()) if rest else []
        kw['framework_indices'] = [int(q) + 1 for q in fw]
    if npt:
        truth = xc - xr[:, [rest.index(q) for q in fw]].mean(axis=1)[:, None] if fw else xc
    else:
        truth = cen @ L
        if fw:
            truth = truth - t.x[:, fw].mean(axis=1)[:, None]
    opts, step, samp = gen.nuisance(r, F, .1, c['sub'], single=nm > 1)
    if c['ana'] == 'J':  # a collective value needs more than one time origin
        samp = 'multi-origin'
        for q in ('sampling', 'min_dt', 'max_dt', 'n_steps', 'spacing'):
            opts.pop(q, None)
    opts.setdefault('n_steps', 20)
    if nm * F > 1000:
        opts['n_steps'] = min(opts['n_steps'], 20)
    for q in opts:
        ctx.feat('with:' + q)
    route = {'mda': 'universe'}.get(be, be)
    if c['ana']:
        k2 = gen.parser_kw(route, **opts, **kw)
        if c['sub'] != 1:
            k2['sub_sample_traj'] = c['sub']
        a = gen.analyze(c['ana'], route, gen.present(t, be), k2)
        d = a.to_dict()
        dts, disp = d['delta_t'], d['disp_3d']
        ctx.feat('analyzer')
        v = gen.value(a, c['ana'])
        ctx.ok(v.size >= 1, 'no result')
        for q in range(v.size):  # the analyzer reports the quantity of these centres
            o = np.asarray(disp[q], float)
            e = np.mean(np.sum(o**2, -1)) if c['ana'] == 'D' else np.mean(np.sum(o.sum(0)**2, -1))
            ctx.close(v[q], e, 'mean-squared quantity of the centres', rtol=1e-5, atol=1e-9)
    else:
        p = gen.parse(t, be, **opts, **kw)
        dts, disp = p.delta_t, p.disp_3d
    tl = obs.taus(dts, step, ctx)
    obs.check_parser(ctx, disp, tl, truth, samp, 8 * gen.tol(t, be) * (1 if be != 'mda' else 2))
    ctx.count('molecule_frames', F * nm)
    ctx.trivial = not cut
    ctx.feat(be, 'masses' if masses is not None else 'no-masses', 'fw:' + c['fw'], f'size-{size}' if size < 6 else 'size>=6', c['cell'])
    for cond, f in ((not rest, 'no-framework'), (nm == 1, 'one-molecule'), (nm > 50, 'molecules>50'), (c['ext'] > .45 and size > 1, 'extent>0.45'), (cut, 'cut'),
                    (c['mass'] == 'zero' and size > 1, 'zero-mass-atom'), (c['mass'] == 'equal', 'equal-masses'), (c['place'] == 'half', 'straddles-centre'),
                    (c['place'] == 'zero', 'on-boundary'), (F >= 100, 'F>=100'), (c['order'], 'permuted')):
        if cond:
            ctx.feat(f)
