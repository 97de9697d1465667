"""Hostile workload generators. Every trajectory carries its own ground truth: the generator draws the continuous
motion first and then records it the way a simulation code might (any periodic image, any cell history)."""
import os
import tempfile

import numpy as np

ELEMENTS = ['Li', 'Na', 'O', 'S', 'P', 'Cl', 'H', 'La', 'Zr']


def make_cell(rng, kind, lower=False):
    if kind == 'cubic':
        return np.eye(3) * rng.uniform(4, 20)
    if kind == 'ortho':
        return np.diag(rng.uniform(4, 20, 3))
    if kind == 'aniso':
        return np.diag(rng.permutation([rng.uniform(2.5, 4), rng.uniform(8, 15), rng.uniform(30, 80)]))
    # triclinic
    a, b, c = rng.uniform(5, 20, 3)
    if kind == 'near':  # almost orthogonal: angles of the cell within about a degree of 90
        t = rng.choice([0.0005, 0.004, 0.015, 0.025]) * rng.uniform(-1, 1, 3)
        m = np.array([[a, 0, 0], [t[0] * b, b, 0], [t[1] * c, t[2] * c, c]])
    elif kind == 'mono':  # one angle away from 90
        m = np.diag([a, b, c])
        i, j = [(1, 0), (2, 0), (2, 1)][int(rng.integers(3))]
        m[i, j] = rng.uniform(-.45, .45) * m[j, j]
    elif kind == 'hex':
        m = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    else:
        lim = 0.3 if kind == 'tri' else 0.49
        m = np.array([[a, 0, 0], [rng.uniform(-lim, lim) * a, b, 0],
                      [rng.uniform(-lim, lim) * a, rng.uniform(-lim, lim) * b, c]])
    if kind == 'general' and not lower:
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        m = m @ q
    return m


class Traj:
    """x: true continuous Cartesian positions of the analysed frames (F, n, 3); all_frac/all_cells: recorded frames."""

    def __init__(self, species, x, cells, all_frac, all_cells, sub=1):
        self.species, self.x, self.cells = list(species), x, cells
        self.all_frac, self.all_cells, self.sub = all_frac, all_cells, sub

    @property
    def F(self):
        return self.x.shape[0]

    @property
    def n(self):
        return self.x.shape[1]

    @property
    def scale(self):
        """Largest recorded Cartesian coordinate (for float32 error bounds)."""
        return float(np.abs(np.einsum('fij,fjk->fik', self.all_frac, self.all_cells)).max())


def species_list(rng, n, n_mobile, mobile='Li', others=('O', ), contiguous=False):
    s = [mobile] * n_mobile + [others[i % len(others)] for i in range(n - n_mobile)]
    if contiguous:
        order = {e: i for i, e in enumerate([mobile] + list(others))}
        return sorted(s, key=lambda e: order[e])
    return [str(e) for e in rng.permutation(s)]


def record(rng, frac, cells, images, sub=1, tail=0, decoy=True):
    """Choose the images that are written out, and put unanalysed frames in between when sub > 1."""
    F = frac.shape[0]
    if images == 'wrapped':
        rec = frac - np.floor(frac)
    elif images in ('random', 'far'):
        far = 2 if images == 'random' else 60  # far: images as in the unwrapped coordinates of a long run
        rec = frac - np.floor(frac) + rng.integers(-far, far + 1, size=frac.shape)
    elif images == 'centred':
        rec = frac - np.floor(frac + 0.5)
    else:
        rec = frac.copy()
    if sub == 1:
        return rec, cells.copy()
    total = (F - 1) * sub + 1 + tail
    idx = np.minimum(np.arange(total) // sub, F - 1)
    allf, allc = rec[idx].copy(), cells[idx].copy()
    skipped = np.arange(total) % sub != 0
    if decoy:
        allf[skipped] = rng.random(size=allf[skipped].shape)
    return allf, allc


def walk(rng, n, F, cell='cubic', hop=0.2, images='random', species=None, sub=1, tail=0, npt=0.0, lower=False,
         steps='uniform', drift=None, cell_matrix=None, pauses=0.0, history='free', pinned=()):
    """A trajectory in which no atom moves by `hop` (< 0.5) of a cell vector or more between analysed frames."""
    L0 = make_cell(rng, cell, lower) if cell_matrix is None else np.array(cell_matrix, float)
    f0 = rng.random(size=(n, 3))
    if steps == 'uniform':
        d = rng.uniform(-hop, hop, size=(F - 1, n, 3))
    elif steps == 'extreme':
        d = rng.choice([-1, 1], size=(F - 1, n, 3)) * hop * rng.choice([1.0, 0.999, 0.5, 0.0], size=(F - 1, n, 3))
    elif steps == 'ballistic':
        d = np.broadcast_to(rng.uniform(-hop, hop, size=(1, n, 3)), (F - 1, n, 3)).copy()
    elif steps == 'heavy':
        d = np.clip(rng.standard_t(1.5, size=(F - 1, n, 3)) * hop / 10, -hop, hop)
    elif steps == 'still':
        d = rng.uniform(-hop, hop, size=(F - 1, n, 3)) * (rng.random((1, n, 1)) < 0.5)
    else:
        d = np.clip(rng.normal(size=(F - 1, n, 3)) * hop / 4, -hop, hop)
    for j in pinned:  # atoms that stay on a special position
        f0[j] = rng.choice([0., .25, .5, .75], 3) if rng.random() < .6 else 0.
        if npt:  # on the boundary of a changing cell the image is ambiguous
            f0[j] = np.where(f0[j] == 0, .125, f0[j])
        d[:, j] = 0.0
    if pauses:  # whole frames in which nothing moves (recorded identically unless the images are random)
        d[rng.random(F - 1) < pauses] = 0.0
    if drift is not None:  # common translation per step, fractional
        d = np.clip(d + drift[:, None, :], -0.499, 0.499)
    if npt == 0.0:
        cells = np.broadcast_to(L0, (F, 3, 3)).copy()
        frac = np.concatenate([f0[None], f0[None] + np.cumsum(d, axis=0)])
        x = frac @ L0
        allf, allc = record(rng, frac, cells, images, sub, tail)
    else:
        cells = np.empty((F, 3, 3))
        cells[0] = L0
        cells[1:] = cell_history(rng, L0, F, npt, history, shear=cell not in ('cubic', 'ortho', 'aniso'), lower=lower)[1:]
        frac = np.empty((F, n, 3))
        frac[0] = f0
        x = np.empty((F, n, 3))
        x[0] = f0 @ L0
        for k in range(1, F):
            dc = d[k - 1] @ cells[k]
            x[k] = x[k - 1] + dc
            f = (frac[k - 1] @ cells[k - 1] + dc) @ np.linalg.inv(cells[k])
            frac[k] = f - np.floor(f)
        allf, allc = record(rng, frac, cells, 'asis', sub, tail)
    species = species or ['Li'] * n
    return Traj(species, x, cells, allf, allc, sub)


HISTORIES = ('free', 'isochoric', 'shear', 'axis', 'step', 'ramp', 'breathing', 'far')


def cell_history(rng, L0, F, npt, kind='free', shear=False, lower=False):
    """Cells of F frames: the ways a barostat (or a series of restarts) may change size and shape."""
    cells = np.empty((F, 3, 3))
    cells[0] = L0
    ax = int(rng.integers(0, 3))
    at = int(rng.integers(1, F)) if F > 1 else 1
    one = 1 + npt * rng.uniform(-1, 1, 3)
    far = np.exp(rng.uniform(-1.2, 1.2, 3)) if kind == 'far' else None
    for k in range(1, F):
        s = 1 + npt * rng.uniform(-1, 1, 3)
        if kind == 'isochoric':
            s = s / np.prod(s)**(1 / 3)
        elif kind == 'shear' and shear:
            s = np.ones(3)
        elif kind == 'axis':
            s = np.where(np.arange(3) == ax, s, 1.0)
        elif kind == 'step':  # one change, constant before and after
            s = one if k >= at else np.ones(3)
        elif kind == 'ramp':
            s = 1 + (one - 1) * k / F
        elif kind == 'far':  # compression or expansion to several times the first size
            s = far**(k / max(1, F - 1)) * s
        elif kind == 'breathing':
            s = np.full(3, s[0])
        c = L0 * s[:, None]
        if shear and kind in ('free', 'shear', 'isochoric'):
            e = rng.uniform(-1, 1, (3, 3)) * npt * 3
            if lower:
                e = np.tril(e, -1)
            c = c + e
            if kind == 'isochoric':
                c = c * (abs(np.linalg.det(L0)) / abs(np.linalg.det(c)))**(1 / 3)
        cells[k] = c
    return cells


def random_walk_truth(rng, n, F, cell_len, step, D_axes=(1, 1, 1)):
    """Gaussian random walk with per-axis step standard deviation `step`; wrapped cubic cell."""
    d = rng.normal(size=(F - 1, n, 3)) * step * np.sqrt(np.asarray(D_axes, float))
    x0 = rng.random((n, 3)) * cell_len
    x = np.concatenate([x0[None], x0[None] + np.cumsum(d, axis=0)])
    return x


# ---- presentation in the input formats -------------------------------------------------------------------------
def extras(t):
    """Generator for what a file may carry besides species, positions and cells (None: nothing); depends on the trajectory only."""
    import zlib
    r = np.random.default_rng(zlib.crc32(np.ascontiguousarray(t.all_frac[-1]).tobytes()))
    return r if r.random() < .6 else None


def to_ase(t, pbc=True):
    import ase
    out = [ase.Atoms(t.species, positions=f @ c, cell=c, pbc=pbc) for f, c in zip(t.all_frac, t.all_cells)]
    r = extras(t)
    if r is not None and t.n * len(out) < 40000:  # tags, charges, masses, velocities, ... say nothing about where the atoms are
        from ase.constraints import FixAtoms
        for a in out:
            a.set_tags(r.integers(0, 4, t.n))
            a.set_initial_charges(r.normal(size=t.n))
            a.set_initial_magnetic_moments(r.normal(size=t.n))
            a.set_masses(r.uniform(1, 200, t.n))
            a.set_momenta(r.normal(size=(t.n, 3)))
            a.info.update(energy=1.0, step=3, image=7, spacegroup='P1')
            a.set_celldisp(r.normal(size=3))
            a.set_constraint(FixAtoms(indices=[int(r.integers(t.n))]))
    return out


def to_pymatgen(t, oxi=None):
    from pymatgen.core import Lattice, Structure
    lat = {}
    out = []
    sp = t.species if oxi is None else [oxi.get(s, s) for s in t.species]
    r = extras(t)
    more = {}
    if r is not None and t.n * len(t.all_frac) < 40000:  # labels, site properties
        more = dict(site_properties={'magmom': r.normal(size=t.n).tolist(), 'velocities': r.normal(size=(t.n, 3)).tolist(),
                                     'selective_dynamics': [[True, False, True]] * t.n},
                    labels=[str(s) for s in r.permutation([f'{s}{i}' if r.random() < .5 else s for i, s in enumerate(t.species)])])
    for f, c in zip(t.all_frac, t.all_cells):
        k = c.tobytes()
        if k not in lat:
            lat[k] = Lattice(c)
        out.append(Structure(lat[k], sp, f, coords_are_cartesian=False, **more))
    return out


def write_xdatcar(t, path, decimals=12):
    """Species must be contiguous. The header is repeated whenever the cell may change."""
    syms, counts = [], []
    for s in t.species:
        if syms and syms[-1] == s:
            counts[-1] += 1
        else:
            syms.append(s)
            counts.append(1)
    varying = bool(np.any(t.all_cells != t.all_cells[:1]))
    with open(path, 'w') as f:

        def header(c):
            f.write('kmon\n   1.0\n')
            for row in c:
                f.write(' '.join(f'{v:.{decimals}f}' for v in row) + '\n')
            f.write(' '.join(syms) + '\n' + ' '.join(str(q) for q in counts) + '\n')

        for i, (fr, c) in enumerate(zip(t.all_frac, t.all_cells)):
            if i == 0 or varying:
                header(c)
            f.write(f'Direct configuration= {i + 1:6d}\n')
            for row in fr:
                f.write(' '.join(f'{v:.{decimals}f}' for v in row) + '\n')
    return path


def to_universe(t):
    import MDAnalysis as mda
    from MDAnalysis.coordinates.memory import MemoryReader
    from MDAnalysis.lib.mdamath import triclinic_box
    u = mda.Universe.empty(t.n, trajectory=True)
    u.add_TopologyAttr('type', list(t.species))
    pos = np.einsum('fij,fjk->fik', t.all_frac, t.all_cells).astype(np.float32)
    dims = np.array([triclinic_box(*c) for c in t.all_cells], dtype=np.float32)
    u.load_new(pos, format=MemoryReader, dimensions=dims)
    r = extras(t)
    if r is not None:  # the species of an atom is its type, whatever its name, element, mass, charge or residue
        other = [str(s) for s in r.permutation(list(t.species))]
        for attr, v in (('elements', other), ('names', [str(s) for s in r.permutation(other)]), ('masses', r.uniform(1, 200, t.n)),
                        ('charges', r.normal(size=t.n)), ('resnames', [other[0]]), ('resids', [5]), ('segids', [other[-1]])):
            if r.random() < .7:
                u.add_TopologyAttr(attr, v)
    return u


class Scratch:

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='kmon-')
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)


CASE_SCRATCH = None  # directory of the running case, removed by the case runner


def case_scratch():
    global CASE_SCRATCH
    CASE_SCRATCH = tempfile.mkdtemp(prefix='kmon-')
    return CASE_SCRATCH


def drop_case_scratch():
    global CASE_SCRATCH
    if CASE_SCRATCH:
        import shutil
        shutil.rmtree(CASE_SCRATCH, ignore_errors=True)
    CASE_SCRATCH = None


BACKENDS = ('ase', 'pymatgen', 'mda')
ROUTES = ('ase', 'pymatgen', 'Xdatcar', 'file', 'universe')


def present(t, backend, scratch=None, pbc=True, oxi=None):
    if backend == 'ase':
        return to_ase(t, pbc)
    if backend == 'pymatgen':
        return to_pymatgen(t, oxi)
    if backend in ('mda', 'universe'):
        return to_universe(t)
    path = os.path.join(scratch or CASE_SCRATCH or case_scratch(), f'XDATCAR_{np.random.default_rng().integers(1 << 62)}')
    write_xdatcar(t, path)
    if backend == 'file':
        return path
    from pymatgen.io.vasp import Xdatcar
    return Xdatcar(path)


def parser_kw(backend, time_step=1.0, step_skip=1, specie='Li', **kw):
    """Parser parameters; all times in ps here, converted to fs for the pymatgen routes."""
    fs = backend in ('pymatgen', 'Xdatcar', 'file')
    f = 1000.0 if fs else 1.0
    out = dict(specie=specie, time_step=time_step * f if fs else time_step, step_skip=step_skip, progress=kw.pop('progress', False))
    for k, v in kw.items():
        out[k] = v * f if k in ('min_dt', 'max_dt') and v is not None and fs else v
    return out


def parse(t, backend, pbc=True, oxi=None, data=None, **kw):
    from kinisi import parser
    cls = {'ase': parser.ASEParser, 'pymatgen': parser.PymatgenParser, 'mda': parser.MDAnalysisParser}[backend]
    data = present(t, backend, pbc=pbc, oxi=oxi) if data is None else data
    kw = parser_kw(backend, **kw)
    if t.sub != 1:
        kw.setdefault('sub_sample_traj', t.sub)
    return cls(data, **kw)


def analyzer_class(name):
    from kinisi import analyze
    return {'D': analyze.DiffusionAnalyzer, 'J': analyze.JumpDiffusionAnalyzer, 'C': analyze.ConductivityAnalyzer}[name]


def analyze(name, route, data, parser_params, dtype=None, uncertainty=None, **kw):
    cls = analyzer_class(name)
    un = dict(progress=False)
    un.update(uncertainty or {})
    return getattr(cls, f'from_{route}')(data, parser_params, dtype=dtype, uncertainty_params=un, **kw)


VALUE = {'D': 'msd', 'J': 'mstd', 'C': 'mscd'}
COEF = {'D': 'D', 'J': 'D_J', 'C': 'sigma'}


def value(a, name):
    return np.asarray(getattr(a, VALUE[name]))


def std(a, name):
    return np.asarray(getattr(a, VALUE[name] + '_std'))


def coef(a, name):
    return getattr(a, COEF[name])


def fit(a, name, start_dt, T=300.0, **params):
    params.setdefault('progress', False)
    if name == 'D':
        a.diffusion(start_dt, params)
    elif name == 'J':
        a.jump_diffusion(start_dt, params)
    else:
        a.conductivity(start_dt, T, params)


def tol(t, backend):
    """Absolute error bound on a displacement: input precision times coordinate magnitude, accumulated over frames."""
    eps = 2e-7 if backend in ('mda', 'universe') else (1e-12 if backend in ('Xdatcar', 'file') else 1e-14)
    c = float(np.abs(t.all_cells).max())
    return 20 * eps * (t.scale + 3 * c) * np.sqrt(t.F) + 1e-10


def nuisance(r, F, time_step, sub=1, single=True):
    """Parser options that must not matter for what a displacement is: (options, time between analysed frames in ps, sampling)."""
    kw = dict(time_step=time_step)
    skip = 1
    if r.random() < .5:
        return kw, time_step * sub, 'multi-origin'
    if r.random() < .5:
        kw['time_step'] = time_step = float(r.choice([2e-4, 1e-3, .5, 2., 25.]))
    if r.random() < .5:
        kw['step_skip'] = skip = int(r.choice([2, 10, 500, 2000]))
    if r.random() < .5:
        kw['spacing'] = 'logarithmic'
    step = time_step * skip * sub
    lo = 1
    if r.random() < .3 and F > 4:
        lo = int(r.integers(2, F // 2 + 1))
        kw['min_dt'] = lo * step
    if r.random() < .3 and F > 4:
        kw['max_dt'] = int(r.integers(lo + 1, F + 1)) * step
    if r.random() < .3:
        kw['n_steps'] = int(r.choice([2, 7, 30, 250]))
    if r.random() < .2:
        kw['memory_limit'] = r.choice([2, 50.])
    if r.random() < .15:
        kw['progress'] = True
    samp = 'multi-origin'
    if single and r.random() < .25:
        kw['sampling'] = samp = 'single-origin'
    return kw, step, samp
