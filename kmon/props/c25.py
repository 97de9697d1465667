"""C25: users are warned exactly when an assumption of the analysis is not met."""
import re
import warnings

import numpy as np
from scipy.stats import normaltest

from .. import boots, gen
from ..core import case_seed, rng_for

ID = 'C25'
RULE = ("'cell' cases analyse or parse trajectories whose analysed frames have cells along x, y, z or not (one component, one frame, tiny or negative tilts, rotated or relabelled cells, tilts in skipped frames only) and compare the warnings "
        "issued with what the cells are; 'resample' cases compare the warnings with the normality test of the final resampled means of every interval; 'unit' cases expect the femtosecond note on the pymatgen routes only; every case is non-trivial")
REQUIRED = ['cell', 'resample', 'unit', 'D', 'J', 'C', 'ase', 'pymatgen', 'Xdatcar', 'file', 'universe', 'parser', 'analyzer', 'identical', 'consecutive', 'tilted', 'along-axes', 'one-component', 'one-frame', 'first-frame', 'last-frame', 'tiny', 'rotated',
            'skipped-only', 'npt', 'sub>1', 'molecules', 'indices', 'drift-list', 'warned-normality', 'silent-normality', 'normal-at-maximum', 'alpha', 'repeated', 'via-analyzer', 'negative', 'left-handed']
ASSUMPTIONS = ['cells are written exactly (off-diagonal elements are zero or at least 1e-6 of the cell); universes store angles in single precision, so their tilts are at least 0.01 degrees', 'the wording of warnings is recognised by: triclinic or orthorhombic; femtosecond; resamples']
TILT, UNIT, NORM = re.compile('triclinic|orthorhombic', re.I), re.compile('femtosecond', re.I), re.compile('resample|normal', re.I)
TILTS = ('component', 'frame', 'first', 'last', 'tiny', 'full', 'rotated', 'skipped', 'left')


def cases(tier, seed):
    out = []
    for i in range(700 if tier == 'quick' else 8000):
        r = rng_for(ID, seed, 'c', i)
        be = str(r.choice(gen.ROUTES))
        out.append(dict(k='cell', s=case_seed(ID, seed, 'c', i), be=be, via=['parser', 'analyzer'][int(i % 5 < 2)], ana='DJC'[i % 3], tilt=TILTS[(i // 2) % len(TILTS)] if i % 2 else 'none', base=str(r.choice(['cubic', 'ortho', 'aniso'])), n=int(r.choice([2, 4, 8])), F=int(r.choice([5, 9, 20])),
                        sub=int(r.choice([1, 1, 2, 3])), npt=float(r.choice([0, .02])), sel=str(r.choice(['species', 'species', 'indices', 'molecules'])), fw=str(r.choice(['default', 'list', 'none'])), dtype=str(r.choice(['', '', 'identical', 'consecutive'])), rep=bool(r.random() < .2)))
    for i in range(240 if tier == 'quick' else 3000):
        r = rng_for(ID, seed, 'r', i)
        out.append(dict(k='resample', s=case_seed(ID, seed, 'r', i), ana='DJC'[i % 3], via=bool(i % 4 == 0), nr=int(r.choice([20, 100, 300])), more=int(r.choice([0, 0, 50, 100, 400])), alpha=float(r.choice([1e-3, .05, .5, .999, 0.])), style=str(r.choice(boots.STYLES)), few=bool(r.random() < .4)))
    return out


def run(c, ctx):
    ctx.feat(c['k'], c['ana'])
    globals()['run_' + c['k']](c, ctx, rng_for('run', c['s']))


def cells_for(c, r, F):
    """(cells of the analysed frames, cells of the skipped frames)."""
    L = gen.make_cell(r, c['base'])
    cells = gen.cell_history(r, L, F, c['npt'], 'free') if c['npt'] else np.broadcast_to(L, (F, 3, 3)).copy()
    skipped = cells.copy()
    uni = c['be'] == 'universe'
    tilt = c['tilt']

    def lean(m, size=None, one=True):
        low = [(1, 0), (2, 0), (2, 1)]
        ok = low if uni else low + [(0, 1), (0, 2), (1, 2)]
        for i, j in [ok[int(r.integers(len(ok)))]] if one else ok:
            m[i, j] = float(r.choice([-1, 1])) * (r.uniform(.05, .25) if size is None else size) * m[j, j]
            if m[i, j] < 0:
                c['neg'] = True

    if tilt == 'component':
        one = np.zeros((3, 3)) + np.eye(3)
        lean(one)
        cells = one @ cells
        skipped = cells.copy()
    elif tilt in ('frame', 'first', 'last'):
        k = {'frame': int(r.integers(F)), 'first': 0, 'last': F - 1}[tilt]
        lean(cells[k])
    elif tilt == 'tiny':
        size = float(r.choice([5e-4, 3e-3])) if uni else float(r.choice([1e-6, 1e-5, 1e-3]))
        one = np.eye(3)
        lean(one, size)
        cells = one @ cells
    elif tilt == 'full':
        one = np.eye(3)
        lean(one, None, False)
        if uni:
            one = np.tril(one)
        cells = one @ cells
    elif tilt == 'rotated':
        if uni:
            one = np.array([[1, 0, 0], [.5, np.sqrt(.75), 0], [0, 0, 1.]])
            cells = cells[:1] * 0 + one @ (np.eye(3) * 8.) + 0 * cells
        else:
            q = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0.]]) if r.random() < .4 else np.linalg.qr(r.normal(size=(3, 3)))[0]
            cells = cells @ q
    elif tilt == 'skipped':
        for k in range(F):
            lean(skipped[k])
    elif tilt == 'left' and not uni:
        cells = cells * np.where(np.arange(3) == int(r.integers(3)), -1., 1.)[:, None]
    return cells, skipped


def caught(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = f()
    return out, [(x.category, str(x.message)) for x in w]


def run_cell(c, ctx, r):
    be, F, sub, n = c['be'], c['F'], c['sub'], c['n']
    if c['tilt'] == 'skipped' and sub == 1:
        sub = 2
    via = c['via'] if be in ('ase', 'pymatgen', 'universe') else 'analyzer'
    dtype = c['dtype'] if via == 'analyzer' else ''
    if dtype == 'consecutive' and be not in ('ase', 'pymatgen', 'Xdatcar', 'file'):
        dtype = ''
    R = 2 if dtype == 'identical' else 1
    sp = ['Li'] * n + ['O'] * n
    data, tilted = [], False
    bad_rep = int(r.integers(R))
    for k in range(R):
        cc = dict(c) if k == bad_rep else dict(c, tilt='none')
        cells, skipped = cells_for(cc, r, F)
        c['neg'] = c.get('neg') or cc.get('neg')
        f = r.random((2 * n, 3)) + np.cumsum(r.uniform(-.05, .05, (F, 2 * n, 3)), axis=0)
        if c['sel'] == 'molecules' and n > 1:
            f[:, 1:n:2] = f[:, 0:n - 1:2] + .05
        f = f - np.floor(f)
        total = (F - 1) * sub + 1 + int(r.integers(0, sub))
        at = np.minimum(np.arange(total) // sub, F - 1)
        on = np.arange(total) % sub == 0
        allf, allc = f[at].copy(), np.where(on[:, None, None], cells[at], skipped[at])
        allc = np.round(allc, 12)
        ana = np.round(cells, 12)
        tilted = tilted or bool(np.any(ana[:, ~np.eye(3, dtype=bool)] != 0))
        data.append(gen.Traj(sp, np.einsum('fij,fjk->fik', f, cells), ana, allf, allc, sub))
    kw = {}
    if c['sel'] == 'indices':
        kw.update(specie=None, specie_indices=[i + 1 for i in range(n)])
        ctx.feat('indices')
    elif c['sel'] == 'molecules' and n > 1:
        kw.update(specie=None, specie_indices=[[i + 1, i + 2] for i in range(0, n - 1, 2)])
        ctx.feat('molecules')
    if c['fw'] == 'list':
        kw['framework_indices'] = [n, n + 1]
        ctx.feat('drift-list')
    elif c['fw'] == 'none':
        kw['framework_indices'] = []
    kw = gen.parser_kw(be, time_step=.1, **kw)
    if sub > 1:
        kw['sub_sample_traj'] = sub
        ctx.feat('sub>1')
    shown = [gen.present(t, be) for t in data]
    if via == 'parser':
        from kinisi import parser
        cls = {'ase': parser.ASEParser, 'pymatgen': parser.PymatgenParser, 'universe': parser.MDAnalysisParser}[be]
        go = lambda: cls(shown[0], **kw)
    else:
        what, dt = shown[0], None
        if dtype == 'identical':
            what, dt = shown, 'identical'
        elif dtype == 'consecutive':
            cut = int(r.integers(1, data[0].all_frac.shape[0]))
            d = data[0]
            what = [gen.present(gen.Traj(d.species, d.x, d.cells, d.all_frac[a:b], d.all_cells[a:b], 1), be) for a, b in ((0, cut), (cut, None))]
            dt = 'consecutive'
        un = dict(bootstrap=False)
        go = lambda: gen.analyze(c['ana'], be, what, kw, dtype=dt, uncertainty=un)
        if dt:
            ctx.feat(dt)
    times = 3 if c['rep'] else 1
    for i in range(times):
        _, w = caught(go)
        got = any(TILT.search(m) and issubclass(k, UserWarning) for k, m in w)
        ctx.ok(got == tilted, f"{'no ' if tilted else ''}warning about the shape of the cell for cells that are {'not ' if tilted else ''}along x, y, z ({be}, {via}, {c['tilt']}, call {i + 1})", messages=[m[:60] for _, m in w])
        fs = any(UNIT.search(m) and issubclass(k, UserWarning) for k, m in w)
        ctx.ok(fs == (be in ('pymatgen', 'Xdatcar', 'file')), f"{'a' if fs else 'no'} warning about the unit of time_step on the {be} route", messages=[m[:60] for _, m in w])
        ctx.count('warnings_seen', len(w))
    if times > 1:
        ctx.feat('repeated')
    ctx.feat('unit', be, via, 'tilted' if tilted else 'along-axes')
    name = {'component': 'one-component', 'frame': 'one-frame', 'first': 'first-frame', 'last': 'last-frame', 'tiny': 'tiny', 'rotated': 'rotated', 'skipped': 'skipped-only'}.get(c['tilt'])
    if name:
        ctx.feat(name)
    if c['tilt'] == 'left':
        ctx.feat('left-handed')
    if c.get('neg'):
        ctx.feat('negative')
    if c['npt']:
        ctx.feat('npt')


def run_resample(c, ctx, r):
    kind = c['ana']
    kw = dict(bootstrap=True, n_resamples=c['nr'], max_resamples=c['nr'] + c['more'], alpha=c['alpha'], random_state=np.random.RandomState(int(r.integers(10**6))))
    if c['via']:
        be = str(r.choice(gen.ROUTES))
        t = gen.walk(r, 4, 24, 'ortho', .2, 'wrapped', ['Li'] * 4)
        data, p = gen.present(t, be), gen.parser_kw(be, time_step=.1)
        a, w = caught(lambda: gen.analyze(kind, be, data, p, uncertainty=kw))
        d = a.to_dict()['diff']
        ctx.feat('via-analyzer', be)
    else:
        ni = int(r.integers(2, 7)) * (1 if kind == 'D' else 2)
        disp = boots.disps(r, int(r.integers(1, 5)), ni, c['style'], 30, 3)
        n_o = np.array([max(2., (5. if c['few'] else 200.) / (i + 1)) for i in range(ni)]) * (1 if kind == 'D' else disp[0].shape[0])
        b, w = caught(lambda: boots.make(kind, .1 * np.arange(1, ni + 1), disp, n_o, 1.0, **kw))
        d = b.to_dict()
    said = sum(1 for k, m in w if NORM.search(m) and issubclass(k, UserWarning) and 'invalid value' not in m and 'normaltest' not in m)
    expect = 0
    amb = 0
    for x in d['distributions']:
        s = np.asarray(x['samples'] if isinstance(x, dict) else x.samples if hasattr(x, 'samples') else x)
        with np.errstate(all='ignore'):
            p = normaltest(s)[1]
        if p < c['alpha']:
            ctx.ok(s.size >= kw['max_resamples'], 'resampling stopped before the maximum although the means are not normal', size=s.size, p=p)
            expect += 1
        elif s.size >= kw['max_resamples']:
            ctx.feat('normal-at-maximum')
        if abs(p - c['alpha']) < 1e-9 * max(p, c['alpha']):
            amb += 1
    ctx.ok(abs(said - expect) <= amb, f"{said} warnings about resampled distributions that are not normal, {expect} distributions of {len(d['distributions'])} are not", alpha=c['alpha'], messages=[m[:60] for _, m in w][:3])
    ctx.feat('warned-normality' if expect else 'silent-normality')
    if c['alpha'] != 1e-3:
        ctx.feat('alpha')
    ctx.count('distributions_judged', len(d['distributions']))
