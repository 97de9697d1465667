"""C05: the requested atoms, each once, in order, with their own displacements."""
import numpy as np

from .. import gen, obs
from ..core import case_seed, rng_for

ID = 'C05'
RULE = ('each case draws a composition and a selection (species, list of species, index list, every k-th atom), gives every atom a '
        'unique motion and compares the observed displacements atom by atom with those of the atoms requested; also re-analyses the '
        'same system with its atoms reordered; non-trivial when the selection is a proper subset or a reordering')
REQUIRED = ['ase', 'pymatgen', 'mda', 'sel:species', 'sel:species-list', 'sel:indices', 'sel:indices-unordered', 'sel:sub_sample_atoms', 'similar-names', 'oxidation-states',
            'reordered', 'atoms>300', 'one-atom-selected', 'all-atoms-selected', 'indices-tuple', 'index-0', 'last-index', 'analyzer', 'two-valences', 'case-only', 'sub>1', 'with:sampling', 'with:spacing', 'with:min_dt', 'with:max_dt']
ASSUMPTIONS = ['sub_sample_atoms exists for MDAnalysis universes only']
POOLS = [['Li', 'O'], ['Li', 'O', 'S', 'P'], ['S', 'Se', 'Si', 'Sn', 'Li'], ['C', 'Cl', 'Ca', 'Co', 'Li', 'La'], ['H', 'He', 'Hf', 'O', 'Li']]


def cases(tier, seed):
    n_cases = 2800 if tier == 'quick' else 80000
    out = []
    for i in range(n_cases):
        r = rng_for(ID, seed, i)
        be = gen.BACKENDS[i % 3]
        sels = ['species', 'species-list', 'indices', 'indices-unordered'] + (['sub_sample_atoms'] * 2 if be == 'mda' else [])
        c = dict(k='sel', s=case_seed(ID, seed, i), backend=be, sel=str(r.choice(sels)), pool=int(r.integers(len(POOLS))),
                 n=int(r.choice([2, 4, 9, 25, 60])), F=int(r.choice([3, 6, 15])), fw=bool(r.random() < .5), ana=bool(r.random() < .3))
        if i % 50 == 0:
            c.update(n=int(r.choice([350, 900])), F=4)
        if i % 200 in (1, 2, 3):
            c.update(n=int(r.choice([1500, 2600])), F=3, w=20)
        if i % 100 == 7:
            c.update(n=4, F=int(r.choice([150, 600])), w=10)
        if be == 'mda':
            c['num'] = bool(r.random() < .4)  # numeric type names as in LAMMPS files: '1', '10', '11'
        if be == 'pymatgen':
            c['oxi'] = bool(r.random() < .25)
        out.append(c)
    return out


def run(c, ctx):
    r = rng_for('run', c['s'])
    be, n, F = c['backend'], c['n'], c['F']
    pool = POOLS[c['pool']]
    if c.get('num'):
        pool = ['1', '10', '11', '2', '21'] if r.random() < .5 else ['CA', 'Ca', 'ca', 'C', 'CAT']  # force fields: calcium and an alpha carbon
        if 'Ca' in pool:
            ctx.feat('case-only')
    sp = [str(s) for s in r.choice(pool, size=n)]
    kw = {}
    sub_atoms = 1
    present = sorted(set(sp))
    oxi = None
    if c.get('oxi'):
        oxi = {'Li': 'Li+', 'O': 'O2-', 'S': 'S2-', 'P': 'P5+', 'Se': 'Se2-', 'Si': 'Si4+', 'Sn': 'Sn4+', 'Cl': 'Cl-', 'Ca': 'Ca2+', 'Co': 'Co3+', 'La': 'La3+', 'H': 'H+', 'Hf': 'Hf4+', 'C': 'C4+'}
        oxi = {k: v for k, v in oxi.items() if k in pool}
        if r.random() < .5:  # one element in two oxidation states, and one undecorated
            el = str(r.choice([k for k in oxi]))
            oxi[el + '#'] = {'+': el + '3+', '-': el + '-'}[oxi[el][-1]] if oxi[el] != el + '-' and oxi[el] != el + '3+' else el + '+'
            sp = [s + '#' if s == el and r.random() < .5 else s for s in sp]
            oxi2 = str(r.choice([k for k in oxi if '#' not in k]))
            if oxi2 != el and r.random() < .5:
                oxi[oxi2 + '~'] = oxi2
                sp = [s + '~' if s == oxi2 and r.random() < .5 else s for s in sp]
            present = sorted(set(sp))
            if el + '#' in present and el in present:
                ctx.feat('two-valences')

    def nm(s):
        return oxi.get(s, s) if oxi else s

    if c['sel'] in ('species', 'sub_sample_atoms'):
        if c['sel'] == 'sub_sample_atoms':
            sub_atoms = int(r.choice([2, 3, 5, 7]))
            kw['sub_sample_atoms'] = sub_atoms
        avail = sorted(set(sp[::sub_atoms]))
        want = str(r.choice(avail))
        ids = [i for i in range(0, n, sub_atoms) if sp[i] == want]
        kw['specie'] = nm(want)
    elif c['sel'] == 'species-list':
        want = [str(s) for s in r.choice(present, size=int(r.integers(1, len(present) + 1)), replace=False)]
        if r.random() < .3:
            want.append('Xe')
        ids = [i for i in range(n) if sp[i] in want]
        kw['specie'] = [nm(s) for s in want]
    else:
        k = int(r.integers(1, n + 1))
        ids = r.choice(n, size=k, replace=False).tolist()
        if r.random() < .3 and 0 not in ids:
            ids[0] = 0
        if c['sel'] == 'indices':
            ids = sorted(ids)
        kw.update(specie=None, specie_indices=tuple(ids) if r.random() < .3 else list(ids))
        if isinstance(kw['specie_indices'], tuple):
            ctx.feat('indices-tuple')
    atoms = list(range(0, n, sub_atoms))
    fw = [i for i in atoms if i not in set(ids)] if c['fw'] else []
    if not c['fw']:
        kw['framework_indices'] = []
    sub = int(r.choice([1, 1, 1, 2, 3]))
    opts, step, samp = gen.nuisance(r, F, .5, sub, single=len(ids) > 1)
    if sub > 1:
        opts['sub_sample_traj'] = sub
        ctx.feat('sub>1')
    for q in ('sampling', 'spacing', 'min_dt', 'max_dt'):
        if q in opts:
            ctx.feat('with:' + q)
    t = gen.walk(r, n, F, 'ortho', .3, 'random', sp, lower=True, sub=sub, tail=int(r.integers(0, sub)))
    truth = obs.relative(t.x, ids, fw)

    def analyse(t, kw):
        if c['ana']:
            route = {'mda': 'universe'}.get(be, be)
            a = gen.analyze('D', route, gen.present(t, be, oxi=oxi), gen.parser_kw(route, **opts, **kw))
            td = a.to_dict()
            return td['delta_t'], td['disp_3d'], a
        p = gen.parse(t, be, oxi=oxi, **opts, **kw)
        ctx.ok(list(np.asarray(p.indices)) == (ids if sub_atoms == 1 else [i // sub_atoms for i in ids]), 'reported indices are not the requested atoms',
               reported=list(p.indices), requested=ids)
        return p.delta_t, p.disp_3d, None

    if len(ids) == 1 and F < 4:
        return
    dts, disp, a = analyse(t, kw)
    tl = obs.taus(dts, step, ctx)
    obs.check_parser(ctx, disp, tl, truth, samp, 4 * gen.tol(t, be))
    ctx.count('atoms_selected', len(ids))
    # the same system stored in another order
    if sub_atoms == 1 and n > 1:
        perm = r.permutation(n)
        inv = np.argsort(perm)
        t2 = gen.Traj([sp[q] for q in perm], t.x[:, perm], t.cells, t.all_frac[:, perm], t.all_cells, sub)
        kw2 = dict(kw)
        if kw.get('specie_indices') is not None:
            kw2['specie_indices'] = [int(inv[q]) for q in kw['specie_indices']]
        if c['ana']:
            route = {'mda': 'universe'}.get(be, be)
            b = gen.analyze('D', route, gen.present(t2, be, oxi=oxi), gen.parser_kw(route, **opts, **kw2))
            ctx.close(b.msd, a.msd, 'msd after reordering the atoms', rtol=1e-4 if be == 'mda' else 1e-8, atol=1e-6)
            ctx.close(b.msd_std, a.msd_std, 'msd_std after reordering the atoms', rtol=1e-4 if be == 'mda' else 1e-8, atol=1e-6)
            ctx.feat('analyzer')
        else:
            p2 = gen.parse(t2, be, oxi=oxi, **opts, **kw2)
            ids2 = [int(q) for q in np.asarray(p2.indices)]
            exp2 = [int(inv[q]) for q in ids]
            ctx.ok(ids2 == (exp2 if kw.get('specie_indices') is not None else sorted(exp2)), 'selection after reordering the atoms', got=ids2, expected=exp2)
            obs.check_parser(ctx, p2.disp_3d, tl, obs.relative(t2.x, ids2, [int(inv[q]) for q in fw]), samp, 4 * gen.tol(t, be))
        ctx.feat('reordered')
    ctx.trivial = len(ids) == n and ids == sorted(ids) and sub_atoms == 1
    ctx.feat(be, 'sel:' + c['sel'])
    for cond, f in ((c['pool'] >= 2 or c.get('num'), 'similar-names'), (oxi, 'oxidation-states'), (n > 300, 'atoms>300'), (len(ids) == 1, 'one-atom-selected'),
                    (len(ids) == n, 'all-atoms-selected'), (0 in ids, 'index-0'), (n - 1 in ids, 'last-index')):
        if cond:
            ctx.feat(f)
