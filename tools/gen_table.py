"""Writes section 6 of DESIGN.md (planted bugs and the checks that catch them) from the meta files; documentation only."""
import json
import os

MISSED = {
    'file-replica-count': 'replicas read from files compared with replicas in memory', 'join-dedupe': 'consecutive runs that begin with a repeated frame',
    'unwrap-blocks': 'trajectories of thousands of frames', 'const-volume': 'cell histories at constant volume', 'many-windows': 'thousands of windows',
    'framework-thousand': 'frameworks of more than a thousand atoms', 'first-samples': 'predictive rows attributed to the sampled line (ident)',
    'params-pop': 'digests of every parameter dictionary, progress left out', 'whole-draws': 'resample counts at the limits',
    'nearly-orthogonal': 'cells within a degree of orthogonal, monoclinic cells', 'both-subs': 'sub_sample_atoms together with sub_sample_traj',
    'still-windows': 'frames in which nothing moves', 'list-species-framework': 'several mobile species with every kind of framework',
    'valence-ignored': 'one element in two oxidation states', 'cond-cap': 'eigenvalues compared, cond_max of 1e12 and 1e14',
    'diagonal-many': 'predictive samples over more than 100 intervals', 'vtf-list': 'T0 bounds above the lowest temperature',
    'cache-ends': 'twin trajectories (equal ends, equal size, altered in place)', 'dr-cap': 'more than 500000 lengths at one interval',
}
MISSED.update(json.load(open(os.path.join(os.path.dirname(__file__), 'missed_more.json'))) if os.path.exists(os.path.join(os.path.dirname(__file__), 'missed_more.json')) else {})
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    rows.append((m['property'], b, m['needs'], MISSED.get(b, '')))
rows.sort()
out = ['## 6. Planted bugs and what catches them', '',
       f'{len(rows)} planted bugs, each verified in a scratch clone (stable tests pass, demonstration fails with the patch and passes without). Every one is caught by the quick check of',
       'its own property on the committed tree. The last column says what had to be added to the workload for the bugs that the check missed when they were first tried.',
       'Statistical oracles (C11, C12, C13, C14, C16, C17, C21) were run over several seeds at both tiers; their limits are 6-9 standard errors or more, so that an alarm by chance is not to be expected.', '',
       '| check | planted bug | what it needs to show | added because it was missed |', '|---|---|---|---|']
out += [f'| {p} | {b} | {n} | {x} |' for p, b, n, x in rows]
f = f'{root}/DESIGN.md'
s = open(f).read()
s = s[:s.index('## 6. Planted bugs')] + '\n'.join(out) + '\n'
open(f, 'w').write(s)
