"""Writes /verif/MANIFEST.json from the property modules that exist."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(V, 'kmon/props/c[0-9][0-9].py'))}
TECH = {
    'C01': 'runtime monitor: observed displacements vs generator ground truth',
    'C02': 'runtime monitor: reported interval grid vs independent reference grid',
    'C03': 'runtime monitor: exactly-once check of observed windows vs true motion',
    'C04': 'runtime monitor: ground truth relative motion + drift-invariance pairs',
    'C05': 'runtime monitor: per-atom ground truth and permutation pairs',
    'C06': 'runtime monitor: true centre-of-mass motion vs observed displacements',
    'C07': 'runtime monitor: differential observation of the five input routes',
    'C08': 'runtime monitor: reference evaluation of the estimators on recorded displacements',
    'C09': 'runtime monitor: reference uncertainties and observation counts',
    'C10': 'runtime monitor: closed-form covariance vs reported matrix',
    'C11': 'runtime monitor: sampled chains vs analytic GLS posterior; bit-identity pairs',
    'C12': 'runtime monitor: sample-by-sample unit conversion oracle; scaling pairs',
    'C13': 'runtime monitor: ensemble calibration oracle over simulated random walks',
    'C14': 'runtime monitor: bit-identity of repeated runs under perturbed RNG, history and process',
    'C15': 'runtime monitor: state digests across save/load/dict round trips and file-system effects',
    'C16': 'runtime monitor: predictive sample moments vs posterior; exact distribution oracle',
    'C17': 'runtime monitor: reference Arrhenius/VTF laws and parameter-recovery oracle',
    'C18': 'runtime monitor: byte accounting of stored arrays vs MemoryError threshold',
    'C19': 'runtime monitor: input digests before/after and isolated-vs-interleaved pairs',
    'C20': 'runtime monitor: exception oracle at the API boundary for invalid requests',
    'C21': 'runtime monitor: resample statistics vs observations; independent reblocking oracle',
    'C22': 'runtime monitor: displacement lengths and non-Gaussian parameter recomputed from recorded data',
    'C24': 'runtime monitor: metamorphic pairs of a trajectory and its transformed copy',
    'C25': 'runtime monitor: recorded warnings vs cells and normality of the data',
    'C26': 'runtime monitor: pairs of executions with an option left out and with its documented default',
    'C23': 'runtime monitor: cut-versus-whole and replica-pooling pairs',
}
NOTE = ('Seeded exploration of the real code from /repo with an independent oracle; holds on everything executed, says nothing about inputs outside the '
        'generated families. Trusted: numpy/scipy, ASE, pymatgen, MDAnalysis, emcee, the reference model in kmon/ref.py.')
m = {'version': 1, 'setup_cmd': './check --self-test', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}', 'evidence_file': f'evidence/{i}.json',
                            'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
m['notes'] = 'No hooks in /repo are needed: all observations are made at the public API and on returned objects.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
