"""Snapshots of everything an analyzer reports, for comparisons between executions."""
import numpy as np

from . import gen


def snapshot(a, kind):
    """All public results; every entry is an array, a number or None."""
    s = {}
    for k in ('dt', 'volume', 'ngp_max'):
        s[k] = np.asarray(getattr(a, k))
    s['value'], s['std'] = gen.value(a, kind), gen.std(a, kind)
    for i, d in enumerate(a.dr):
        s[f'dr{i}'] = np.asarray(d.samples)
    co = gen.coef(a, kind)
    s['fitted'] = np.asarray(co is not None)
    if co is not None:
        s['coef'], s['chain'], s['distribution'] = np.asarray(co.samples), np.asarray(a.flatchain), np.asarray(a.distribution)
        s['has_intercept'] = np.asarray(a.intercept is not None)
        if a.intercept is not None:
            s['intercept'] = np.asarray(a.intercept.samples)
    flatten(a.to_dict(), 'dict', s)
    return s


def flatten(x, path, out):
    if isinstance(x, dict):
        for k in sorted(x):
            flatten(x[k], f'{path}/{k}', out)
    elif isinstance(x, (list, tuple)):
        out[f'{path}#len'] = np.asarray(len(x))
        for i, v in enumerate(x):
            flatten(v, f'{path}[{i}]', out)
    elif x is None:
        out[path] = None
    elif isinstance(x, (bytes, str)):
        out[path] = np.asarray(x.decode() if isinstance(x, bytes) else x)
    else:
        out[path] = np.asarray(x)
    return out


def compare(ctx, got, exp, what):
    ctx.ok(set(got) == set(exp), f'{what}: different results present', missing=sorted(set(exp) - set(got))[:5], extra=sorted(set(got) - set(exp))[:5])
    for k in exp:
        if exp[k] is None or got[k] is None:
            ctx.ok(exp[k] is None and got[k] is None, f'{what}: {k} is {got[k]}, expected {exp[k]}')
        else:
            ctx.same(got[k], exp[k], f'{what}: {k}')
    ctx.count('snapshots_compared')
