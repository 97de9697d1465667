"""Synthetic displacement sets and the uncertainty classes."""
import numpy as np

from . import ref


def make(kind, delta_t, disp, n_o, charge=1.0, **kw):
    from kinisi import diffusion
    kw.setdefault('progress', False)
    if kind == 'C':
        return diffusion.MSCDBootstrap(delta_t, disp, charge, n_o, **kw)
    return {'D': diffusion.MSDBootstrap, 'J': diffusion.MSTDBootstrap}[kind](delta_t, disp, n_o, **kw)


def disps(r, atoms, intervals, style='diffusive', max_windows=40, min_windows=1, jitter=True):
    """A list of (atoms, windows, 3) arrays with very different magnitudes per axis; windows shrink with the interval."""
    out = []
    axis = 10.0**r.uniform(-1, 1, 3)
    for k in range(intervals):
        w = max(min_windows, int(max_windows * (1 - k / intervals))) + (int(r.integers(0, 3)) if jitter else 0)
        s = np.sqrt(k + 1.0)
        if style == 'heavy':
            d = r.standard_t(2.5, size=(atoms, w, 3))
        elif style == 'two-state':
            d = r.normal(size=(atoms, w, 3)) * np.where(r.random((atoms, 1, 1)) < .3, 8.0, 0.1)
        elif style == 'correlated':
            d = r.normal(size=(1, w, 3)) + .3 * r.normal(size=(atoms, w, 3))
        elif style == 'integer':
            d = r.integers(-3, 4, size=(atoms, w, 3)).astype(float)
        elif style == 'tiny':
            d = r.normal(size=(atoms, w, 3)) * 1e-6
        elif style == 'offset':
            d = r.normal(size=(atoms, w, 3)) + 50.0
        else:
            d = r.normal(size=(atoms, w, 3))
        out.append(d * s * axis)
    return out


STYLES = ['diffusive', 'heavy', 'two-state', 'correlated', 'integer', 'tiny', 'offset']
DIMS = ['x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz']


def expected(kind, disp, n_o, dim='xyz', charge=1.0, k=1):
    """(interval positions, mean, variance of the mean, n_o) expected from the documentation."""
    idx = list(range(0, len(disp), k))
    if kind != 'D':
        idx = idx[:len(idx) // 2]
    keep, m, v = [], [], []
    for i in idx:
        o = ref.observed(disp[i], kind, dim, charge)
        if o.size <= 1:
            continue
        ni = n_o[i] if kind == 'D' else n_o[i] / disp[i].shape[0]
        keep.append(i)
        m.append(o.mean())
        v.append(np.var(o, ddof=1) / ni)
    return keep, np.array(m), np.array(v)
