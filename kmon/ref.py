"""Independent reference model of the documented behaviour (written from the documentation, not from the code)."""
import numpy as np

AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}


def grid(step_ps, length, n_steps=100, spacing='linear', min_dt=None, max_dt=None):
    """Interval multiples for a trajectory of `length` steps. Times in ps. Exact rational-ish arithmetic by rounding."""
    lo = 1 if min_dt is None else max(1, int(np.ceil(round(min_dt / step_ps, 6))))
    hi = length if max_dt is None else int(np.floor(round(max_dt / step_ps, 6)))
    lo_for_n = lo if not (min_dt is not None and round(min_dt / step_ps, 6) == 0) else 0
    n = min(n_steps, length - lo_for_n + 1)
    if spacing == 'linear':
        ideal = np.linspace(lo, hi, n)
    else:
        ideal = np.geomspace(lo, hi, n)
    return lo, hi, n, ideal


def windows(x, tau):
    """All windows of tau frames of positions x (F, n, 3) -> (n, F - tau, 3)."""
    return np.swapaxes(x[tau:] - x[:-tau] if tau < x.shape[0] else x[:0], 0, 1)


def axes(d, dimension):
    return d[..., AXES[dimension.lower()]]


def observed(disp, kind, dimension='xyz', charge=1.0):
    """The per-window observations whose mean is the reported quantity. disp: (atoms, windows, 3)."""
    d = axes(np.asarray(disp, float), dimension)
    if kind == 'D':
        return np.sum(d**2, axis=-1).ravel()
    if kind == 'C':
        q = np.broadcast_to(np.asarray(charge, float), (d.shape[0], ))
        d = d * q[:, None, None]
    return np.sum(np.sum(d, axis=0)**2, axis=-1)


def n_independent(kind, n_o, atoms):
    return n_o if kind == 'D' else n_o / atoms


def covariance(v, n):
    v, n = np.asarray(v, float), np.asarray(n, float)
    k = np.arange(v.size)
    i, j = np.minimum(k[:, None], k[None, :]), np.maximum(k[:, None], k[None, :])
    return v[i] * n[i] / n[j]


def recondition(c, cond_max):
    w, V = np.linalg.eigh(c)
    w = np.maximum(w, w.max() / cond_max)
    return (V * w) @ V.T


def gls(dt, y, cov, intercept=True):
    """Closed-form generalised least squares with the pseudo-inverse of cov: mean and covariance of (gradient[, intercept])."""
    from scipy.linalg import pinvh
    inv = pinvh(cov)
    A = np.stack([dt, np.ones_like(dt)], axis=1) if intercept else dt[:, None]
    prec = A.T @ inv @ A
    try:
        C = np.linalg.inv(prec)
    except np.linalg.LinAlgError:  # fewer independent directions than parameters: no unique solution
        C = np.full(prec.shape, np.nan)
    return C @ (A.T @ inv @ y), C
