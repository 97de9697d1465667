"""Shared online checkers of displacement observations against true motion."""
import numpy as np

from . import ref

FIRST = 'first-frame-window'
MSG = ('trajectory back ends prepend a copy of the first frame, so the first observation of every interval of tau frames '
       'spans tau-1 frames')


def relative(x, mobile, framework):
    """True motion of the mobile atoms (F, m, 3) relative to the mean framework position."""
    r = x[:, mobile]
    if len(framework):
        r = r - np.mean(x[:, framework], axis=1, keepdims=True)
    return r


def taus(delta_t, step, ctx):
    k = np.asarray(delta_t, float) / step
    r = np.round(k)
    ctx.ok(np.all(np.abs(k - r) < 1e-6 * np.maximum(1, k)), 'reported intervals are not multiples of the frame spacing',
           delta_t=delta_t, step=step)
    return r.astype(int)


def split_extra(ctx, disp, F, tau):
    """Observations of one interval from a trajectory of F frames -> (extra first observation or None, proper windows)."""
    m = disp.shape[1]
    if m == F - tau + 1:
        return disp[:, 0], disp[:, 1:]
    ctx.ok(m == F - tau, f'interval of {tau} frames over {F} frames gives {m} windows', shape=disp.shape)
    return None, disp


def match_windows(ctx, disp, exp, atol, what):
    """disp, exp: (atoms, windows, 3). Same windows for all atoms, each exactly once; the order is free."""
    ctx.ok(disp.shape == exp.shape, f'{what}: observations have shape {disp.shape}, expected {exp.shape}')
    ctx.count('windows', exp.shape[1])
    if np.all(np.abs(disp - exp) <= atol):
        ctx.counts['assertions'] += 1
        ctx.counts['values_compared'] += exp.size
        return
    # up to a common permutation of windows
    def order(a):
        return np.lexsort([np.round(a[0, :, k], 4) for k in range(3)])
    ctx.close(disp[:, order(disp)], exp[:, order(exp)], what, rtol=0, atol=atol)


def check_parser(ctx, p_disp, tau_list, truth, sampling, atol, extra_is_truth=False, strict_first=False):
    """truth: (F, m, 3) relative positions. Trajectory back ends (duplicate first frame) and their repaired form are both
    understood; strict_first additionally examines the first observation (reports the known finding)."""
    F, m, _ = truth.shape
    for tau, d in zip(tau_list, p_disp):
        d = np.asarray(d, float)
        ctx.ok(d.ndim == 3 and d.shape[0] == m and d.shape[2] == 3, f'displacements have shape {d.shape} for {m} atoms')
        if sampling == 'multi-origin':
            first, rest = split_extra(ctx, d, F, tau)
            match_windows(ctx, rest, ref.windows(truth, tau), atol, f'displacements over {tau} frames')
            if first is not None:
                ctx.close(first, truth[tau - 1] - truth[0], f'first observation over {tau} frames', rtol=0, atol=atol)
                if strict_first:
                    ctx.known_finding(FIRST, MSG)
        else:
            ctx.ok(d.shape[1] == 1, f'single-origin sampling gives {d.shape[1]} observations per atom')
            full = truth[tau] - truth[0] if tau < F else None
            if full is not None and np.all(np.abs(d[:, 0] - full) <= atol):
                ctx.counts['assertions'] += 1
                ctx.counts['values_compared'] += d.size
            else:
                ctx.close(d[:, 0], truth[tau - 1] - truth[0], f'single-origin displacement over {tau} frames', rtol=0, atol=atol)
                if strict_first:
                    ctx.known_finding(FIRST, MSG)
            ctx.count('windows', 1)
