"""Oracles over recorded calls."""
import hashlib

import numpy as np
from scipy.optimize import linear_sum_assignment

from .core import Violation
from .oracle import coh_of_db, gather

BIG = 1e7


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a))
        h.update(str((a.shape, a.dtype.str)).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:16]


def pick_pairs(mat, mode, perm, C, M):
    if mode == "pair":
        return mat
    if mode == "diag":
        return np.diagonal(mat, axis1=-2, axis2=-1)
    return gather(mat, perm, C, M)


def check_shape(got, shape, label):
    if tuple(got.shape) != tuple(shape):
        raise Violation(f"{label}: output shape {tuple(got.shape)} instead of {tuple(shape)}", key="shape")


def out_shape(mode, bshape, C, M):
    if mode == "pair":
        return tuple(bshape) + (C, M)
    return tuple(bshape) + (min(C, M),)


def check_values(ctx, exp, which, got, mode, perm=None, label="", scale=1.0):
    """every value lies in the interval the definition allows"""
    check_shape(got, out_shape(mode, exp.bshape, exp.C, exp.M), f"{label} {which}")
    lo, hi = exp.interval(which, scale)
    lo, hi = (pick_pairs(v, mode, perm, exp.C, exp.M) for v in (lo, hi))
    bad = ~((got >= lo) & (got <= hi))
    width = np.where(np.isfinite(hi - lo), hi - lo, np.inf)
    ctx.count("values_checked", got.size)
    ctx.count("values_tight_0.1dB", int(np.sum(width < 0.1)))
    if np.any(bad):
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Violation(
            f"{label}: {which} = {got[i]} outside [{lo[i]}, {hi[i]}] at {i}"
            f" ({int(bad.sum())} of {got.size} values)",
            key="value", which=which, index=i, got=float(got[i]), lo=float(lo[i]), hi=float(hi[i]),
            expected=float(pick_pairs(exp.value(which), mode, perm, exp.C, exp.M)[i]), cond=exp.cond,
        )
    return float(np.mean(width < 0.1))


def check_perm_valid(perm, bshape, C, M, label=""):
    check_shape(perm, tuple(bshape) + (min(C, M),), f"{label} perm")
    if not np.issubdtype(perm.dtype, np.integer):
        raise Violation(f"{label}: the permutation has dtype {perm.dtype}", key="perm")
    n = max(C, M)
    if np.any(perm < 0) or np.any(perm >= n):
        raise Violation(f"{label}: permutation index out of range: {perm.tolist()}", key="perm")
    s = np.sort(perm, axis=-1)
    if s.shape[-1] > 1 and np.any(np.diff(s, axis=-1) == 0):
        raise Violation(f"{label}: a channel is used twice: {perm.tolist()}", key="perm")


def fin(x):
    return np.clip(np.nan_to_num(x, nan=0.0, posinf=BIG, neginf=-BIG), -BIG, BIG)


def check_perm_optimal(ctx, lo, hi, perm, label="", slack=1e-9):
    """lo, hi: (..., C, M) bounds of the quantity to maximise; the chosen
    assignment must be able to be the best one"""
    C, M = lo.shape[-2:]
    ch = gather(hi, perm, C, M)
    L = lo.reshape((-1, C, M))
    ch = ch.reshape((L.shape[0], -1))
    for b in range(L.shape[0]):
        m = fin(L[b])
        r, c = linear_sum_assignment(m, maximize=True)
        best = m[r, c].sum()
        mine = fin(ch[b]).sum()
        ctx.count("assignments_checked")
        # is it decided (another choice would be distinguishable)?
        if best > mine + slack * (1 + abs(best)):
            raise Violation(
                f"{label}: the pairing sums to at most {mine}, another one to at least {best}",
                key="perm_suboptimal", perm=perm.reshape((L.shape[0], -1))[b].tolist(),
                best=[r.tolist(), c.tolist()],
            )


def close_db(a, b, tol_c, u, label, which, rel=64.0):
    """a, b: the same metric from two executions; their square cosines may
    differ by tol_c (rounding) only"""
    ca, da = coh_of_db(a)
    cb, db_ = coh_of_db(b)
    # same coherence, in whichever end is represented better
    diff = np.minimum(np.abs(ca - cb), np.abs(da - db_))
    fa = np.where(np.isfinite(a), np.abs(a), 0)
    same = (a == b) | (np.abs(a - b) <= rel * u * (1 + fa)) | (diff <= tol_c)
    if not np.all(same):
        i = tuple(int(v[0]) for v in np.nonzero(~same))
        raise Violation(
            f"{label}: {which} {a[i]} against {b[i]} at {i}, square cosines differ by {diff[i]}"
            f" (allowed {np.broadcast_to(tol_c, diff.shape)[i]})",
            key="differs", which=which, a=float(a[i]), b=float(b[i]), index=i,
        )
