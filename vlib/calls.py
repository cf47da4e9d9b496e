"""Random calls of the public API, and how to judge what they return."""
import numpy as np

from .compare import (check_perm_optimal, check_perm_valid, check_shape, check_values,
                      close_db, digest, gather, out_shape)
from .core import Violation
from .env import lib
from .oracle import Expect

FNS = ["bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss",
       "si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss"]
TOP = [f for f in FNS if not f.startswith("pairwise")]


def rand_call(rng, c, fns=None, cg=0.0, clamp=0.25, zm=0.3, load=0.3, fixed=None):
    """fills c['fn'], c['opts'], c['level']; c comes from rand_cfg"""
    fns = fns or FNS
    w = np.array([{"bss_eval_sources": 4, "sdr": 2, "sdr_loss": 2}.get(f, 1) for f in fns], float)
    fn = fns[int(rng.choice(len(fns), p=w / w.sum()))]
    o = {}
    si = "si_" in fn
    if si:
        c["L"] = 1
    if rng.random() < zm:
        o["zero_mean"] = True
    if rng.random() < clamp:
        o["clamp_db"] = float([5, 10, 20, 30, 60, 100][int(rng.integers(6))])
    if rng.random() < load and (not si or fn == "si_bss_eval_sources"):
        o["load_diag"] = float([1e-6, 1e-4, 1e-2, 0.3][int(rng.integers(4))])
    if not si and c["L"] > 1 and rng.random() < cg:
        o["use_cg_iter"] = int([3, 5, 10, 20, 30][int(rng.integers(5))])
    sq = c["n_ref"] == c["n_est"]
    if fn in ("bss_eval_sources", "si_bss_eval_sources") and sq and rng.random() < 0.4:
        o["compute_permutation"] = False
    if fn in ("sdr", "si_sdr"):
        o["return_perm"] = bool(rng.random() < 0.8)
        if rng.random() < 0.3:
            o["change_sign"] = True
    if fn in ("sdr_loss", "si_sdr_loss"):
        if not sq or rng.random() < 0.5:
            o["pairwise"] = True
    c["fn"], c["opts"] = fn, o
    c["level"] = "sub" if rng.random() < 0.2 or fn.startswith("pairwise") else "top"
    return c


def mode_of(fn, opts):
    if "bss_eval" in fn:
        return "perm" if opts.get("compute_permutation", True) else "diag"
    if fn.startswith("pairwise"):
        return "pair"
    if fn in ("sdr_loss", "si_sdr_loss"):
        return "pair" if opts.get("pairwise", False) else "diag"
    return "perm"


def key_metric(fn):
    """what the permutation maximises"""
    return "sir" if "bss_eval" in fn else "sdr"


def run(spec, ref, est, backend=None, extra=None, level=None, fn=None):
    fn = fn or spec["fn"]
    o = dict(spec["opts"])
    if extra:
        o.update(extra)
    if "si_" not in fn:
        o["filter_length"] = spec["L"]
    return lib.call(fn, backend or spec["backend"], ref, est, level=level or spec.get("level", "top"), **o)


def expect(spec, ref, est, dtype=None, clamp=True):
    o = spec["opts"]
    return Expect(ref, est, spec["L"], lib.eps_of(dtype or spec["dtype"]), load=o.get("load_diag"),
                  zero_mean=o.get("zero_mean", False), clamp_db=o.get("clamp_db") if clamp else None,
                  sar="bss_eval" in spec["fn"])


def judge(ctx, spec, out, exp, label=None):
    """one recorded call against the definition; returns the fraction of tight values"""
    fn = spec["fn"]
    mode = mode_of(fn, spec["opts"])
    label = label or f"{fn}[{spec['backend']}]"
    ctx.count(mode + "_calls")
    perm = out.perm
    if mode == "perm":
        key = key_metric(fn)
        lo, hi = exp.interval(key)
        if perm is None:
            return judge_noperm(ctx, exp, out, lo, hi, label)
        check_perm_valid(perm, exp.bshape, exp.C, exp.M, label)
    t = []
    for which, got in out.metrics():
        t.append(check_values(ctx, exp, which, got, mode, perm, label))
    if mode == "perm":
        check_perm_optimal(ctx, lo, hi, perm, label)
    return float(np.mean(t))


def judge_noperm(ctx, exp, out, lo, hi, label):
    """the permutation is not returned: the values must be those of an optimal one"""
    from scipy.optimize import linear_sum_assignment

    got = out.sdr
    check_shape(got, out_shape("perm", exp.bshape, exp.C, exp.M), label)
    C, M = exp.C, exp.M
    L, H = lo.reshape((-1, C, M)), hi.reshape((-1, C, M))
    g = got.reshape((-1, min(C, M)))
    tight = []
    for b in range(L.shape[0]):
        l, h = (L[b], H[b]) if C <= M else (L[b].T, H[b].T)
        ok = (g[b][:, None] >= l) & (g[b][:, None] <= h)
        r, c = linear_sum_assignment(np.where(ok, 0.0, 1.0))
        ctx.count("values_checked", g[b].size)
        if not np.all(ok[r, c]):
            raise Violation(f"{label}: the values {g[b].tolist()} are those of no pairing", key="value",
                            lo=l, hi=h)
        m = np.clip(np.nan_to_num(l, posinf=1e7, neginf=-1e7), -1e7, 1e7)
        r, c = linear_sum_assignment(m, maximize=True)
        best, mine = m[r, c].sum(), np.clip(np.nan_to_num(g[b]), -1e7, 1e7).sum()
        ctx.count("assignments_checked")
        if best > mine + 1e-4 * (1 + abs(best)) * (1 if exp.u > 1e-10 else 1e-4):
            raise Violation(f"{label}: values sum to {mine}, another pairing to at least {best}", key="perm_suboptimal")
        w = h - l
        t = (np.where(np.isfinite(w), w, 99) < 0.1).mean()
        tight.append(t)
    ctx.count("values_tight_0.1dB", int(np.mean(tight) * got.size))
    return float(np.mean(tight))


def same(ctx, spec, A, B, exp, label, extra_tol=0.0, scale=2.0, map_b=None):
    """two executions which must agree up to rounding. exp: Expect on the inputs of A.
    extra_tol: additional tolerance on the square cosine (iterative solver)"""
    fn = spec["fn"]
    mode = mode_of(fn, spec["opts"])
    C, M = exp.C, exp.M
    worst = 0.0
    for (w, a), (w2, b) in zip(A.metrics(), B.metrics()):
        check_shape(b, a.shape, f"{label} {w}")
    pa, pb = A.perm, B.perm
    mask = None
    if mode == "perm":
        nb = min(C, M)
        if (pa is None) != (pb is None):
            raise Violation(f"{label}: permutation returned by one only", key="perm")
        if pa is not None:
            check_perm_valid(pa, exp.bshape, C, M, label)
            check_perm_valid(pb, exp.bshape, C, M, label)
            diff = np.any(pa != pb, axis=-1)
            if np.any(diff):
                # legitimate only if both are optimal within rounding
                if extra_tol:
                    # the iteration may be far from the definition, at the same place
                    # in both executions: the best sums are the same
                    same_sums(exp, key_metric(fn), A, B, extra_tol, scale, label)
                else:
                    lo, hi = wide(exp, key_metric(fn), extra_tol, scale)
                    check_perm_optimal(ctx, lo, hi, pa, label + " (first)")
                    check_perm_optimal(ctx, lo, hi, pb, label + " (second)")
                ctx.count("ties_between_permutations", int(diff.sum()))
                mask = ~diff
        else:
            # without the permutation compare the sums, then the sorted values if they agree
            ca, cb = np.sort(A.sdr, -1), np.sort(B.sdr, -1)
            tol = scale * np.max(exp.tau("sdr"), axis=(-2, -1))[..., None] + extra_tol
            s = (A.sdr.sum(-1), B.sdr.sum(-1))
            try:
                close_db(ca, cb, tol, exp.u, label, "sorted values")
            except Violation:
                if not np.allclose(s[0], s[1], rtol=1e-3, atol=1e-2):
                    raise
                ctx.count("ties_between_permutations")
            ctx.count("values_compared", A.sdr.size)
            return
    for (w, a), (_, b) in zip(A.metrics(), B.metrics()):
        t = exp.tau(w)
        if mode == "diag":
            t = np.diagonal(t, axis1=-2, axis2=-1)
        elif mode == "perm":
            t = gather(t, pa, C, M)
        if mask is not None:
            a, b, t = a[mask], b[mask], t[mask]
        close_db(a, b, scale * t + extra_tol * (1 if w != "sir" else 4), exp.u, label, w)
        ctx.count("values_compared", a.size)


def same_sums(exp, which, A, B, extra, scale, label):
    from .oracle import coh_of_db, db_interval

    t = scale * np.max(exp.tau(which), axis=(-2, -1))[..., None] + 4 * extra
    r = []
    for o in (A, B):
        c, _ = coh_of_db(getattr(o, which))
        lo, hi = db_interval(c - t, c + t, exp.u, exp.clamp_db)
        r.append((np.clip(lo, -1e3, 1e3).sum(-1), np.clip(hi, -1e3, 1e3).sum(-1)))
    bad = (r[0][0] > r[1][1] + 1e-9) | (r[1][0] > r[0][1] + 1e-9)
    if np.any(bad):
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Violation(f"{label}: pairings of different sums, {getattr(A, which)[i].tolist()} against {getattr(B, which)[i].tolist()}",
                        key="perm_suboptimal")


def wide(exp, which, extra, scale):
    from .oracle import db_interval

    lo, hi = exp.bounds(which, scale)
    return db_interval(lo - 2 * extra, hi + 2 * extra, exp.u, exp.clamp_db)


def out_digest(out):
    return digest(*[v for _, v in out.metrics()])


def cg_tol(spec, exp):
    """two runs of the same iteration on inputs equal up to rounding: the
    iteration amplifies rounding, the more so the worse the conditioning
    (measured, see DESIGN.md)"""
    if "use_cg_iter" not in spec["opts"]:
        return 0.0
    f32 = spec["dtype"] == "f32"
    if exp.cond <= 30:
        return 2e-4 if f32 else 1e-8
    if exp.cond <= 100:
        return 5e-3 if f32 else 1e-3
    return 5e-2 if f32 else 5e-3
