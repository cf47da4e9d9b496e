"""C16: the iterative solver converges to the scores of the definition."""
import numpy as np

from ..calls import expect, mode_of, out_digest, rand_call, run, wide
from ..compare import check_perm_optimal, check_perm_valid, check_shape, gather, out_shape, pick_pairs
from ..core import Inconclusive, Violation
from ..env import lib
from ..oracle import coh_of_db
from ..signals import long_filters, make_cast, pick, rand_cfg, rng_of

RULE = (
    "random configurations with references of known conditioning; the number of iterations is taken from the"
    " classical bound for that conditioning (error below 1e-7) or is ten; square cosines of all scores must be"
    " within 2e-5 (SDR) and 2e-3 (SAR) of the exact solution, within 1e-3 and 1e-2 after ten iterations;"
    " over growing numbers of iterations the explained energy must not decrease;"
    " non-trivial: conditioning above 1.5 and filter longer than 2; distinct by output digest"
)
ASSUMPTIONS = ["reference Gram matrix with condition number at most 100 (bound) or 300 (ten iterations)"]
MUST = ["cg_values_checked", "bound_calls", "ten_calls", "sar_values", "iterations_compared"]
F = ["bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss"]


def cases(tier, seed):
    k = 0
    for L in (2, 3, 5, 8, 13, 16, 17, 31, 32, 64, 100, 128):
        for be in ("np", "pt"):
            for C, M in ((1, 1), (2, 2), (3, 2), (2, 4)):
                k += 1
                yield dict(seed=k + 7919 * seed, backend=be, dtype=("f64", "f32")[k % 2], L=L, n_ref=C, n_est=M,
                           batch=[[], [2], [1, 3]][k % 3], T=4 * L * C + 400, kind=["white", "laplace", "ints"][k % 3],
                           snr=12.0, leak=-8.0, taps=min(L, 6), fn="bss_eval_sources",
                           opts={} if k % 3 else {"load_diag": 0.01}, iters=["bound", "ten"][k % 2])
    for i, c in enumerate(long_filters(seed + 3, 1 if tier == "quick" else 6)):
        yield dict(c, fn=("bss_eval_sources", "sdr")[i % 2], opts={}, iters=("bound", "ten")[i % 2])
    rng = rng_of(seed, 16)
    for i in range({"quick": 1980, "thorough": 56000}[tier]):
        c = rand_cfg(rng, budget=6e8, max_c=6, kinds=["white", "uniform", "laplace", "ints", "burst", "padded", "ar"])
        if c["L"] == 1:
            c["L"] = int(rng.integers(2, 33))
        c["dc"] = 0.0
        c["T"] = max(c["T"], 4 * c["L"] * c["n_ref"])
        c["iters"] = ["bound", "ten"][i % 2]
        yield rand_call(rng, c, fns=F, clamp=0.15)
    for i in range({"quick": 400, "thorough": 8000}[tier]):
        c = rand_cfg(rng, budget=3e8, max_c=5, square=True, kinds=["white", "ar", "ar", "laplace", "burst", "ints"],
                     L=[2, 3, 4, 5, 8, 15, 16, 24, 31, 32, 33, 64, 65, 100], dtype="f64" if i % 4 else "f32")
        c["dc"] = 0.0
        c["T"] = max(c["T"], 4 * c["L"] * c["n_ref"])
        c["iters"] = "more"
        if c["kind"] == "ar":
            c["taps"] = c["L"]
        c = rand_call(rng, c, fns=["sdr_loss", "pairwise_sdr_loss", "bss_eval_sources"], clamp=0)
        if "bss" in c["fn"]:
            c["opts"]["compute_permutation"] = False
        yield c
    # the default filter length
    for be in ("np", "pt"):
        yield dict(seed=9 + seed, backend=be, dtype="f64", L=512, n_ref=2, n_est=2, batch=[], T=16000, kind="white",
                   snr=15.0, leak=-8.0, taps=40, fn="bss_eval_sources", opts={}, iters="ten")


def more(spec, ctx, ref, est, exp):
    """every iteration explains more of the estimate (the error of conjugate gradients
    decreases in the norm of the system, whatever the preconditioner)"""
    if exp.cond > 100:
        ctx.count("too_ill_conditioned")
        return
    tol = 1e-7 if spec["dtype"] == "f64" else 1e-4
    rng = rng_of(spec["seed"], 160)
    ns = sorted({1, 2, 3, 5, 10, 20, 21, *map(int, rng.integers(1, 70, 4))})
    prev = None
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}]"
    for n in ns:
        out = run(dict(spec, opts=dict(spec["opts"], use_cg_iter=n)), ref, est)
        now = {}
        for which, got in out.metrics():
            if which == "sir":
                continue
            now[which] = coh_of_db(got)[0]
            lo, hi = exp.bounds(which)
            hi = pick_pairs(hi, mode_of(spec["fn"], spec["opts"]), None, exp.C, exp.M)
            if np.any(now[which] > hi + tol + 64 * exp.u):
                raise Violation(f"{lab}: {which} after {n} iterations is above that of the best filters", key="above")
            if prev is not None:
                d = prev[1][which] - now[which]
                ctx.stat_max(f"decrease_{spec['dtype']}", float(np.max(d)))
                if not np.all(d <= tol):
                    raise Violation(f"{lab} (condition {exp.cond:.1f}): {which} falls by {np.max(d)} (square cosine) from"
                                    f" {prev[0]} to {n} iterations", key="worse")
        prev = n, now
    ctx.count("iterations_compared", len(ns))
    ctx.nontrivial(out_digest(out))


def check(spec, ctx):
    ref, est = make_cast(spec)
    exp = expect(spec, ref, est)
    if spec["iters"] == "more":
        return more(spec, ctx, ref, est, exp)
    ten = spec["iters"] == "ten"
    if exp.cond > (300 if ten else 100):
        ctx.count("too_ill_conditioned")
        return
    k = np.sqrt(exp.cond)
    rho = (k - 1) / (k + 1)
    need = 8 if rho < 1e-3 else int(np.clip(np.ceil(np.log(4e7) / (-2 * np.log(rho))), 8, 120))
    diag = mode_of(spec["fn"], spec["opts"]) == "diag"
    f32 = spec["dtype"] == "f32"
    n = 10 if ten else need
    if need <= n:
        # converged: what remains is the floor of the iteration (residual energy of 1e-6);
        # the error is quadratic when starting from zero, linear otherwise
        # and an energy r' A^-1 r of the residual, larger than its floor by up to the conditioning
        ts, ta = (8e-5 if f32 else 1.5e-5) + 1e-6 * max(0, exp.cond - 40), (2e-5 if diag else 8e-4)
    else:
        ts, ta = (3e-4, 3e-4) if diag else (1e-3, 1e-2)
    ctx.count("ten_calls" if ten else "bound_calls")
    s2 = dict(spec, opts=dict(spec["opts"], use_cg_iter=n))
    out = run(s2, ref, est)
    fn = spec["fn"]
    mode = mode_of(fn, spec["opts"])
    lab = f"{fn}[{spec['backend']},{spec['dtype']}] with {n} iterations (condition {exp.cond:.1f})"
    C, M = exp.C, exp.M

    def dev(which, got):
        """distance of every value from the allowed interval, in square cosine"""
        lo, hi = exp.bounds(which)
        if which == "sdr":
            lo, hi = lo - ts, hi + ts
        elif which == "sar":
            lo, hi = lo - ta, hi + ta
        else:
            r = (ts + exp.c_sir * ta) / np.maximum(exp.c_sar - ta - exp.t_sar, 1e-6)
            lo, hi = lo - r, hi + r
        return np.clip(lo, 0, 1), np.clip(hi, 0, 1)

    bs = exp.bshape
    perm = out.perm
    if mode == "perm" and perm is not None:
        check_perm_valid(perm, bs, C, M, lab)
    if mode == "perm" and perm is None:
        # compare with the best pairing
        from scipy.optimize import linear_sum_assignment

        lo, hi = dev("sdr", out.sdr)
        g = out.sdr.reshape((-1, min(C, M)))
        lo, hi = lo.reshape((-1, C, M)), hi.reshape((-1, C, M))
        cg, dg = coh_of_db(g)
        for b in range(g.shape[0]):
            l, h = (lo[b], hi[b]) if C <= M else (lo[b].T, hi[b].T)
            ok = (cg[b][:, None] >= clampc(l, exp)) & (cg[b][:, None] <= clampc(h, exp, True))
            r, c = linear_sum_assignment(~ok)
            if not np.all(ok[r, c]):
                raise Violation(f"{lab}: values {g[b].tolist()} are those of no pairing", key="value")
        ctx.count("cg_values_checked", g.size)
    else:
        for which, got in out.metrics():
            check_shape(got, out_shape(mode, bs, C, M), lab)
            lo, hi = dev(which, got)
            lo, hi = pick_pairs(lo, mode, perm, C, M), pick_pairs(hi, mode, perm, C, M)
            c, _ = coh_of_db(got)
            bad = ~((c >= clampc(lo, exp)) & (c <= clampc(hi, exp, True)))
            ctx.count("cg_values_checked", got.size)
            if which == "sar":
                ctx.count("sar_values", got.size)
            if spec["opts"].get("clamp_db") is None and which != "sir":
                v = pick_pairs(exp.c_sdr if which == "sdr" else exp.c_sar, mode, perm, C, M)
                ctx.stat_max(f"{which}_error_{spec['iters']}_{mode}_{spec['dtype']}", np.max(np.abs(c - np.clip(v, 0, 1))))
            if np.any(bad):
                i = tuple(int(v[0]) for v in np.nonzero(bad))
                raise Violation(f"{lab}: {which} = {got[i]} dB, square cosine {c[i]} outside [{lo[i]}, {hi[i]}]", key="value")
        if mode == "perm":
            key = "sir" if "bss" in fn else "sdr"
            lo, hi = dev(key, None)
            from ..oracle import db_interval

            lo, hi = db_interval(lo, hi, exp.u, exp.clamp_db)
            check_perm_optimal(ctx, lo, hi, perm, lab)
    if exp.cond > 1.5 and spec["L"] > 2:
        ctx.nontrivial(out_digest(out))


def clampc(c, exp, upper=False):
    from ..oracle import clamp_eps

    e = clamp_eps(exp.clamp_db)
    s = 64 * exp.u * (1 if upper else -1)
    return np.clip(c, e, 1 - e) + s
