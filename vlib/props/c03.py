"""C03: the pairing returned is optimal and all metrics belong to it."""
import numpy as np
from scipy.optimize import linear_sum_assignment

from ..calls import expect, judge, out_digest, rand_call, run
from ..compare import (check_perm_optimal, check_perm_valid, check_shape, close_db, digest, gather)
from ..core import Violation
from ..designed import exact_signals, from_coherence
from ..env import lib
from ..oracle import Expect
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "random mixtures with weak separation (many near competitors), batches of almost identical elements with different"
    " optima, coherence matrices designed through"
    " orthonormal references (greedy traps, ties, cyclic shifts, rectangular, up to 16 channels), exact"
    " integer signals with infinite scores; the recorded pairing is compared with an independent optimal"
    " assignment over the pairwise scores and every value with the score of its pair; non-trivial: at least"
    " two channels and the optimum differs from the identity or from the greedy choice; distinct by digest"
)
MUST = ["assignments_checked", "nongreedy", "rect_wide", "rect_tall", "infinite_entries", "twins"]
PAIRW = ["sdr", "si_sdr", "bss_eval_sources", "si_bss_eval_sources", "sdr_pit_loss", "si_sdr_pit_loss"]


def cases(tier, seed):
    rng = rng_of(seed, 3)
    n = {"quick": 1560, "thorough": 40000}[tier]
    for i in range(n):
        c = rand_cfg(rng, budget=8e8, max_c=10, min_c=2)
        c["leak"] = float(pick(rng, [-6, 0, 3, 6]))
        c["snr"] = float(pick(rng, [-10, 0, 5, 10]))
        c["kindcase"] = "mix"
        if i % 8 == 5:
            c["twin"] = float(pick(rng, [1e-5, 1e-4, 1e-3, 1e-2] if c["dtype"] == "f64" else [1e-3, 1e-2, 3e-2]))
            c["batch"] = pick(rng, [[2], [3], [2, 2], [5], [8]])
            c["dc"] = c["scale"] = 0.0
        yield rand_call(rng, c, fns=["bss_eval_sources", "sdr", "si_bss_eval_sources", "si_sdr", "sdr_pit_loss"])
    for i in range(n):
        C = pick(rng, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16])
        M = C if rng.random() < 0.5 else pick(rng, [1, 2, 3, 4, 5, 6, 8, 10, 12, 16])
        yield dict(kindcase="designed", seed=int(rng.integers(2**31)), n_ref=C, n_est=M, L=1,
                   nb=pick(rng, [1, 1, 2, 5, 17]), T=int(C + M + rng.integers(1, 60)),
                   family=pick(rng, ["random", "trap", "cyclic", "ties", "graded", "sparse", "lowrank"]),
                   backend=pick(rng, ["np", "pt"]), dtype=pick(rng, ["f64", "f32"]),
                   fn=pick(rng, PAIRW), via=pick(rng, ["si", "L1"]))
    # many channels, pairings with structure
    k = 0
    for C in (2, 3, 5, 9, 10, 11, 12, 13, 17, 20, 24):
        for how in ("identity", "reverse", "swap", "shift"):
            for be in ("np", "pt"):
                k += 1
                yield dict(kindcase="designed", seed=seed * 97 + k, n_ref=C, n_est=C + [0, 0, 2, 0, -1][k % 5], L=1, nb=1 + k % 2,
                           T=2 * C + 10, family=how, backend=be, dtype=("f64", "f32")[k % 3 == 0], fn=PAIRW[k % 4], via="si")
    for i in range(n // 2):
        C = pick(rng, [1, 2, 3, 4, 5, 6, 8])
        M = C if rng.random() < 0.5 else pick(rng, [1, 2, 3, 4, 5, 6, 8])
        yield dict(kindcase="exact", seed=int(rng.integers(2**31)), n_ref=C, n_est=M, L=1,
                   nb=pick(rng, [1, 2, 3]), family=pick(rng, ["perfect", "orthogonal", "allperfect"]),
                   backend=pick(rng, ["np", "pt"]), dtype=pick(rng, ["f64", "f32"]),
                   fn=pick(rng, ["sdr", "si_sdr", "sdr_pit_loss"]))


def matrix(rng, family, C, M):
    """coherences, columns summing to less than one"""
    if family == "random":
        w = rng.dirichlet(np.ones(C + 1), size=M).T[:C]
    elif family == "trap":  # the largest entry is a bad choice
        w = np.full((C, M), 0.01)
        for m in range(M):
            k = m % C
            w[k, m] = 0.30
            w[(k + 1) % C, m] = 0.29
            w[(k + 2) % C, m] = 0.29 if m == 0 else 0.02
        w[0, 0] = 0.31
        w *= rng.uniform(0.98, 1.02, w.shape)
    elif family == "cyclic":
        s = rng.integers(1, max(2, C))
        w = rng.uniform(0.0, 0.02, (C, M))
        for m in range(M):
            w[(m + s) % C, m] += 0.3
    elif family in ("identity", "reverse", "swap", "shift"):
        w = rng.uniform(0.0, 0.3 / C, (C, M))
        q = {"identity": lambda m: m, "reverse": lambda m: C - 1 - m, "swap": lambda m: m ^ 1, "shift": lambda m: m + 1}[family]
        for m in range(M):
            w[q(m) % C, m] += 0.5
        return w
    elif family == "ties":
        w = rng.choice([0.02, 0.05, 0.05, 0.1], size=(C, M))
    elif family == "graded":  # products (i+1)(j+1): the worst case of the Hungarian method
        a = np.outer(np.arange(1, C + 1), np.arange(1, M + 1)).astype(float)
        w = 10 ** (-(a / a.max()) * rng.uniform(1, 3)) * (0.9 / C)
    elif family == "sparse":
        w = np.full((C, M), 1e-4)
        w[rng.integers(0, C, M), np.arange(M)] = rng.uniform(0.1, 0.9, M)
    else:
        w = np.outer(rng.uniform(0.1, 1, C), rng.uniform(0.1, 1, M))
        w = w / w.sum(0) * rng.uniform(0.2, 0.95, M)
    s = w.sum(0)
    w = w / np.maximum(s / 0.98, 1.0)
    p = rng.permutation(M)
    return w[:, p]


def note(ctx, m, perm, C, M):
    """m: quantity maximised, (nb, C, M)"""
    ctx.count("rect_wide" if M > C else "rect_tall" if C > M else "square", m.shape[0])
    sig = False
    for b in range(m.shape[0]):
        x = np.nan_to_num(m[b], posinf=1e7, neginf=-1e7)
        r, c = linear_sum_assignment(x, maximize=True)
        g = x if C <= M else x.T
        greedy = np.argmax(g, -1)
        if min(C, M) > 1 and (len(set(greedy.tolist())) < len(greedy)):
            ctx.count("nongreedy")
            sig = True
        if not np.array_equal(c if C <= M else np.argsort(c), np.arange(min(C, M))):
            sig = True
    return sig


def check(spec, ctx):
    if spec["kindcase"] == "mix":
        ref, est = make_cast(spec)
        out = run(spec, ref, est)
        exp = expect(spec, ref, est)
        judge(ctx, spec, out, exp)
        key = "sir" if "bss" in spec["fn"] else "sdr"
        lo, hi = exp.interval(key)
        if "bss" in spec["fn"] and out.perm is not None:
            check_perm_optimal(ctx, lo, hi, out.perm, spec["fn"])
        m = exp.value(key).reshape((-1, exp.C, exp.M))
        if spec.get("twin"):
            ctx.count("twins", m.shape[0])
        if note(ctx, m, out.perm, exp.C, exp.M):
            ctx.nontrivial(out_digest(out))
        return
    rng = rng_of(spec["seed"], 5)
    C, M, nb = spec["n_ref"], spec["n_est"], spec["nb"]
    dt = lib.np_dtype(spec["dtype"])
    u = lib.eps_of(spec["dtype"])
    fn, be = spec["fn"], spec["backend"]
    if spec["kindcase"] == "designed":
        cohs, refs, ests = [], [], []
        for _ in range(nb):
            w = matrix(rng, spec["family"], C, M)
            r, e = from_coherence(rng, w, spec["T"])
            cohs.append(w), refs.append(r), ests.append(e)
        w = np.stack(cohs)
        ref, est = np.stack(refs).astype(dt), np.stack(ests).astype(dt)
        if nb == 1:
            ref, est = ref[0], est[0]
        opts = {} if "si_" in fn else {"filter_length": 1}
        if fn in ("sdr", "si_sdr"):
            opts["return_perm"] = True
        out = lib.call(fn, be, ref, est, **opts)
        sd = 10 * np.log10(w / (1 - w))
        c_sar = w.sum(1, keepdims=True)
        si = 10 * np.log10(w / (c_sar - w))
        sa = np.broadcast_to(10 * np.log10(c_sar / (1 - c_sar)), w.shape)
        exp = Expect(ref, est, 1, u, sar="bss" in fn)
        spec2 = dict(spec, opts={})
        judge(ctx, spec2, out, exp)
        key = si if "bss" in fn else sd
        # optimality against the designed values themselves (tolerance: rounding)
        ilo, ihi = exp.interval("sir" if "bss" in fn else "sdr")
        wid = (ihi - ilo).reshape((nb, C, M)).max()
        tol = float(wid) + (1e-3 if spec["dtype"] == "f32" else 1e-9)
        got = (out.sir if "bss" in fn else out.sdr).reshape((nb, -1))
        for b in range(nb):
            r, c = linear_sum_assignment(key[b], maximize=True)
            best = key[b][r, c].sum()
            ctx.count("assignments_checked")
            if not abs(got[b].sum() - best) <= tol * (1 + 2 * len(r)):
                raise Violation(f"{fn}[{be}]: the pairing sums to {got[b].sum()} dB, the best one to {best} dB",
                                key="perm_suboptimal", matrix=key[b])
        if out.perm is not None:
            p = out.perm.reshape((nb, -1))
            for n_, v in (("sdr", sd), ("sir", si), ("sar", sa)):
                a = getattr(out, n_)
                if a is None:
                    continue
                d = np.abs(a.reshape((nb, -1)) - gather(v, p, C, M))
                ilo, ihi = exp.interval(n_)
                if np.any(d > (ihi - ilo).max() + 1e-9):
                    raise Violation(f"{fn}[{be}]: {n_} is not that of the returned pair (off by {d.max()} dB)", key="gather")
        if note(ctx, key, out.perm, C, M):
            ctx.nontrivial(out_digest(out))
        return
    # exact: infinite scores of a single sign
    refs, ests, mats = [], [], []
    for _ in range(nb):
        R, N = exact_signals(rng, C, M, None)
        t = np.zeros((C, M))
        noise = np.ones(M)
        # with several orthogonal references a perfect estimate is exactly
        # orthogonal to the others: both infinities, outside the domain
        if spec["family"] in ("perfect", "allperfect") and C == 1:
            t[:] = rng.integers(1, 4, t.shape)
            noise = (rng.random(M) < 0.5).astype(float) if spec["family"] == "perfect" else np.zeros(M)
        else:
            t = rng.integers(-3, 4, t.shape).astype(float)  # zeros: -inf
            for m in range(M):
                if not np.any(t[:, m]):
                    t[rng.integers(C), m] = 1
        refs.append(R)
        ests.append(t.T @ R + noise[:, None] * N)
        n2 = (t**2).sum(0) + noise**2
        with np.errstate(all="ignore"):
            mats.append(10 * np.log10(t**2 / (n2 - t**2)))
    ref, est = np.stack(refs).astype(dt), np.stack(ests).astype(dt)
    key = np.stack(mats)
    opts = {} if "si_" in fn else {"filter_length": 1}
    if fn in ("sdr", "si_sdr"):
        opts["return_perm"] = True
    out = lib.call(fn, be, ref, est, **opts)
    got = out.sdr.reshape((nb, -1))
    ninf = 0
    for b in range(nb):
        x = np.clip(key[b], -1e6, 1e6)
        inf = ~np.isfinite(key[b])
        ninf += inf.sum()
        r, c = linear_sum_assignment(x, maximize=True)
        best_inf = inf[r, c].sum()
        best = x[r, c][~inf[r, c]].sum()
        g = got[b]
        # perfect estimates may come out as a very large finite value
        gi = np.abs(g) > (60 if spec["dtype"] == "f32" else 140)
        ctx.count("assignments_checked")
        # a rounded zero (-343 dB) legitimately competes with an exact one (-inf)
        exact = np.all(np.isinf(g[gi]))
        ctx.count("exactly_infinite", int(np.isinf(g).sum()))
        if gi.sum() != best_inf or (
            exact and g[~gi].sum() < best - (1e-2 if spec["dtype"] == "f32" else 1e-6)
        ):
            raise Violation(f"{fn}[{be}]: values {g.tolist()} against the optimum with {best_inf} infinite"
                            f" entries and {best} dB for the others", key="perm_suboptimal", matrix=key[b])
    ctx.count("infinite_entries", ninf)
    if out.perm is not None:
        check_perm_valid(out.perm, (nb,), C, M)
        v = gather(key, out.perm.reshape((nb, -1)), C, M)
        a = out.sdr.reshape((nb, -1))
        big = 60 if spec["dtype"] == "f32" else 140
        ok = (np.abs(a - v) < 1e-2) | (np.isinf(v) & (np.sign(a) == np.sign(v)) & (np.abs(a) > big))
        if not np.all(ok):
            raise Violation(f"{fn}[{be}]: values {a.tolist()} are not those of the pairs {v.tolist()}", key="gather")
    if ninf and min(C, M) > 0:
        ctx.nontrivial(digest(ref, est))
