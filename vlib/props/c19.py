"""C19: degenerate and non-finite inputs never produce plausible scores."""
import numpy as np

from ..calls import FNS, expect, mode_of, rand_call, same
from ..compare import check_perm_valid, check_shape, digest, out_shape, pick_pairs
from ..core import LibraryRaised, Violation
from ..env import lib
from ..lib_free import slice_out
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "faults injected into the inputs (NaN, +inf, -inf at one or many samples, channels and batch elements, silent"
    " estimates, silent references) and hard but finite non-silent inputs (perfect, duplicated, constant, impulsive,"
    " tiny, shorter than the filter); every outcome, score or exception, is recorded and judged; non-trivial: every"
    " faulted call; distinct by digest of fault position and outcome"
)
MUST = ["nonfinite_calls", "refused", "contaminated_scores", "clean_elements_compared", "finite_hard_calls",
        "silent_est_calls", "silent_ref_calls", "audible_checked"]


def cases(tier, seed):
    rng = rng_of(seed, 19)
    rels = ["nonfinite", "nonfinite", "hard", "silent_est", "silent_ref", "nonfinite", "hard"]
    for i in range({"quick": 4200, "thorough": 160000}[tier]):
        c = rand_cfg(rng, budget=1e8, max_c=6)
        c["rel"] = rels[i % len(rels)]
        c = rand_call(rng, c, cg=0.3)
        if c["rel"] == "nonfinite":
            c["fault"] = pick(rng, ["nan", "inf", "-inf", "both"])
            c["where"] = pick(rng, ["ref", "est", "est", "any"])
            c["extent"] = pick(rng, ["one", "one", "first", "last", "many", "channel"])
        if c["rel"] == "hard":
            c["hard"] = pick(rng, ["perfect", "duplicate_est", "constant", "impulse", "tiny", "huge", "short", "mixed",
                                   "swap_sign", "orthogonal", "onesample"])
            if c["hard"] in ("constant",):
                c["opts"].pop("zero_mean", None)
        yield c


REFUSALS = ("ValueError", "LinAlgError", "_LinAlgError")


def attempt(spec, ref, est):
    o = dict(spec["opts"])
    fn = spec["fn"]
    if "si_" not in fn:
        o["filter_length"] = spec["L"]
    try:
        return lib.call(fn, spec["backend"], ref, est, level=spec["level"], **o), None
    except LibraryRaised as e:
        return None, e


def check(spec, ctx):
    ref, est = make_cast(spec)
    rng = rng_of(spec["seed"], 190)
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}] L={spec['L']} {spec['opts']} {spec['batch']},{spec['n_ref']},{spec['n_est']},{spec['T']}"
    globals()["rel_" + spec["rel"]](spec, ctx, ref, est, rng, lab)


def refused(spec, ctx, err, lab):
    name = type(err.exc).__name__
    if name not in REFUSALS:
        raise Violation(f"{lab}: {name}: {err.exc}", key="exception", where=err.where)
    ctx.count("refused")
    return name


def rel_nonfinite(spec, ctx, ref, est, rng, lab):
    C, M, T = spec["n_ref"], spec["n_est"], spec["T"]
    nb = int(np.prod(spec["batch"])) if spec["batch"] else 1
    vals = {"nan": [np.nan], "inf": [np.inf], "-inf": [-np.inf], "both": [np.inf, -np.inf]}[spec["fault"]]
    R, E = ref.reshape((nb,) + ref.shape[-2:]), est.reshape((nb,) + est.shape[-2:])
    clean = R.copy(), E.copy()
    sides = {"ref": ["ref"], "est": ["est"], "any": ["ref", "est"]}[spec["where"]]
    n_el = 1 if nb == 1 or rng.random() < 0.6 else int(rng.integers(1, nb + 1))
    for b in rng.permutation(nb)[:n_el]:
        side = sides[int(rng.integers(len(sides)))]
        X = R if side == "ref" else E
        ch = int(rng.integers(X.shape[1]))
        ext = spec["extent"]
        if ext == "channel":
            X[b, ch] = vals[0]
        else:
            k = {"one": [int(rng.integers(T))], "first": [0], "last": [T - 1],
                 "many": list(rng.permutation(T)[: min(T, 7)])}[ext]
            for i, t in enumerate(k):
                X[b, ch, t] = vals[i % len(vals)]
    bad_r = ~np.all(np.isfinite(R), -1)  # nb, C
    bad_e = ~np.all(np.isfinite(E), -1)
    out, err = attempt(spec, ref, est)
    ctx.count("nonfinite_calls")
    ctx.nontrivial(digest(bad_r, bad_e, np.array([spec["seed"], err is None])))
    if err is not None:
        refused(spec, ctx, err, lab)
        return
    mode = mode_of(spec["fn"], spec["opts"])
    pair_bad = bad_r[:, :, None] | bad_e[:, None, :]
    any_ref = np.broadcast_to(bad_r.any(-1)[:, None, None], pair_bad.shape) | bad_e[:, None, :]
    flat = slice_out(out, spec["batch"], None)
    if mode == "perm":
        # a permutation was chosen from undefined scores
        raise Violation(f"{lab}: a permutation was returned for an input with non-finite samples", key="accepted")
    for n, v in flat.metrics():
        check_shape(v, (nb,) + out_shape(mode, (), C, M), lab)
        b = pick_pairs(pair_bad if n == "sdr" else any_ref, mode, None, C, M)
        ctx.count("contaminated_scores", b.sum())
        if np.any(np.isfinite(v[b])):
            raise Violation(f"{lab}: {n} = {v[b][np.isfinite(v[b])][0]} for a pair whose signals contain non-finite samples",
                            key="finite")
    # elements of the batch without faults keep their scores
    ok = ~(bad_r.any(-1) | bad_e.any(-1))
    if np.any(ok):
        i = np.nonzero(ok)[0]
        a, err = attempt(spec, clean[0][i], clean[1][i])
        if err is not None:
            raise err
        exp = expect(dict(spec, batch=[len(i)]), clean[0][i], clean[1][i])
        cut = type(flat)(*[None if x is None else x[i] for x in (flat.sdr, flat.sir, flat.sar, flat.perm)])
        from ..calls import cg_tol

        same(ctx, spec, a, cut, exp, lab + ": batch elements without faults", extra_tol=cg_tol(spec, exp))
        ctx.count("clean_elements_compared", len(i))


def rel_silent_est(spec, ctx, ref, est, rng, lab):
    C, M = spec["n_ref"], spec["n_est"]
    nb = int(np.prod(spec["batch"])) if spec["batch"] else 1
    E = est.reshape((nb,) + est.shape[-2:])
    sil = np.zeros((nb, M), bool)
    for b in range(nb):
        if b == 0 or rng.random() < 0.4:
            sil[b, rng.permutation(M)[: int(rng.integers(1, M + 1))]] = True
    E[sil] = 0
    out, err = attempt(spec, ref, est)
    ctx.count("silent_est_calls")
    ctx.nontrivial(digest(sil, np.array([spec["seed"], err is None])))
    if err is not None:
        refused(spec, ctx, err, lab)
        return
    mode = mode_of(spec["fn"], spec["opts"])
    lim = spec["opts"].get("clamp_db")
    top = -lim + 1e-3 if lim else -60.0
    flat = slice_out(out, spec["batch"], None)
    if mode == "perm" and flat.perm is None:
        s = np.sort(flat.sdr, -1)
        need = np.maximum(sil.sum(-1) - (M - min(C, M)), 0)
        for b in range(nb):
            if need[b] and s[b, need[b] - 1] > top:
                raise Violation(f"{lab}: scores {s[b].tolist()} with {need[b]} silent estimates scored", key="silent_est")
        return
    m = pick_pairs(np.broadcast_to(sil[:, None, :], (nb, C, M)), mode, flat.perm, C, M)
    for n, v in flat.metrics():
        w = v[m]
        # SIR of nothing is undefined
        bad = np.isfinite(w) & (w > top) if n != "sir" else np.isfinite(w) & (w > top) & (lim is None)
        if np.any(bad) or np.any(np.isposinf(w)):
            raise Violation(f"{lab}: {n} = {w.tolist()} for silent estimates", key="silent_est")
    if not np.all(np.isfinite(flat.sdr[~m]) | np.isinf(flat.sdr[~m])):
        raise Violation(f"{lab}: audible estimates have undefined scores {flat.sdr[~m].tolist()}", key="silent_est")


def rel_silent_ref(spec, ctx, ref, est, rng, lab):
    C, M = spec["n_ref"], spec["n_est"]
    nb = int(np.prod(spec["batch"])) if spec["batch"] else 1
    R = ref.reshape((nb,) + ref.shape[-2:])
    sil = np.zeros((nb, C), bool)
    for b in range(nb):
        if b == 0 or rng.random() < 0.3:
            sil[b, rng.permutation(C)[: int(rng.integers(1, C + 1))]] = True
    R[sil] = 0
    out, err = attempt(spec, ref, est)
    ctx.count("silent_ref_calls")
    ctx.nontrivial(digest(sil, np.array([spec["seed"], err is None])))
    if err is not None:
        refused(spec, ctx, err, lab)
        return
    mode = mode_of(spec["fn"], spec["opts"])
    lim = spec["opts"].get("clamp_db")
    top = -lim + 1e-3 if lim else -60.0
    flat = slice_out(out, spec["batch"], None)
    if mode == "perm" and flat.perm is None:
        s = np.sort(flat.sdr, -1)
        need = np.maximum(sil.sum(-1) - (C - min(C, M)), 0)
        for b in range(nb):
            if need[b] and s[b, need[b] - 1] > top:
                raise Violation(f"{lab}: scores {s[b].tolist()} with {need[b]} silent references scored", key="silent_ref")
        return
    m = pick_pairs(np.broadcast_to(sil[:, :, None], (nb, C, M)), mode, flat.perm, C, M)
    for n, v in flat.metrics():
        if n != "sdr":
            continue
        w = v[m]
        if np.any(w > top):
            raise Violation(f"{lab}: {n} = {w.tolist()} for silent references", key="silent_ref")
    if "use_cg_iter" in spec["opts"]:
        return
    # the silent references add nothing to the span: the scores of the others are
    # those without them
    E = est.reshape((nb,) + est.shape[-2:])
    for b in range(nb):
        keep = np.nonzero(~sil[b])[0]
        if not len(keep):
            continue
        x = expect(dict(spec, batch=[]), R[b][keep], E[b])
        if x.cond > (1e4 if spec["dtype"] == "f32" else 1e10):
            continue
        for n, v in flat.metrics():
            lo, hi = np.full((2, C, M), np.nan)
            lo[keep], hi[keep] = x.interval(n)
            p = None if flat.perm is None else flat.perm[b]
            lo, hi = pick_pairs(lo, mode, p, C, M), pick_pairs(hi, mode, p, C, M)
            bad = (v[b] < lo) | (v[b] > hi)
            ctx.count("audible_checked", int(np.sum(~np.isnan(lo))))
            if np.any(bad):
                i = tuple(int(k[0]) for k in np.nonzero(bad))
                raise Violation(f"{lab}: {n} = {v[b][i]} instead of [{lo[i]}, {hi[i]}] next to a silent reference",
                                key="silent_ref")


def rel_hard(spec, ctx, ref, est, rng, lab):
    """finite and non-silent: a score, never NaN; the only refusal is the one of
    mixed infinities"""
    C, M, T, L = spec["n_ref"], spec["n_est"], spec["T"], spec["L"]
    h = spec["hard"]
    ref, est = ref.copy(), est.copy()
    if h == "perfect":
        est = ref[..., np.arange(M) % C, :].copy()
    elif h == "swap_sign":
        est = -ref[..., np.arange(M)[::-1] % C, :].copy()
    elif h == "duplicate_est":
        est[...] = est[..., :1, :]
    elif h == "constant":
        est[..., 0, :] = 1.0
    elif h == "impulse":
        est[...] = 0
        est[..., int(rng.integers(T))] = 1
    elif h == "tiny":
        ref *= 1e-3
        est *= 1e-3
    elif h == "huge":
        ref *= 1e6
        est *= 1e6
    elif h == "short" and "si_" not in spec["fn"]:
        # independent references which are shorter than the filter can only be one
        if C == 1:
            n = int(rng.integers(1, max(2, L)))
            ref, est = ref[..., :n].copy(), est[..., :n].copy()
            if n == 1:
                spec["opts"].pop("zero_mean", None)
                ref[...], est[...] = 1.0, -2.0
    elif h == "orthogonal" and T > 4 * L * C + 4:
        ref[..., T // 2 - L:] = 0
        est[..., : T // 2] = 0
        if "bss_eval" in spec["fn"]:
            est[..., : T // 2] = rng.standard_normal(est[..., : T // 2].shape) * 0.1
    elif h == "onesample":
        est[...] = ref[..., np.arange(M) % C, :]
        est[..., 0, int(rng.integers(T))] += 1e-3
    elif h == "mixed":
        est[..., 0, :] = ref[..., 0, :]
    if not (np.all(np.any(ref != 0, -1)) and np.all(np.any(est != 0, -1))):
        return
    zm = spec["opts"].get("zero_mean", False)
    if zm and (np.any(np.ptp(ref, -1) < 1e-9 * np.abs(ref).max()) or np.any(np.ptp(est, -1) < 1e-9 * np.abs(est).max())):
        return
    exp = expect(spec, ref, est)
    if exp.cond > (1e4 if spec["dtype"] == "f32" else 1e10):
        ctx.count("too_ill_conditioned")
        return
    out, err = attempt(spec, ref, est)
    ctx.count("finite_hard_calls")
    ctx.nontrivial(digest(np.array([spec["seed"], err is None])))
    if err is not None:
        # mixed +inf and -inf scores cannot be assigned: refused by design
        key = "sir" if "bss_eval" in spec["fn"] else "sdr"
        lo, hi = exp.interval(key)
        if mode_of(spec["fn"], spec["opts"]) == "perm" and np.any(hi > 130 if spec["dtype"] == "f64" else hi > 60) and \
                np.any(lo < -130 if spec["dtype"] == "f64" else lo < -60) and type(err.exc).__name__ == "ValueError":
            ctx.count("mixed_infinities")
            return
        # nothing of some estimate lies in the span of the references: its SIR is 0 / 0
        # and cannot be assigned either
        if mode_of(spec["fn"], spec["opts"]) == "perm" and key == "sir" and np.any(exp.c_sar <= exp.t_sar) and \
                type(err.exc).__name__ == "ValueError":
            ctx.count("sir_undefined_refused")
            return
        raise Violation(f"{lab}: finite, non-silent input ({h}) refused: {err}", key="refused_finite", where=err.where)
    for n, v in out.metrics():
        bad = np.isnan(v)
        if n == "sir" and np.any(bad):
            # nothing of the estimate lies in the span: 0 / 0
            zero = pick_pairs(exp.c_sar <= exp.t_sar, mode_of(spec["fn"], spec["opts"]), out.perm, C, M)
            ctx.count("sir_undefined", np.sum(bad & zero))
            bad &= ~zero
        if np.any(bad):
            raise Violation(f"{lab}: {n} is NaN for finite, non-silent input ({h})", key="nan")
    if out.perm is not None:
        check_perm_valid(out.perm, exp.bshape, C, M, lab)
