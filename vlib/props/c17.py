"""C17: the torch scores are differentiable and their gradients are right."""
import numpy as np

from ..calls import FNS, cg_tol, expect, mode_of, out_digest, rand_call, same
from ..compare import digest
from ..core import Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "torch calls of all ten functions and all options, recorded with gradients: derivative along random, gradient"
    " and edge directions against Richardson finite differences of the recorded values (float64); Euler identities"
    " (no gradient along a channel, nor along a constant with zero_mean); exact zeros for other batch elements;"
    " single against double precision; finite gradients with clamp_db on perfect, silent and extreme estimates;"
    " values with and without gradient recording, gradients with either or both inputs requiring them; non-trivial: a non-zero gradient; distinct by gradient digest"
)
ASSUMPTIONS = ["finite differences where all scores are within 45 dB and the permutation does not change"]
MUST = ["directions_checked", "euler_checked", "finite_checked", "isolation_checked", "f32_checked", "value_checked", "grads_compared"]


def cases(tier, seed):
    rng = rng_of(seed, 17)
    kinds = ["fd", "fd", "euler", "finite", "f32", "value", "fd"]
    for i in range({"quick": 2520, "thorough": 48000}[tier]):
        c = rand_cfg(rng, budget=1.5e8, backend="pt", dtype="f64", max_c=5)
        c["rel"] = kinds[i % len(kinds)]
        c["snr"] = float(pick(rng, [-10, 0, 10, 20]))
        c["leak"] = float(pick(rng, [-20, -10, 0]))
        if c["rel"] == "fd":
            c["T"] = min(c["T"], 1200) if c["T"] >= 2 * c["L"] * c["n_ref"] + 20 else c["T"]
            c["dc"] = min(c["dc"], 0.5)
        c = rand_call(rng, c, cg=0.25)
        if c["rel"] == "finite":
            c["opts"]["clamp_db"] = float(pick(rng, [10, 20, 30, 50]))
            c["ext"] = pick(rng, ["perfect", "silent", "filtered", "orthogonal", "mixed", "one_silent"])
            c["dtype"] = pick(rng, ["f64", "f32"])
        yield c


def outputs(spec, ref, est):
    """list of differentiable outputs, permutation or None"""
    o = dict(spec["opts"])
    fn = spec["fn"]
    if "si_" not in fn:
        o["filter_length"] = spec["L"]
    out = lib.raw_call(fn, "pt", ref, est, level=spec.get("level", "top"), **o)
    t = lib.torch
    vals = [v for v in out if v.is_floating_point()]
    perm = [v for v in out if not v.is_floating_point()]
    return vals, (perm[0].detach().numpy() if perm else None)


def leaf(x, dtype=None):
    t = lib.torch
    x = t.from_numpy(np.array(x, copy=True))
    if dtype is not None:
        x = x.to(dtype)
    return x.requires_grad_(True)


def weights(rng, vals):
    return [rng.standard_normal(tuple(v.shape)) for v in vals]


def total(vals, ws):
    t = lib.torch
    return sum((v * t.as_tensor(w, dtype=v.dtype)).sum() for v, w in zip(vals, ws))


def limit_db(vals):
    m = 0.0
    for v in vals:
        v = v.detach().numpy()
        if not np.all(np.isfinite(v)):
            return np.inf
        m = max(m, float(np.max(np.abs(v))))
    return m


def grad(vals, ws, xs, label):
    t = lib.torch
    try:
        g = t.autograd.grad(total(vals, ws), xs, retain_graph=True)
    except RuntimeError as e:
        raise Violation(f"{label}: not differentiable: {e}", key="not_differentiable")
    return [v.numpy().astype(np.float64) for v in g]


def check(spec, ctx):
    t = lib.torch
    fn = spec["fn"]
    lab = f"{fn} {spec['opts']} L={spec['L']} shape={spec['batch']},{spec['n_ref']},{spec['n_est']},{spec['T']}"
    ref, est = make_cast(spec)
    rng = rng_of(spec["seed"], 170)
    rel = spec["rel"]
    if rel == "finite":
        return finite(spec, ctx, ref, est, rng, lab)
    r, e = leaf(ref), leaf(est)
    vals, perm = outputs(spec, r, e)
    for v in vals:
        if not v.requires_grad:
            raise Violation(f"{lab}: an output does not require a gradient", key="not_differentiable")
    m = limit_db(vals)
    if m == np.inf:
        ctx.count("infinite_scores")
        return
    if rel == "value":
        return value(spec, ctx, ref, est, vals, perm, lab, r, e, m)
    ws = weights(rng, vals)
    if rel in ("fd", "f32") and len(vals) == 3:
        i = int(rng.integers(4))  # one output alone, or all
        if i < 3:
            ws = [w if j == i else 0 * w for j, w in enumerate(ws)]
    g_r, g_e = grad(vals, ws, (r, e), lab)
    for nm, g in (("reference", g_r), ("estimate", g_e)):
        if not np.all(np.isfinite(g)):
            raise Violation(f"{lab}: gradient with respect to the {nm} is not finite although all scores are",
                            key="nonfinite")
    if np.any(g_e != 0):
        ctx.nontrivial(digest(g_r, g_e))
    if rel == "fd":
        return fd(spec, ctx, ref, est, vals, perm, ws, g_r, g_e, m, rng, lab)
    if rel == "euler":
        return euler(spec, ctx, ref, est, r, e, vals, ws, g_r, g_e, rng, lab, m)
    return single(spec, ctx, ref, est, perm, ws, g_r, g_e, m, lab, vals)


def fd(spec, ctx, ref, est, vals, perm, ws, g_r, g_e, m, rng, lab):
    if m > 45:
        ctx.count("beyond_45dB")
        return
    if "use_cg_iter" in spec["opts"] and expect(spec, ref, est).cond > 30:
        # the iteration amplifies rounding: the recorded values are too noisy
        ctx.count("too_ill_conditioned")
        return
    t = lib.torch
    base = [v.detach().numpy() for v in vals]
    lim = spec["opts"].get("clamp_db")
    h = min(1e-3, 0.02 * 10 ** (-m / 20))
    if lim is not None:
        # stay clear of the corners of the clamp
        if any(np.any(np.abs(np.abs(b) - lim) < 1e-3) and np.any((np.abs(np.abs(b) - lim) < 0.3)
               & (np.abs(np.abs(b) - lim) > 1e-3)) for b in base):
            ctx.count("near_corner")
            return

    def f(dr, de):
        with t.no_grad():
            v, p = outputs(spec, t.from_numpy(ref + dr), t.from_numpy(est + de))
        if perm is not None and not np.array_equal(p, perm):
            return None
        return float(sum((x.numpy() * w).sum() for x, w in zip(v, ws)))

    if perm is None and mode_of(spec["fn"], spec["opts"]) == "perm":
        # which pairing is used is not visible: demand small moves only
        h = min(h, 1e-5)
    an = lambda x: np.sqrt(np.mean(x * x, -1, keepdims=True)) + 1e-300
    todo = []
    for which in ("est", "ref"):
        x, g = (est, g_e) if which == "est" else (ref, g_r)
        s = an(x)
        todo.append((which, rng.standard_normal(x.shape) * s))
        k = np.zeros(x.shape)
        edge = pick(rng, [slice(0, 1), slice(-1, None), slice(0, max(1, spec["L"])), slice(-max(1, spec["L"]), None)])
        k[..., edge] = rng.standard_normal(k[..., edge].shape)
        todo.append((which, k * s))
        if np.any(g != 0):
            gg = g * s * s
            todo.append((which, gg / np.max(np.abs(gg)) * np.max(s)))
        k = np.zeros(x.shape)  # one channel of one batch element
        i = tuple(int(rng.integers(n)) for n in x.shape[:-1])
        k[i] = rng.standard_normal(x.shape[-1]) * s[i]
        todo.append((which, k))
    z_r, z_e = np.zeros(ref.shape), np.zeros(est.shape)
    for which, v in todo:
        g = g_e if which == "est" else g_r
        want = float(np.sum(g * v))
        # a corner of the clamps may lie within one step: what counts is a
        # difference seen at every step size that can decide
        bad, decided = [], 0
        for step in (h, h / 10, h / 100):
            D = []
            for k in (step, step / 2):
                a = f(z_r, k * v) if which == "est" else f(k * v, z_e)
                b = f(z_r, -k * v) if which == "est" else f(-k * v, z_e)
                if a is None or b is None:
                    break
                D.append((a - b) / (2 * k))
            if len(D) < 2:
                ctx.count("permutation_changed")
                continue
            est_d = (4 * D[1] - D[0]) / 3
            scale = max(abs(est_d), float(np.sqrt(np.sum((g * v) ** 2))))
            err = abs(D[1] - D[0])
            # rounding of the values themselves
            noise = 1e-13 * (1 + 10 ** (m / 10)) * np.sqrt(sum(np.sum(w * w) for w in ws)) / step * (
                1e3 if "use_cg_iter" in spec["opts"] else 10)
            if err > 0.02 * scale + noise or noise > 0.3 * scale and scale > 0:
                continue
            tol = 2e-5 * scale + 2 * err + noise + 1e-9
            decided += 1
            if abs(est_d - want) <= tol:
                bad = []
                if noise < 1e-6 * scale and err < 1e-4 * scale:
                    ctx.stat_max("fd_rel_error", abs(est_d - want) / (scale + 1e-300))
                break
            bad.append((step, est_d, tol))
        ctx.count("directions_checked" if decided else "directions_undecided")
        if bad:
            if "use_cg_iter" in spec["opts"] and decided < 2:
                ctx.count("directions_undecided")
                continue
            raise Violation(
                f"{lab}: derivative with respect to the {which} is {want}, the values change at rates {bad} (step, rate, tolerance)",
                key="gradient")


def euler(spec, ctx, ref, est, r, e, vals, ws, g_r, g_e, rng, lab, m):
    cond = expect(spec, ref, est).cond
    load = spec["opts"].get("load_diag")
    amp = 10 ** (min(m, 150) / 10)
    tol = 1e-12 * (100 + cond) * (1 + amp) * (1e3 if "use_cg_iter" in spec["opts"] else 1)
    if tol > 1e-3:
        ctx.count("too_ill_conditioned")
    else:
        zm = spec["opts"].get("zero_mean", False)
        amp = 1 + max(np.max(np.abs(x.mean(-1)) / x.std(-1)) for x in (ref, est)) if zm else 1.0
        for nm, x, g in (("reference", ref, g_r), ("estimate", est, g_e)):
            d = np.sum(x * g, -1)
            n = np.sqrt(np.sum(x * x, -1) * np.sum(g * g, -1))
            s = np.max(n)
            if np.any(np.abs(d) > tol * amp * s + 1e-290):
                raise Violation(f"{lab}: gradient along a {nm} channel is {np.max(np.abs(d))} (norms {s})", key="euler")
            if zm:
                d = np.sum(g, -1)
                n = np.max(np.sqrt(np.sum(g * g, -1))) * np.sqrt(g.shape[-1])
                if np.any(np.abs(d) > tol * amp * n + 1e-290):
                    raise Violation(f"{lab}: gradient along a constant is {np.max(np.abs(d))} (norm {n})", key="euler")
            ctx.count("euler_checked", d.size)
    nb = int(np.prod(spec["batch"])) if spec["batch"] else 1
    if nb > 1:
        b = int(rng.integers(nb))
        k = len(spec["batch"])
        w2 = []
        for w in ws:
            z = np.zeros(w.shape).reshape((nb,) + w.shape[k:])
            z[b] = w.reshape(z.shape)[b]
            w2.append(z.reshape(w.shape))
        h_r, h_e = grad(vals, w2, (r, e), lab)
        for nm, h, g in (("reference", h_r, g_r), ("estimate", h_e, g_e)):
            h, g = h.reshape((nb,) + h.shape[k:]), g.reshape((nb,) + g.shape[k:])
            o = np.delete(h, b, axis=0)
            if np.any(o != 0):
                raise Violation(f"{lab}: the gradient of batch element {b} leaks into another ({nm})", key="leak")
            s = np.max(np.abs(g)) + 1e-300
            if np.max(np.abs(h[b] - g[b])) > 1e-6 * s:
                raise Violation(f"{lab}: the gradient of batch element {b} depends on the other losses ({nm})", key="leak")
        ctx.count("isolation_checked")


def single(spec, ctx, ref, est, perm, ws, g_r, g_e, m, lab, vals64):
    t = lib.torch
    r32, e32 = ref.astype(np.float32), est.astype(np.float32)
    r, e = leaf(r32.astype(np.float64)), leaf(e32.astype(np.float64))
    v64, p64 = outputs(spec, r, e)
    a = grad(v64, ws, (r, e), lab)
    r, e = leaf(r32), leaf(e32)
    v32, p32 = outputs(spec, r, e)
    b = grad(v32, ws, (r, e), lab)
    if p64 is not None and not np.array_equal(p64, p32):
        ctx.count("permutation_tie")
        return
    for x in b:
        if not np.all(np.isfinite(x)):
            raise Violation(f"{lab}: single-precision gradient not finite", key="nonfinite")
    if perm is None and mode_of(spec["fn"], spec["opts"]) == "perm":
        if any(np.max(np.abs(x.detach().numpy() - y.detach().numpy())) > 1e-2 for x, y in zip(v64, v32)):
            ctx.count("permutation_tie")
            return
    exp = expect(spec, ref, est)
    dc = 1 + np.max(np.abs(ref.mean(-1))) / np.min(ref.std(-1)) if spec["opts"].get("zero_mean") else 1
    # rounding of the products, and of the square cosine close to one (single precision
    # sums of many terms are systematically off)
    tol = 5e-6 * (20 + exp.cond) * (1 + 10 ** (m / 20)) * dc + (4e-6 + 3e-9 * ref.shape[-1]) * 10 ** (m / 10)
    if "use_cg_iter" in spec["opts"]:
        tol *= 30
    if tol > 0.3:
        ctx.count("too_ill_conditioned")
        return
    lim = spec["opts"].get("clamp_db")
    if lim is not None and any(np.any(np.abs(np.abs(v.detach().numpy()) - lim) < 0.1) for v in v64):
        ctx.count("near_corner")
        return
    for nm, x, y in (("reference", *[q[0] for q in (a, b)]), ("estimate", *[q[1] for q in (a, b)])):
        n = np.linalg.norm(x, axis=-1, keepdims=True)
        d = np.linalg.norm(x - y, axis=-1, keepdims=True)
        # per channel, at the scale of the largest gradient relative to the channel amplitude
        amp = np.linalg.norm(ref if nm == "reference" else est, axis=-1, keepdims=True)
        s = np.max(n * amp)
        ctx.count("f32_checked", n.size)
        ctx.stat_max("f32_rel_error_over_tol", float(np.max(d * amp) / (tol * s + 1e-300)))
        if np.any(d * amp > tol * s + 1e-30):
            raise Violation(f"{lab}: single and double precision gradients with respect to the {nm} differ by"
                            f" {np.max(d * amp) / s} (allowed {tol})", key="f32")


def finite(spec, ctx, ref, est, rng, lab):
    ext = spec["ext"]
    C, M = ref.shape[-2], est.shape[-2]
    silent_ok = spec["fn"] in ("sdr_loss", "pairwise_sdr_loss", "si_sdr_loss", "pairwise_si_sdr_loss",
                               "sdr_pit_loss", "si_sdr_pit_loss", "sdr", "si_sdr")
    if ext in ("silent", "one_silent") and not silent_ok:
        ext = "perfect"
    if ext == "perfect":
        est = ref[..., np.arange(M) % C, :].copy()
    elif ext == "filtered":
        est = ref[..., np.arange(M) % C, :].copy()
        if spec["L"] > 1:
            est[..., 1:] += 0.5 * ref[..., np.arange(M) % C, :-1]
    elif ext == "silent":
        est = np.zeros_like(est)
    elif ext == "one_silent":
        est[..., 0, :] = 0
    elif ext == "orthogonal":
        T = ref.shape[-1]
        ref, est = ref.copy(), est.copy()
        ref[..., T // 2 - spec["L"]:] = 0
        est[..., : T // 2] = 0
        if not np.all(np.any(ref != 0, -1)) or not np.all(np.any(est != 0, -1)) or "bss_eval" in spec["fn"]:
            ctx.count("degenerate_skipped")
            return
        exp = expect(spec, ref, est)
        if exp.cond > 1e6 and spec["dtype"] == "f32":
            ctx.count("degenerate_skipped")
            return
    else:
        est[..., 0, :] = ref[..., 0, :]
    for x in (ref, est):
        x.setflags(write=True)
    r, e = leaf(ref), leaf(est)
    vals, _ = outputs(spec, r, e)
    ws = [np.ones(tuple(v.shape)) for v in vals]
    for v in vals:
        if not np.all(np.isfinite(v.detach().numpy())):
            raise Violation(f"{lab}: {ext} estimate with clamp_db has non-finite scores", key="nonfinite")
    g = grad(vals, ws, (r, e), lab)
    for nm, x in (("reference", g[0]), ("estimate", g[1])):
        ctx.count("finite_checked", x.size)
        if not np.all(np.isfinite(x)):
            raise Violation(f"{lab} [{spec['dtype']}]: gradient with respect to the {nm} is not finite for a {ext}"
                            f" estimate although clamp_db is set", key="nonfinite_" + ext)
    ctx.nontrivial(digest(est[..., :50], np.array([spec["seed"]])))


def same_grad(spec, ctx, got, want, exp, m, how, lab):
    """which of the inputs require a gradient does not change the gradients"""
    got = got.numpy()
    tol = 1e-10 * (100 + exp.cond) * (1 + 10 ** (min(m, 150) / 10)) * (1e2 if "use_cg_iter" in spec["opts"] else 1)
    ctx.count("grads_compared")
    if tol > 1e-3:
        ctx.count("too_ill_conditioned")
        return
    d, s = np.max(np.abs(got - want)), np.max(np.abs(want)) + 1e-300
    ctx.stat_max("grad_difference", d / s)
    if not d <= tol * s:
        raise Violation(f"{lab}: the gradient differs by {d} (largest {s}) when gradients are handled as '{how}'", key="gradient")


def value(spec, ctx, ref, est, vals, perm, lab, r, e, m):
    t = lib.torch
    base = [v.detach().numpy() for v in vals]
    exp = expect(spec, ref, est)
    both = grad(vals, [np.ones(v.shape) for v in base], (r, e), lab)
    for how in ("plain", "no_grad", "inference", "est_only", "ref_only", "non_leaf"):
        r, e = t.from_numpy(ref.copy()), t.from_numpy(est.copy())
        if how == "no_grad":
            with t.no_grad():
                v, p = outputs(spec, r.requires_grad_(True), e.requires_grad_(True))
        elif how == "inference":
            with t.inference_mode():
                v, p = outputs(spec, r, e)
        elif how == "est_only":
            v, p = outputs(spec, r, e.requires_grad_(True))
            same_grad(spec, ctx, t.autograd.grad(sum(x.sum() for x in v), e)[0], both[1], exp, m, how, lab)
            if r.grad is not None:
                raise Violation(f"{lab}: a reference which does not require a gradient got one", key="gradient")
        elif how == "ref_only":
            v, p = outputs(spec, r.requires_grad_(True), e)
            same_grad(spec, ctx, t.autograd.grad(sum(x.sum() for x in v), r)[0], both[0], exp, m, how, lab)
        elif how == "non_leaf":
            r.requires_grad_(True), e.requires_grad_(True)
            v, p = outputs(spec, r * 1.0, e * 1.0)
            sum(x.sum() for x in v).backward()
            if r.grad is None or e.grad is None:
                raise Violation(f"{lab}: gradients do not reach the inputs through another operation", key="gradient")
            same_grad(spec, ctx, r.grad, both[0], exp, m, how, lab)
            same_grad(spec, ctx, e.grad, both[1], exp, m, how, lab)
        else:
            v, p = outputs(spec, r, e)
            if any(x.requires_grad for x in v):
                raise Violation(f"{lab}: outputs require gradients although no input does", key="value")
        for x, y in zip(v, base):
            x = x.detach().numpy()
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9 + 10 * np.max(cg_tol(spec, exp))):
                raise Violation(f"{lab}: values differ when gradients are handled as '{how}': {x.tolist()} {y.tolist()}",
                                key="value")
        ctx.count("value_checked")
    ctx.nontrivial(digest(*base))
