"""C15: load_diag is diagonal loading of the normal equations."""
import numpy as np

from ..calls import FNS, cg_tol, expect, judge, mode_of, out_digest, rand_call, run, same
from ..compare import check_shape
from ..core import Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of
from .c16 import check as cg_check

RULE = (
    "loading from 1e-9 to 100 on all functions accepting it, direct and converged iterative solver, compared with the"
    " regularised least-squares model; linearly dependent references (copies, scaled copies, sums, delays) with loading;"
    " silent references (some channels of some batch elements) with loading, direct and iterative solver;"
    " increasing loading must not increase SDR nor SAR, vanishing loading must not matter; non-trivial: the loading"
    " changes some score by more than 0.01 dB or a reference is silent; distinct by output digest"
)
MUST = ["loaded_checked", "silent_checked", "monotone_checked", "vanishing_checked", "silent_cg",
        "dependent_checked", "cg_values_checked"]
F = ["bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss", "si_bss_eval_sources"]


def cases(tier, seed):
    rng = rng_of(seed, 15)
    for i in range({"quick": 2520, "thorough": 64000}[tier]):
        c = rand_cfg(rng, budget=8e8, max_c=8)
        if i % 7 == 3:
            c["L"] = 1
        c["rel"] = ["loaded", "silent", "monotone", "vanishing", "silent", "loaded", "silent_cg"][i % 7]
        c = rand_call(rng, c, fns=F, load=0.0, zm=0.2)
        ld = float(pick(rng, [1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1, 5.0, 100.0]))
        if c["rel"].startswith("silent"):
            ld = max(ld, 1e-4 if c["dtype"] == "f32" or c["rel"] == "silent_cg" else 1e-9)
        if c["rel"] == "silent_cg":
            if c["L"] == 1 or "si_" in c["fn"]:
                c["L"] = 6
                c["fn"] = c["fn"].replace("si_", "")
            c["opts"]["use_cg_iter"] = 12
        c["opts"]["load_diag"] = ld
        if c["rel"].startswith("silent") and mode_of(c["fn"], c["opts"]) == "perm":
            # a silent reference scores -inf, a lone audible one SIR +inf: the two
            # together are refused by design (documented), so bound the scores
            c["opts"].setdefault("clamp_db", float(pick(rng, [20, 40, 60])))
        yield c
    n = {"quick": 360, "thorough": 9000}[tier]
    for i in range(n):
        c = rand_cfg(rng, budget=6e8, max_c=6, min_c=2)
        c["rel"] = "dependent"
        c = rand_call(rng, c, fns=F, load=0.0, zm=0.2)
        c["opts"]["load_diag"] = float(pick(rng, [1e-2, 0.1, 1, 10.0] if c["dtype"] == "f32" else [1e-6, 1e-4, 1e-3, 0.1, 3.0]))
        c["dep"] = pick(rng, ["copy", "scaled", "sum", "delay", "all"])
        yield c
    for i in range(n):
        c = rand_cfg(rng, budget=6e8, max_c=6, kinds=["white", "uniform", "laplace", "ints", "burst", "padded", "ar"])
        c["L"] = max(c["L"], 2)
        c["rel"], c["iters"], c["dc"] = "cg_loaded", "bound", 0.0
        c["T"] = max(c["T"], 4 * c["L"] * c["n_ref"])
        c = rand_call(rng, c, fns=[f for f in F if "si_" not in f], load=0.0, clamp=0.15)
        c["opts"]["load_diag"] = float(pick(rng, [1e-3, 1e-2, 0.05, 0.2, 0.5, 1, 1.0, 2, 5.0, 30.0]))
        yield c


def dependent(spec, ref):
    rng = rng_of(spec["seed"], 151)
    R = ref.reshape((-1,) + ref.shape[-2:])
    C = R.shape[1]
    for x in R:
        i, j = rng.permutation(C)[:2]
        how = spec["dep"]
        if how == "copy":
            x[j] = x[i]
        elif how == "scaled":
            x[j] = x[i] * x.dtype.type(-2.5)
        elif how == "sum":
            x[j] = 0
            x[j] = x.sum(0)
        elif how == "delay":
            x[j] = np.concatenate([x[i][:0], np.zeros(1, x.dtype), x[i][:-1]])
        else:
            x[:] = x[i]
    return R.reshape(ref.shape)


def silence(spec, ref):
    rng = rng_of(spec["seed"], 150)
    C = ref.shape[-2]
    R = ref.reshape((-1,) + ref.shape[-2:])
    n = 0
    for i in range(R.shape[0]):
        if i == 0 or rng.random() < 0.5:
            k = 1 if C <= 2 or rng.random() < 0.7 else int(rng.integers(1, C))
            if C == 1 and "bss_eval" in spec["fn"]:
                k = 0  # nothing left: SAR is undefined
            R[i, rng.permutation(C)[:k]] = 0
            n += k
    return R.reshape(ref.shape)


def check(spec, ctx):
    ref, est = make_cast(spec)
    rel = spec["rel"]
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}] load_diag={spec['opts']['load_diag']}"
    if rel == "cg_loaded":
        return cg_check(spec, ctx)
    if rel.startswith("silent"):
        ref = silence(spec, ref)
    if rel == "dependent":
        ref = dependent(spec, ref)
    out = run(spec, ref, est)
    if rel == "silent_cg":
        # robustness: nothing undefined comes out
        for n, v in out.metrics():
            if np.isnan(v).any() or np.isposinf(v).any() and n == "sdr":
                raise Violation(f"{lab}: {n} is {v.tolist()} with a silent reference", key="silent")
        sil = ~np.any(ref != 0, axis=-1)
        mode = mode_of(spec["fn"], spec["opts"])
        lim = spec["opts"].get("clamp_db")
        if mode != "perm":
            s = out.sdr[sil] if mode == "pair" else out.sdr[sil]
            if np.any(s > (-lim + 1e-3 if lim else -60)):
                raise Violation(f"{lab}: a silent reference has SDR {s.max()}", key="silent")
        ctx.count("silent_cg")
        ctx.nontrivial(out_digest(out))
        return
    exp = expect(spec, ref, est)
    if rel in ("loaded", "silent", "dependent"):
        judge(ctx, spec, out, exp, lab)
        ctx.count(rel + "_checked")
        if rel != "loaded":
            for n, v in out.metrics():
                if np.isnan(v).any():
                    raise Violation(f"{lab}: NaN with a {rel} reference", key="silent")
            ctx.nontrivial(out_digest(out))
        else:
            free = expect(dict(spec, opts={k: v for k, v in spec["opts"].items() if k != "load_diag"}), ref, est)
            if np.nanmax(np.abs(free.value("sdr") - exp.value("sdr"))) > 0.01:
                ctx.nontrivial(out_digest(out))
        return
    if rel == "vanishing":
        o = dict(spec["opts"], load_diag=1e-15 if spec["dtype"] == "f64" else 1e-9)
        a = run(dict(spec, opts=o), ref, est)
        o2 = {k: v for k, v in o.items() if k != "load_diag"}
        b = run(dict(spec, opts=o2), ref, est)
        e2 = expect(dict(spec, opts=o2), ref, est)
        same(ctx, spec, a, b, e2, lab + ": vanishing loading against none", scale=2.0)
        none = run(dict(spec, opts=dict(o2, load_diag=None)), ref, est)
        same(ctx, spec, none, b, e2, lab + ": load_diag=None against none", scale=0.5)
        if len(out.sdr.shape) and rng_of(spec["seed"], 152).random() < 0.5:
            zero = run(dict(spec, opts=dict(o2, load_diag=0.0)), ref, est)
            same(ctx, spec, zero, b, e2, lab + ": load_diag=0.0 against none", scale=0.5)
        ctx.count("vanishing_checked")
        ctx.nontrivial(out_digest(a))
        return
    # monotone in the loading
    spec = dict(spec, opts=dict(spec["opts"]))
    spec["opts"].pop("clamp_db", None)
    mode = mode_of(spec["fn"], spec["opts"])
    ld = min(spec["opts"]["load_diag"], 0.5)
    prev = None
    for f in (1.0, 3.0, 20.0):
        s2 = dict(spec, opts=dict(spec["opts"], load_diag=ld * f))
        o = run(s2, ref, est)
        e = expect(s2, ref, est)
        t = max(float(np.max(e.t_sdr)), float(np.max(getattr(e, "t_sar", 0.0))))
        if prev is not None and (mode != "perm" or (o.perm is not None and np.array_equal(o.perm, prev[0].perm))):
            for which in ("sdr", "sar") if o.sar is not None else ("sdr",):
                x, y = getattr(prev[0], which), getattr(o, which)
                cx, cy = 1 / (1 + 10 ** (-x / 10)), 1 / (1 + 10 ** (-y / 10))
                ctx.count("monotone_checked", x.size)
                if np.any(cy > cx + t + prev[1] + 1e-7 * (spec["dtype"] == "f32")):
                    raise Violation(f"{lab}: {which} increases with the loading", key="monotone")
        prev = (o, t)
    ctx.nontrivial(out_digest(out))
