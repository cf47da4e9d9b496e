"""C20: the numpy side needs nothing but numpy and scipy, old or new."""
import os
import shutil
import sys

import numpy as np

from ..calls import FNS, TOP, cg_tol, expect, judge, mode_of, out_digest, rand_call, run, same
from ..core import LibraryRaised, Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "the same monitored calls in three interpreters: numpy 1 with torch, numpy 1 with torch hidden, and numpy 2 without"
    " torch (python3-vt), warnings about deprecated numpy features turned into errors, floating-point and integer samples, options as python numbers and as numpy scalars; every value against the"
    " definition; all public names callable; non-trivial: a call in an interpreter without torch; distinct by output"
    " digest"
)
MUST = ["calls_without_torch", "surface_checked", "calls_notorch", "integer_calls", "numpy_scalar_options"]
VT = "/opt/veriftools/pyvenv/bin/python"


def vt():
    p = VT if os.path.exists(VT) else shutil.which("python3-vt")
    return p


def lanes(here, tier):
    out = [{"name": "main"}, {"name": "notorch", "env": {"FBE_NO_TORCH": "1"}}]
    if vt():
        out.append({"name": "numpy2", "python": vt()})
    return out


def cases(tier, seed):
    rng = rng_of(seed, 20)
    names = ["notorch", "notorch"]
    if vt():
        names = ["notorch", "numpy2", "numpy2"]
    for lane in names[:2] if len(names) == 3 else names[:1]:
        yield dict(lane=lane, kind="surface", seed=1)
    yield dict(lane="main", kind="surface", seed=1)
    for fn in FNS:  # every function with every option at its default, per lane
        for lane in ["notorch", "numpy2"] if vt() else ["notorch"]:
            for dt in ("f64", "f32"):
                for cg in (None, 15):
                    if cg and "si_" in fn:
                        continue
                    for batch in ([], [3]):
                        yield dict(lane=lane, kind="call", seed=int(rng.integers(2**31)), backend="np", dtype=dt, n_ref=2,
                                   n_est=2, batch=batch, L=1 if "si_" in fn else 8, T=300, fn=fn,
                                   level="sub" if fn.startswith("pairwise") else "top", kind_="x",
                                   opts=dict({"use_cg_iter": cg} if cg else {}, **({"return_perm": True} if fn in ("sdr", "si_sdr") else {})))
    for i in range({"quick": 1800, "thorough": 64000}[tier]):
        c = rand_cfg(rng, budget=4e8, backend="np", max_c=8)
        c = rand_call(rng, c, cg=0.3)
        c["kind_"], c["kind"] = c["kind"], "call"
        c["lane"] = names[i % len(names)]
        if i % 12 == 5:
            c["ity"], c["dtype"], c["scale"] = pick(rng, ["int16", "int16", "int32", "int8"]), "f64", 0.0
        c["npopts"] = i % 7 == 3
        yield c


def check(spec, ctx):
    has = lib.torch is not None
    if spec["lane"] != "main" and has:
        raise RuntimeError("torch is visible in the lane without it")
    if spec["kind"] == "surface":
        return surface(spec, ctx, has)
    import warnings

    s = dict(spec, kind=spec["kind_"] if spec["kind_"] != "x" else "white")
    ref, est = make_cast(s)
    if s.get("ity"):
        m = np.iinfo(s["ity"]).max // (1 if s["ity"] == "int8" else 4)
        ref, est = (np.round(x * (m / np.abs(x).max())).astype(s["ity"]) for x in (ref, est))
        if not (np.all(np.any(ref != 0, -1)) and np.all(np.any(est != 0, -1))):
            return
        ctx.count("integer_calls")
    exp = expect(s, ref.astype(float), est.astype(float)) if s.get("ity") else expect(s, ref, est)
    lab = f"{s['fn']}[numpy {np.__version__}, {s['dtype']}] without torch"
    with warnings.catch_warnings():
        warnings.simplefilter("error", DeprecationWarning)
        warnings.simplefilter("error", FutureWarning)
        warnings.simplefilter("error", PendingDeprecationWarning)
        if s.get("npopts"):
            # numbers as they come from a table of settings: the same scores in the same precision
            out = run(dict(s, L=np.int64(s["L"]), opts={k: scalar(v) for k, v in s["opts"].items()}), ref, est)
            ctx.count("numpy_scalar_options", sum(k in s["opts"] for k in ("clamp_db", "load_diag")))
            lab += ", numpy scalars as options"
        else:
            out = run(s, ref, est)
    ctx.count("calls_without_torch")
    ctx.count("calls_" + spec["lane"])
    ctx.count("numpy_" + np.__version__.split(".")[0])
    for n, v in zip(("sdr", "sir", "sar"), out.raw):
        if isinstance(v, np.ndarray) and np.issubdtype(v.dtype, np.floating) and v.dtype != (np.float64 if s.get("ity") else ref.dtype):
            raise Violation(f"{lab}: output of dtype {v.dtype} for inputs of dtype {ref.dtype}", key="dtype")
    if "use_cg_iter" not in s["opts"]:
        judge(ctx, s, out, exp, lab)
    else:
        n = s["opts"]["use_cg_iter"]
        k = np.sqrt(exp.cond)
        rho = (k - 1) / (k + 1)
        if 2 * rho ** (2 * n) < 1e-7:
            o2 = {a: b for a, b in s["opts"].items() if a != "use_cg_iter"}
            d = run(dict(s, opts=o2), ref, est)
            same(ctx, dict(s, opts=o2), d, out, exp, lab + ": iterative against direct", extra_tol=2e-3)
    ctx.nontrivial(out_digest(out))


def scalar(v):
    if isinstance(v, bool) or v is None:
        return v
    return np.int64(v) if isinstance(v, int) else np.float64(v)


def surface(spec, ctx, has):
    fbe = lib.fbe
    names = TOP
    for f in names:
        if not callable(getattr(fbe, f, None)):
            raise Violation(f"fast_bss_eval.{f} is not callable" + ("" if has else " without torch"), key="surface")
        ctx.count("surface_checked")
    for f in FNS:
        if not callable(getattr(fbe.numpy, f, None)):
            raise Violation(f"fast_bss_eval.numpy.{f} is not callable", key="surface")
        if has and not callable(getattr(fbe.torch, f, None)):
            raise Violation(f"fast_bss_eval.torch.{f} is not callable", key="surface")
        ctx.count("surface_checked")
    # non-contiguous, list-like and subclass containers reach the numpy side
    rng = rng_of(3)
    ref = rng.standard_normal((2, 400))
    est = ref[::-1] + 0.1 * rng.standard_normal((2, 400))
    a = fbe.sdr(ref, est, filter_length=4)
    b = fbe.sdr(np.asfortranarray(ref), np.asfortranarray(est), filter_length=4)
    if not isinstance(a, np.ndarray) or not np.allclose(a, b):
        raise Violation("sdr on numpy arrays is wrong", key="surface")
    if not has and any(m == "torch" or m.startswith("torch.") for m in sys.modules if sys.modules[m] is not None):
        raise Violation("a module named torch was imported", key="surface")
