"""C06: array type, dtype, device and shape of the outputs."""
import numpy as np

from ..calls import mode_of, out_digest, rand_call
from ..compare import digest, out_shape
from ..core import Violation
from ..env import lib
from ..signals import make_cast, rand_cfg, rng_of

RULE = (
    "every function x backend x dtype x shape x option that can change the code path (direct/iterative solver,"
    " filter length one, loading, clamping, with and without permutation), enumerated, plus random"
    " configurations; the recorded outputs are compared with the documented type, dtype, device and shape;"
    " also with tensors of a virtual device which applies the rules of an accelerator to every operator executed;"
    " non-trivial: outputs observed and finite somewhere; distinct by (call signature, output digest)"
)
MUST = ["outputs_checked", "f32_outputs", "perm_outputs"]


def cases(tier, seed):
    k = j = 0
    shapes = [[], [1], [3], [2, 1, 2], [1, 2], [1, 1, 2], [1, 2, 1, 2], [1, 1, 1], [2, 1], [1, 2, 2]]
    fns = ["bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss", "si_bss_eval_sources",
           "si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss"]
    for fn in fns:
        si = "si_" in fn
        for be in ("np", "pt"):
            for dt in ("f32", "f64"):
                for L in (1,) if si else (1, 6):
                    for C, M in ((2, 2), (3, 2), (2, 4), (1, 1)):
                        k += 1
                        variants = [{}]
                        variants.append({"zero_mean": True, "clamp_db": 20.0})
                        variants.append({"clamp_db": 30})
                        if not si or fn == "si_bss_eval_sources":
                            variants.append({"load_diag": 1e-3})
                            if not si:
                                variants.append({"load_diag": 1, "use_cg_iter": 4})
                                variants.append({"use_cg_iter": 5})
                        for v in variants:
                            o = dict(v)
                            j += 1
                            if "bss" in fn and C == M and k % 2:
                                o["compute_permutation"] = False
                            if fn in ("sdr", "si_sdr") and k % 2:
                                o["return_perm"] = True
                            if fn in ("sdr_loss", "si_sdr_loss") and (C != M or k % 2):
                                o["pairwise"] = True
                            yield dict(seed=k + seed * 977, backend=be, dtype=dt, L=L, n_ref=C, n_est=M,
                                       batch=shapes[(j * 7 + k + seed) % len(shapes)], T=100, kind="white", snr=10.0,
                                       leak=-8.0, fn=fn, opts=o, level="sub" if fn.startswith("pairwise") else "top")
    rng = rng_of(seed, 6)
    for fn in fns:
        for o in ({}, {"use_cg_iter": 3}, {"load_diag": 1e-3, "zero_mean": True, "clamp_db": 20.0}, {"compute_permutation": False},
                  {"load_diag": 1e-3, "use_cg_iter": 3}):
            for L in (1, 5):
                if "si_" in fn and (L > 1 or "use_cg_iter" in o):
                    continue
                if "compute_permutation" in o and "bss" not in fn:
                    continue
                o2 = {k: v for k, v in o.items() if k != "load_diag" or "si_" not in fn or fn == "si_bss_eval_sources"}
                if fn in ("sdr", "si_sdr"):
                    o2["return_perm"] = True
                yield dict(what="device", seed=int(rng.integers(2**31)), backend="pt", dtype="f32" if L == 1 else "f64", L=L,
                           n_ref=3, n_est=3, batch=[2], T=90, kind="white", snr=10.0, leak=-8.0, fn=fn, opts=o2,
                           level="sub" if fn.startswith("pairwise") else "top")
    for i in range({"quick": 60, "thorough": 1500}[tier]):
        c = rand_call(rng, rand_cfg(rng, budget=1e7, backend="pt"), cg=0.2)
        if c["opts"].get("use_cg_iter", 0) > 12:
            c["opts"]["use_cg_iter"] = 12
        yield dict(c, what="device")
    for i in range({"quick": 1200, "thorough": 32000}[tier]):
        c = rand_cfg(rng, budget=3e8)
        yield rand_call(rng, c, cg=0.3)


def check(spec, ctx):
    ref, est = make_cast(spec)
    be, fn, o = spec["backend"], spec["fn"], dict(spec["opts"])
    if "si_" not in fn:
        o["filter_length"] = spec["L"]
    r, e = lib.to_backend(ref, be), lib.to_backend(est, be)
    outs = lib.raw_call(fn, be, r, e, spec.get("level", "top"), **o)
    label = f"{fn}[{be},{spec['dtype']}]"
    if spec.get("what") == "device":
        return device(spec, ctx, fn, r, e, outs, o, label)
    norm = lib.normalise(fn, outs, o)  # number of outputs
    mode = mode_of(fn, o)
    shape = out_shape(mode, spec["batch"], spec["n_ref"], spec["n_est"])
    nperm = 0
    has_perm = mode == "perm" and ("bss" in fn or o.get("return_perm", False)) and fn not in ("sdr_pit_loss",)
    for i, v in enumerate(outs):
        is_perm = has_perm and i == len(outs) - 1
        if be == "np":
            if not isinstance(v, np.ndarray):
                raise Violation(f"{label}: output {i} is a {type(v).__name__}, not a numpy array", key="type")
        else:
            if not isinstance(v, lib.torch.Tensor):
                raise Violation(f"{label}: output {i} is a {type(v).__name__}, not a tensor", key="type")
            if v.device != e.device:
                raise Violation(f"{label}: output {i} is on {v.device}", key="device")
        if tuple(v.shape) != shape:
            raise Violation(f"{label}: output {i} has shape {tuple(v.shape)}, expected {shape}", key="shape")
        if is_perm:
            nperm += 1
            ok = v.dtype == np.int64 if be == "np" else v.dtype == lib.torch.int64
            if not ok:
                raise Violation(f"{label}: the permutation has dtype {v.dtype}", key="dtype")
            ctx.count("perm_outputs")
        else:
            if v.dtype != e.dtype:
                raise Violation(f"{label}: output {i} has dtype {v.dtype} for inputs of dtype {e.dtype}", key="dtype")
            ctx.count(spec["dtype"] + "_outputs")
        ctx.count("outputs_checked")
    if np.isfinite(norm.sdr).any():
        ctx.nontrivial(out_digest(norm) + fn + be + str(sorted(o)))


def device(spec, ctx, fn, r, e, plain, o, label):
    """the same call with tensors which are not on the CPU (see vlib/device.py)"""
    from ..device import Mixed, is_virtual, on_device, real, virtual_device

    r, e = on_device(r), on_device(e)
    call = lib.get_fn(fn, "pt", spec.get("level", "top"))
    args = (r, e) if fn in lib.REF_FIRST else (e, r)
    try:
        with virtual_device() as log:
            outs = call(*args, **o)
    except Mixed as exc:
        raise Violation(f"{label}: with tensors on another device than the CPU, {exc}", key="device")
    except Exception as exc:  # noqa: BLE001  not something the virtual device can do
        ctx.count("device_declined")
        ctx.count(f"device_declined_{type(exc).__name__}")
        return
    outs = outs if isinstance(outs, (tuple, list)) else (outs,)
    for i, (v, w) in enumerate(zip(outs, plain)):
        if not is_virtual(v):
            raise Violation(f"{label}: with tensors on another device than the CPU, output {i} is on {v.device}", key="device")
        v = real(v)
        if v.dtype != w.dtype or v.shape != w.shape:
            raise Violation(f"{label}: output {i} is {v.dtype} {tuple(v.shape)} on another device than the CPU", key="device")
        ok = lib.torch.isclose(v.double(), w.double(), rtol=1e-2, atol=0.5, equal_nan=True)
        if w.is_floating_point() and not bool((ok | (w.abs() > 40)).all()):
            ctx.count("device_values_differ")
    ctx.count("device_outputs", len(outs))
    ctx.stat_max("virtual_ops", log.get("virtual_ops", 0))
    ctx.nontrivial(f"device {fn} {sorted(o)} {spec['seed']}")
