"""C14: zero_mean."""
import numpy as np

from ..calls import FNS, cg_tol, expect, out_digest, rand_call, run, same
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "with zero_mean=True every call is repeated after adding an independent constant to every channel (or to the"
    " references or the estimates only) and after removing the means outside the library; all executions must"
    " agree within the rounding bound; with zero_mean=False a call on signals with an offset must agree with the"
    " definition applied to the signals as they are; non-trivial: offsets of 0.003 to 10 times the level, overall levels over ten decades;"
    " signals up to 270000 samples whose mean drifts; distinct by output digest"
)
MUST = ["values_compared", "offset_both", "offset_ref", "offset_est", "manual", "kept", "f_si", "f_gen", "long"]


def cases(tier, seed):
    rng = rng_of(seed, 14)
    for i in range({"quick": 2400, "thorough": 64000}[tier]):
        c = rand_cfg(rng, budget=8e8, max_c=8)
        c["dc"] = 0.0
        c["rel"] = ["offset_both", "offset_ref", "offset_est", "manual", "kept"][i % 5]
        c["level_dc"] = float(pick(rng, [0.003, 0.1, 0.5, 2, 10]))
        c["gain"] = float(pick(rng, [0, 0, -4.5, -3, 3, 6]))
        c = rand_call(rng, c, zm=0.0, cg=0.15 if c["rel"] != "kept" else 0.0)
        if c["rel"] != "kept":
            c["opts"]["zero_mean"] = True
        elif rng.random() < 0.5:
            c["opts"]["zero_mean"] = False
        yield c
    # long signals whose beginning tells nothing about the rest
    k = 0
    for i in range({"quick": 1, "thorough": 8}[tier]):
        for fn in FNS:
            for be in ("np", "pt"):
                k += 1
                c = dict(seed=seed * 1009 + k, backend=be, dtype=("f64", "f32")[k % 2], L=1 if "si_" in fn else 1 + k % 5,
                         n_ref=2, n_est=2, batch=[[], [2]][k % 3 == 0], kind="white", snr=15.0, leak=-9.0, taps=2, late=True,
                         T=int(pick(rng, [5000, 33000, 66000, 132000, 270000])),
                         rel=["manual", "offset_both", "kept"][k % 3], level_dc=1.0, fn=fn)
                c = rand_call(rng, c, fns=[fn], zm=0.0, cg=0.0)
                if c["rel"] != "kept":
                    c["opts"]["zero_mean"] = True
                yield dict(c, long=True)


def check(spec, ctx):
    ref, est = make_cast(spec)
    # overall level, in decades
    ref, est = ((x * 10.0 ** spec.get("gain", 0.0)).astype(x.dtype) for x in (ref, est))
    rng = rng_of(spec["seed"], 140)
    rel = spec["rel"]

    def off(x):
        s = x.astype(np.float64).std(-1, keepdims=True)
        o = spec["level_dc"] * s * rng.uniform(0.5, 1, s.shape) * rng.choice([-1.0, 1.0], s.shape)
        return (x + o).astype(x.dtype)

    ref2 = off(ref) if rel in ("offset_both", "offset_ref", "manual", "kept") else ref
    est2 = off(est) if rel in ("offset_both", "offset_est", "manual", "kept") else est
    ctx.count(rel)
    if spec.get("long"):
        ctx.count("long")
    ctx.count("f_si" if "si_" in spec["fn"] else "f_gen")
    lab = f"{spec['fn']}[{spec['backend']}] {rel}"
    a = run(spec, ref2, est2)
    if rel == "kept":
        from ..calls import judge

        judge(ctx, spec, a, expect(spec, ref2, est2), lab)
    elif rel == "manual":
        r = ref2.astype(np.float64)
        e = est2.astype(np.float64)
        r = (r - r.mean(-1, keepdims=True)).astype(ref.dtype)
        e = (e - e.mean(-1, keepdims=True)).astype(ref.dtype)
        o = dict(spec["opts"], zero_mean=False)
        b = run(dict(spec, opts=o), r, e)
        exp = expect(spec, ref2, est2)
        same(ctx, spec, a, b, exp, lab, extra_tol=cg_tol(spec, exp), scale=2.0)
    else:
        b = run(spec, ref, est)
        exp = expect(spec, ref2, est2)
        same(ctx, spec, a, b, exp, lab, extra_tol=cg_tol(spec, exp), scale=2.0)
    if np.isfinite(a.sdr).any():
        ctx.nontrivial(out_digest(a))
