"""C22: silence around the signals does not matter; neither does a signal
shorter than the filter."""
import numpy as np

from ..calls import FNS, cg_tol, expect, judge, mode_of, out_digest, rand_call, run, same
from ..core import Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "calls repeated after inserting zeros before and/or after both signals (1 sample to more than the filter, sizes"
    " chosen to reach and cross powers of two and other fast transform sizes), short signals against filters up to ten"
    " times as long judged by the definition, and signals followed by other material against the definition;"
    " non-trivial: padded length differs; distinct by output digest"
)
MUST = ["padded_calls", "short_calls", "sweep_calls"]
ASSUMPTIONS = ["no zero_mean when padding (the mean is over the padded signal)"]


def cases(tier, seed):
    rng = rng_of(seed, 22)
    # filters about as long as the signals, transform sizes around a power of two
    for i, (L, T) in enumerate(((1025, 1025), (1020, 1029), (1028, 1022), (1026, 1024), (513, 513), (500, 526), (520, 505),
                                (257, 257))):
        for be in ("np", "pt"):
            yield dict(seed=int(rng.integers(2**31)), backend=be, dtype="f64", L=L, n_ref=1, n_est=1, batch=[], T=T,
                       kind="white", snr=0.0, leak=-9.0, taps=1, rel="short", fn=("bss_eval_sources", "sdr")[(i + seed) % 2],
                       opts={"load_diag": 0.01}, level="top")
    rels = ["pad", "pad", "short", "sweep", "pad", "short"]
    for i in range({"quick": 3120, "thorough": 80000}[tier]):
        rel = rels[i % len(rels)]
        c = rand_cfg(rng, budget=2e8, max_c=4 if rel == "short" else 8)
        c["rel"] = rel
        c = rand_call(rng, c, cg=0.15, zm=0.0 if rel != "short" else 0.2)
        L = c["L"]
        if rel == "pad":
            k = lambda: int(pick(rng, [0, 1, 2, L - 1, L, L + 1, 3 * L + 7, int(rng.integers(1, 700))]))
            a, b = k(), k()
            if a + b == 0:
                b = 1 + L
            if rng.random() < 0.35:  # land on or next to a power of two
                n = 1 << int(np.ceil(np.log2(c["T"] + a + 1)))
                b = max(0, n - c["T"] - a + int(rng.integers(-1, 2)) - (L if rng.random() < 0.5 else 0))
            c["pads"] = [a, b]
        elif rel == "short":
            if "si_" in c["fn"]:
                c["fn"] = c["fn"].replace("si_", "")
                c["L"] = L = int(pick(rng, [4, 8, 17, 33, 64]))
            c["n_ref"] = 1 if rng.random() < 0.6 else c["n_ref"]
            if L < 4:
                c["L"] = L = int(pick(rng, [4, 8, 16, 33, 64, 100]))
            c["L"] = L = min(L, 200)
            c["T"] = int(rng.integers(2, max(3, L + 2)))
            c["kind"] = pick(rng, ["white", "uniform", "laplace", "ints"])
            c["taps"], c["dc"] = 1, 0.0
            c["opts"].pop("use_cg_iter", None)
            if c["n_ref"] != c["n_est"]:
                c["opts"].pop("compute_permutation", None)
                if c["fn"] in ("sdr_loss",):
                    c["opts"]["pairwise"] = True
            if c["n_ref"] > 1 or rng.random() < 0.3:
                # C long filters on C short signals span everything: only loading keeps this posed
                c["opts"]["load_diag"] = float(pick(rng, [1e-2, 0.1]))
        else:
            c["base"] = int(pick(rng, [64, 100, 128, 243, 256, 500, 512, 1000, 1024]))
            c["n_ref"], c["n_est"], c["batch"] = min(c["n_ref"], 3), min(c["n_est"], 3), []
            if c["n_ref"] != c["n_est"]:
                c["opts"].pop("compute_permutation", None)
                if c["fn"] in ("sdr_loss", "si_sdr_loss"):
                    c["opts"]["pairwise"] = True
            c["L"] = min(c["L"], 33)
            c["T"] = max(c["base"] - 3 * c["L"], 2 * c["n_ref"] * c["L"] + 20, 30)
        yield c


def pad(x, a, b):
    return np.concatenate([np.zeros(x.shape[:-1] + (a,), x.dtype), x, np.zeros(x.shape[:-1] + (b,), x.dtype)], -1)


def check(spec, ctx):
    ref, est = make_cast(spec)
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}] L={spec['L']} {spec['opts']} {spec['batch']},{spec['n_ref']},{spec['n_est']},{spec['T']}"
    exp = expect(spec, ref, est)
    cg = "use_cg_iter" in spec["opts"]
    if spec["rel"] == "short":
        if exp.cond > (1e5 if spec["dtype"] == "f32" else 1e9):
            ctx.count("too_ill_conditioned")
            return
        if not np.all(np.any(ref != 0, -1)) or not np.all(np.any(est != 0, -1)):
            return
        if spec["opts"].get("zero_mean") and any(np.any(np.ptp(x, -1) < 1e-3 * np.abs(x).max(-1)) for x in (ref, est)):
            ctx.count("silent_after_centering")
            return
        out = run(spec, ref, est)
        ctx.count("short_calls")
        ctx.count("filter_longer_than_signal", spec["L"] > spec["T"])
        judge(ctx, spec, out, exp, lab)
        ctx.nontrivial(out_digest(out))
        return
    base = run(spec, ref, est)
    if spec["rel"] == "pad":
        a, b = spec["pads"]
        out = run(spec, pad(ref, a, b), pad(est, a, b))
        ctx.count("padded_calls")
        same(ctx, spec, base, out, exp, f"{lab}: padded by {a} and {b} zeros", extra_tol=cg_tol(spec, exp))
        if not cg:
            judge(ctx, spec, out, exp, f"{lab} padded by {a} and {b} zeros")
        ctx.nontrivial(out_digest(out))
        return
    # sweep every length around the sizes where transforms change
    n0 = spec["base"]
    rng = rng_of(spec["seed"], 220)
    T = spec["T"]
    lens = sorted({n0 + d for d in (-spec["L"] - 1, -spec["L"], -spec["L"] + 1, -2, -1, 0, 1, 2)} | {T + 1, T + 2})
    for n in lens:
        if n <= T:
            continue
        a = int(rng.integers(0, n - T + 1))
        out = run(spec, pad(ref, a, n - T - a), pad(est, a, n - T - a))
        ctx.count("sweep_calls")
        same(ctx, spec, base, out, exp, f"{lab}: {a} zeros before and {n - T - a} after", extra_tol=cg_tol(spec, exp))
    if not cg:
        judge(ctx, spec, base, exp, lab)
    ctx.nontrivial(out_digest(base))
