"""C08: scores do not depend on the gain or the sign of any channel."""
import numpy as np

from ..calls import cg_tol, expect, out_digest, rand_call, run, same
from ..signals import make_cast, pick, rand_cfg, rng_of
from ..env import lib

RULE = (
    "each call is repeated with every channel of every batch element multiplied by its own non-zero gain"
    " (powers of two, random in 1e-3..1e3, signs, extreme levels: norms down to 3e-6 and up to 1e15, or norms,"
    " levels or peaks next to one), and"
    " both executions must agree within the rounding bound; non-trivial: finite values compared under gains"
    " differing by more than 6 dB; distinct by output digest"
)
ASSUMPTIONS = ["signal norms stay above the documented normalisation floor 1e-6 and squares do not overflow"]
MUST = ["values_compared", "mode_pow2", "mode_tiny", "mode_huge", "mode_sign", "mode_random", "mode_all_tiny", "mode_near_unit"]
MODES = ["pow2", "random", "sign", "tiny", "huge", "all_tiny", "mixed", "near_unit"]


def cases(tier, seed):
    rng = rng_of(seed, 8)
    for i in range({"quick": 2880, "thorough": 64000}[tier]):
        c = rand_cfg(rng, budget=8e8)
        c["scale"] = 0.0
        c["gain"] = MODES[i % len(MODES)]
        yield rand_call(rng, c, cg=0.15)


def gains(spec, x, which):
    rng = rng_of(spec["seed"], 80 + which)
    sh = x.shape[:-1] + (1,)
    m = spec["gain"]
    n = np.linalg.norm(x.astype(np.float64), axis=-1, keepdims=True)
    if m == "pow2":
        g = 2.0 ** rng.integers(-9, 30, sh)
    elif m == "random":
        g = 10.0 ** rng.uniform(-3, 3, sh)
    elif m == "sign":
        g = np.ones(sh)
    elif m == "tiny":  # one channel nearly silent
        g = np.ones(sh)
        sel = rng.random(sh) < 0.4
        g = np.where(sel, 10.0 ** rng.uniform(-5.5, -2, sh) / n, g)
    elif m == "all_tiny":
        g = 10.0 ** rng.uniform(-5.5, -4, sh) / n
    elif m == "near_unit":  # norm, level or peak of every channel close to, but not, one
        k = int(rng_of(spec["seed"], 79).integers(4))
        x = x.astype(np.float64)
        n = [n, n / np.sqrt(x.shape[-1]), np.abs(x).max(-1, keepdims=True), n][k]
        d = 10.0 ** rng.uniform(-5, -1.5) * rng.choice([-1.0, 1.0], sh if k < 3 else (1,) * x.ndim)
        g = (1 + d) / n
    elif m == "huge":
        g = 10.0 ** rng.uniform(3, 15, sh) / n
    else:
        g = 10.0 ** rng.uniform(-5.3, 9, sh) / n
    return g * rng.choice([-1.0, 1.0], sh)


def check(spec, ctx):
    ref, est = make_cast(spec)
    g = gains(spec, ref, 0), gains(spec, est, 1)
    ref2 = (ref.astype(np.float64) * g[0]).astype(ref.dtype)
    est2 = (est.astype(np.float64) * g[1]).astype(est.dtype)
    a = run(spec, ref, est)
    b = run(spec, ref2, est2)
    exp = expect(spec, ref, est)
    ctx.count("mode_" + spec["gain"])
    # one more rounding of every sample
    same(ctx, spec, a, b, exp, f"{spec['fn']}[{spec['backend']}] after gains ({spec['gain']})",
         extra_tol=cg_tol(spec, exp), scale=3.0)
    if np.isfinite(a.sdr).any():
        ctx.nontrivial(out_digest(a))
