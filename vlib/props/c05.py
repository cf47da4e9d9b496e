"""C05: the numpy and torch backends agree."""
import numpy as np

from ..calls import cg_tol, expect, out_digest, rand_call, run, same
from ..signals import long_filters, make_cast, rand_cfg, rng_of

RULE = (
    "random configurations, functions and options (direct and iterative solver); the same samples go to both"
    " backends and the recorded outputs must agree within twice the rounding bound of the problem; non-trivial:"
    " finite values compared; distinct by output digest"
)
MUST = ["values_compared", "cg_calls", "direct_calls"]


def cases(tier, seed):
    for i, c in enumerate(long_filters(seed + 2, 1 if tier == "quick" else 6)):
        yield dict(c, backend="np", fn=("bss_eval_sources", "sdr")[i % 2], opts={"use_cg_iter": 30} if i > 3 else {})
    rng = rng_of(seed, 50)
    for i in range({"quick": 2520, "thorough": 64000}[tier]):
        c = rand_cfg(rng, budget=1.2e9 if tier == "quick" else 1e10, max_c=12, backend="np")
        yield rand_call(rng, c, cg=0.3)


def check(spec, ctx):
    ref, est = make_cast(spec)
    a = run(spec, ref, est, backend="np")
    b = run(spec, ref, est, backend="pt")
    exp = expect(spec, ref, est)
    cg = "use_cg_iter" in spec["opts"]
    ctx.count("cg_calls" if cg else "direct_calls")
    for (w, x), (_, y) in zip(a.metrics(), b.metrics()):
        d = np.abs(x - y)
        d = d[np.isfinite(d)]
        if d.size and cg and x.shape == y.shape:
            cx, cy = 1 / (1 + 10 ** (-x / 10)), 1 / (1 + 10 ** (-y / 10))
            if a.perm is None or np.array_equal(a.perm, b.perm):
                b_ = "cond<=30" if exp.cond <= 30 else "cond<=100" if exp.cond <= 100 else "cond>100"
                ctx.stat_max(f"cg_difference_{spec['dtype']}_{b_}", np.max(np.abs(cx - cy)))
    same(ctx, spec, a, b, exp, f"numpy against torch, {spec['fn']}", extra_tol=cg_tol(spec, exp))
    if np.isfinite(a.sdr).any():
        ctx.nontrivial(out_digest(a))
