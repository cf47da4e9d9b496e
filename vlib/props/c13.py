"""C13: the si_ functions are filter_length=1 and the closed form."""
import numpy as np

from ..calls import expect, judge, mode_of, out_digest, rand_call, run, same
from ..compare import check_values
from ..core import Violation
from ..env import lib
from ..signals import edge_signals, make_cast, rand_cfg, rng_of

RULE = (
    "every call of a scale-invariant function is repeated with the corresponding general function at filter"
    " length one and compared with the closed form <e,s>^2/(|s|^2|e|^2 - <e,s>^2) and least squares over the"
    " references; non-trivial: finite scores; distinct by output digest"
)
MUST = ["values_compared", "values_checked", "closed_form"]
PAIRS = {"si_bss_eval_sources": "bss_eval_sources", "si_sdr": "sdr", "si_sdr_loss": "sdr_loss",
         "si_sdr_pit_loss": "sdr_pit_loss", "pairwise_si_sdr_loss": "pairwise_sdr_loss"}


def cases(tier, seed):
    rng = rng_of(seed, 13)
    for i in range({"quick": 2760, "thorough": 72000}[tier]):
        c = rand_cfg(rng, budget=6e8, L=1, max_c=12)
        yield rand_call(rng, c, fns=list(PAIRS))
    for c in edge_signals(seed + 3, taps=(1,), n=1 if tier == "quick" else 12):
        yield rand_call(rng, c, fns=list(PAIRS))


def check(spec, ctx):
    ref, est = make_cast(spec)
    a = run(spec, ref, est)
    g = PAIRS[spec["fn"]]
    b = run(spec, ref, est, fn=g)
    exp = expect(spec, ref, est)
    same(ctx, spec, a, b, exp, f"{spec['fn']} against {g}(filter_length=1) [{spec['backend']}]", scale=0.25)
    judge(ctx, spec, a, exp)
    # closed form, without the machinery of the reference model
    r, e = ref.astype(np.float64), est.astype(np.float64)
    if spec["opts"].get("zero_mean"):
        r, e = r - r.mean(-1, keepdims=True), e - e.mean(-1, keepdims=True)
    x = np.einsum("...ct,...dt->...cd", r, e) ** 2
    n = (r**2).sum(-1)[..., :, None] * (e**2).sum(-1)[..., None, :]
    ld = spec["opts"].get("load_diag") or 0.0
    c = x / n / (1 + ld)
    if np.max(np.abs(c - exp.c_sdr)) > 1e-9 * (1 + spec["T"] ** 0.5):
        # the two models of the definition disagree: not a statement about the library
        raise RuntimeError("the closed form and the reference model disagree")
    ctx.count("closed_form", c.size)
    if np.isfinite(a.sdr).any():
        ctx.nontrivial(out_digest(a))
