"""C12: the three scores of one call decompose the energy of the estimate."""
import numpy as np

from ..calls import expect, mode_of, out_digest, rand_call, run
from ..compare import gather
from ..core import Violation
from ..env import lib
from ..oracle import coh_of_db
from ..signals import make_cast, rand_cfg, rng_of

RULE = (
    "every recorded call returning SDR, SIR and SAR is checked for 1/(1+10^(-SDR/10)) = the product of the same"
    " expressions of SIR and SAR, SDR not above SIR and SAR, infinite SIR only with one reference; non-trivial:"
    " all three scores of some pair between -60 and 60 dB; distinct by output digest"
)
MUST = ["identities_checked", "single_reference", "with_cg", "without_permutation"]


def cases(tier, seed):
    rng = rng_of(seed, 12)
    for i in range({"quick": 2760, "thorough": 72000}[tier]):
        c = rand_cfg(rng, budget=8e8, max_c=10)
        yield rand_call(rng, c, fns=["bss_eval_sources", "si_bss_eval_sources"], clamp=0.0, cg=0.2)


def check(spec, ctx):
    ref, est = make_cast(spec)
    out = run(spec, ref, est)
    u = lib.eps_of(spec["dtype"])
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}]"
    s, i, a = out.sdr, out.sir, out.sar
    for n, v in out.metrics():
        if np.isnan(v).any():
            raise Violation(f"{lab}: {n} is NaN", key="nan")
        if v.shape != s.shape:
            raise Violation(f"{lab}: shapes differ", key="shape")
    cs, ci, ca = (coh_of_db(v)[0] for v in (s, i, a))
    # the three come from the same two numbers; values above 1 are cut to 1
    if "use_cg_iter" in spec["opts"]:
        ctx.count("with_cg")
        # the iterative solver leaves coh_sdr > coh_sar by its own error: bounded
        # by 2e-2 once it has converged; nothing can be said about cut values before
        it = spec["opts"]["use_cg_iter"]
        tol_cut = 2e-2 if it >= 10 and expect(spec, ref, est).cond <= 30 else 1.0
    else:
        exp = expect(spec, ref, est)
        tol_cut = 2 * float(np.max(exp.t_sdr) + np.max(exp.t_sar)) + 64 * u
    # error of a coherence recomputed from dB: relative u*|dB| on 1-c
    tol = 64 * u * (1 + np.abs(np.where(np.isfinite(s), s, 0))) * 0.25 + 32 * u
    d = np.abs(cs - ci * ca)
    cut = (np.isposinf(i) | np.isposinf(a) | (ci > 1 - 4 * u) | (ca > 1 - 4 * u))
    ctx.count("identities_checked", s.size)
    ctx.stat_max("identity_error_" + spec["dtype"], np.max(np.where(cut, 0, d)) if d.size else 0)
    bad = d > np.where(cut, np.maximum(tol, tol_cut), tol)
    if np.any(bad):
        k = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Violation(f"{lab}: SDR {s[k]}, SIR {i[k]}, SAR {a[k]} do not belong to one decomposition"
                        f" (difference {d[k]})", key="identity")
    slack = np.where(cut, 10 * tol_cut, 0) + 256 * u * (1 + np.abs(np.where(np.isfinite(s), s, 0)))
    ceil = np.minimum(i, a)
    # compare where it matters: coherences
    m = np.minimum(ci, ca)
    if np.any(cs > m + np.maximum(tol, np.where(cut, tol_cut, 0))):
        raise Violation(f"{lab}: SDR exceeds SIR or SAR", key="order", sdr=s, sir=i, sar=a)
    if spec["n_ref"] == 1:
        ctx.count("single_reference")
        # no interference can exist with a single reference
        lim = -10 * np.log10(max(tol_cut, 1e-16)) - 25
        if "use_cg_iter" not in spec["opts"] and np.any((i < lim) & (s > -20)):
            raise Violation(f"{lab}: SIR {i.min()} dB with a single reference", key="single")
    if not spec["opts"].get("compute_permutation", True):
        ctx.count("without_permutation")
    if np.any((np.abs(s) < 60) & (np.abs(i) < 60) & (np.abs(a) < 60)) or spec["n_ref"] == 1:
        ctx.nontrivial(out_digest(out))
