"""C10: reordering channels reorders the scores and the pairing, nothing else."""
import numpy as np

from ..calls import cg_tol, expect, mode_of, out_digest, rand_call, run, same
from ..lib_free import Rec
from ..signals import make_cast, rand_cfg, rng_of

RULE = (
    "each call is repeated with the references and the estimates reordered by independent random permutations"
    " (per call, and per batch element), and the outputs mapped back must agree within the rounding bound;"
    " non-trivial: at least two channels and a non-identity reordering; distinct by output digest"
)
MUST = ["values_compared", "perm_mode", "pair_mode", "diag_mode", "rectangular"]


def cases(tier, seed):
    rng = rng_of(seed, 10)
    for i in range({"quick": 2520, "thorough": 64000}[tier]):
        c = rand_cfg(rng, budget=8e8, max_c=10)
        c["per_element"] = bool(i % 3 == 0)
        yield rand_call(rng, c, cg=0.15)


def check(spec, ctx):
    ref, est = make_cast(spec)
    C, M = spec["n_ref"], spec["n_est"]
    b = ref.shape[:-2]
    nb = int(np.prod(b)) if b else 1
    rng = rng_of(spec["seed"], 100)
    mode = mode_of(spec["fn"], spec["opts"])
    n = nb if spec["per_element"] else 1
    pr = np.stack([rng.permutation(C) for _ in range(n)])
    pe = pr if mode == "diag" else np.stack([rng.permutation(M) for _ in range(n)])
    if n != nb:
        pr, pe = np.repeat(pr, nb, 0), np.repeat(pe, nb, 0)
    R, E = ref.reshape((nb, C, -1)), est.reshape((nb, M, -1))
    R2 = np.stack([r[p] for r, p in zip(R, pr)]).reshape(ref.shape)
    E2 = np.stack([e[p] for e, p in zip(E, pe)]).reshape(est.shape)
    a = run(spec, ref, est)
    o = run(spec, R2, E2)
    # map the outputs of the second call back to the order of the first
    def back(v, kind):
        v = v.reshape((nb,) + v.shape[len(b):])
        out = np.empty_like(v)
        for i in range(nb):
            if kind == "pair":
                out[i][np.ix_(pr[i], pe[i])] = v[i]
            elif kind == "rows":  # indexed by reference, holding scores
                out[i][pr[i]] = v[i]
            elif kind == "cols":
                out[i][pe[i]] = v[i]
            elif kind == "perm_rows":  # indexed by reference, holding estimate indices
                out[i][pr[i]] = pe[i][v[i]]
            else:
                out[i][pe[i]] = pr[i][v[i]]
        return out.reshape(b + v.shape[1:])

    from ..compare import check_perm_valid

    if o.perm is not None:
        check_perm_valid(o.perm, b, C, M, spec["fn"])
    if mode == "pair":
        o2 = Rec.map(o, lambda v: back(v, "pair"))
    else:
        tall = C > M
        o2 = Rec(*[None if v is None else back(v, "cols" if tall else "rows") for v in (o.sdr, o.sir, o.sar)],
                 None if o.perm is None else back(o.perm, "perm_cols" if tall else "perm_rows"))
    exp = expect(spec, ref, est)
    ctx.count(mode + "_mode")
    if C != M:
        ctx.count("rectangular")
    same(ctx, spec, a, o2, exp, f"{spec['fn']}[{spec['backend']}] after reordering", extra_tol=cg_tol(spec, exp))
    if max(C, M) > 1 and not (np.all(pr == np.arange(C)) and np.all(pe == np.arange(M))):
        ctx.nontrivial(out_digest(a))
