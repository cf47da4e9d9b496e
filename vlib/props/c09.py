"""C09: batch elements do not influence each other, and the batch layout does not matter."""
import numpy as np

from ..calls import FNS, cg_tol, expect, mode_of, out_digest, rand_call, run, same
from ..env import lib
from ..lib_free import slice_out
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "batched calls (1 to 5 leading axes, up to 1025 elements) are compared with the calls on single elements,"
    " with the same batch flattened, split, reversed, and with the other elements replaced by unrelated data at"
    " extreme levels; non-trivial: at least two batch elements with different finite scores; distinct by output digest"
)
MUST = ["values_compared", "single", "flat", "foreign", "big_batches", "split", "shared_signals"]

BIG = [FNS, ["sdr_loss"], ["bss_eval_sources"], ["pairwise_sdr_loss", "sdr_pit_loss", "sdr"]]


def cases(tier, seed):
    rng = rng_of(seed, 9)
    n = {"quick": 1800, "thorough": 40000}[tier]
    B = [[2], [3], [5], [2, 2], [3, 2], [1, 4], [2, 1, 3], [7], [8], [9], [16], [17], [31], [33], [2, 2, 2, 2], [1, 1, 2]]
    for i in range(n):
        b = B[i % len(B)]
        c = rand_cfg(rng, budget=6e8, batch=b, max_c=6)
        c["rel"] = ["single", "flat", "foreign", "split"][(i // len(B)) % 4]
        if c["rel"] == "foreign" and rng.random() < 0.4:
            c["kind"] = "ar"
            c["L"] = max(c["L"], int(rng.integers(4, 24)))
            c["T"] = max(c["T"], 3 * c["L"] * c["n_ref"])
            c["taps"] = c["L"]
        elif i % 11 == 3:
            # almost identical elements whose best pairings differ
            c["twin"] = float(pick(rng, [1e-4, 1e-3, 1e-2] if c["dtype"] == "f64" else [1e-3, 1e-2, 3e-2]))
            c["dc"] = c["scale"] = 0.0
            c["n_ref"] = max(c["n_ref"], 2)
            c["T"] = max(c["T"], 3 * c["L"] * c["n_ref"])
        if i % 5 == 1 and not c.get("twin"):
            c["share"] = True
        c = rand_call(rng, c, cg=0.7 if c["kind"] == "ar" else 0.25)
        if c["rel"] == "foreign" and mode_of(c["fn"], c["opts"]) == "perm" and "clamp_db" not in c["opts"]:
            # extreme elements may have scores of both infinities, which is refused
            # by design when there is a pairing to find
            if rng.random() < 0.5:
                c["mild"] = True
            else:
                c["opts"]["clamp_db"] = 100.0
        yield c
    big = [64, 65, 100, 128, 129, 257, 300, [65, 1], [2, 65], 513, 1025]
    for i, nb in enumerate(big * (1 if tier == "quick" else 6)):
        for be in ("np", "pt"):
            for k, fns in enumerate(BIG):
                b = nb if isinstance(nb, list) else [nb]
                many = int(np.prod(b)) > 300
                if many and tier == "quick" and (k + (be == "pt")) % 2:
                    continue
                c = rand_cfg(rng, L=[1, 2, 3, 5, 8][k > 0:], batch=b, max_c=2 if many else 3, backend=be, budget=1e12)
                c["T"] = int(rng.integers(60, 200))
                c["rel"] = ["single", "flat", "foreign", "split"][(i + k) % 4]
                c["mild"] = True
                if fns == ["sdr_loss"]:
                    c["n_est"] = c["n_ref"]
                c = rand_call(rng, c, fns=fns, cg=0.2)
                if fns == ["sdr_loss"]:
                    c["opts"].pop("pairwise", None)
                yield c


def foreign(rng, R, E, j, spec):
    """element j: unrelated data of some extreme kind (default: noise of any level)"""
    C, T = R.shape[1:]
    M = E.shape[1]
    k = rng.integers(5)
    if spec.get("mild"):
        return
    if k == 0:  # systems which are solved at once
        R[j] = 1e-7 * rng.standard_normal((C, T))
        E[j] = 1e-4 * rng.standard_normal((M, T))
        at = rng.permutation(T)[:C]
        for c in range(C):
            R[j, c, at[c]] = 10.0 ** rng.uniform(-3, 3)
        for m in range(M):
            E[j, m, at[m % C]] = 10.0 ** rng.uniform(-3, 3)
            E[j, m, int(rng.integers(T))] += 1.0
    elif k == 1:  # perfect estimates
        for m in range(M):
            E[j, m] = R[j, m % C]
    elif k == 2 and (mode_of(spec["fn"], spec["opts"]) != "perm" or "bss" not in spec["fn"]):
        E[j] = 0
    elif k == 3:  # all channels almost the same
        R[j] = R[j, :1] + 1e-2 * np.abs(R[j]).max() * rng.standard_normal((C, T))
        E[j] = R[j, :1] + 0.1 * np.abs(R[j]).max() * rng.standard_normal((M, T))


def share(rng, R, E):
    """several elements with the same references, or the same estimates, or the same of both"""
    nb = len(R)
    k = int(rng.integers(5))
    if k == 0:  # the ends are equal, the middle is not
        R[-1] = R[0]
    elif k == 1:  # one element is the odd one out
        j = int(rng.integers(nb))
        R[[i for i in range(nb) if i != j]] = R[j - 1]
    elif k == 2:  # everything equal but one sample or channel
        R[:] = R[:1]
        j, c = int(rng.integers(nb)), int(rng.integers(R.shape[1]))
        R[j, c] = R[j, c, ::-1].copy()
    elif k == 3:
        E[-1] = E[0]
    else:
        R[-1], E[-1] = R[0], E[0]
        if rng.random() < 0.5:
            R[-1, -1] *= 2  # one channel louder


def check(spec, ctx):
    ref, est = make_cast(spec)
    b = tuple(spec["batch"])
    nb = int(np.prod(b))
    R, E = ref.reshape((nb,) + ref.shape[-2:]), est.reshape((nb,) + est.shape[-2:])
    if spec.get("share") and nb > 1:
        R, E = R.copy(), E.copy()
        share(rng_of(spec["seed"], 91), R, E)
        ref, est = R.reshape(ref.shape), E.reshape(est.shape)
        ctx.count("shared_signals")
    a = run(spec, ref, est)
    rng = rng_of(spec["seed"], 90)
    ctx.count(spec["rel"])
    if nb >= 64:
        ctx.count("big_batches")
    flat = slice_out(a, b, None)
    lab = f"{spec['fn']}[{spec['backend']}]"

    def one(i, o, what):
        exp = expect(spec, R[i], E[i])
        same(ctx, spec, slice_out(flat, (nb,), i), o, exp, f"{lab} element {i} of batch {list(b)} {what}",
             extra_tol=cg_tol(spec, exp), scale=2.0)

    idx = list(range(nb)) if nb <= 6 else sorted({0, nb - 1, nb // 2, *map(int, rng.integers(0, nb, 4))})
    if spec["rel"] == "single":
        for i in idx:
            one(i, run(spec, R[i], E[i]), "against the call on this element alone")
    elif spec["rel"] == "flat":
        o = run(spec, R, E)
        rev = run(spec, R[::-1].copy(), E[::-1].copy())
        for i in idx:
            one(i, slice_out(o, (nb,), i), "against the flattened batch")
            one(i, slice_out(rev, (nb,), nb - 1 - i), "against the reversed batch")
    elif spec["rel"] == "split":
        k = int(rng.integers(1, nb)) if nb > 1 else 1
        o1 = run(spec, R[:k], E[:k])
        o2 = run(spec, R[k:], E[k:]) if k < nb else None
        for i in idx:
            one(i, slice_out(o1, (k,), i) if i < k else slice_out(o2, (nb - k,), i - k), f"against the batch split at {k}")
    else:
        for i in idx[:4]:
            R2 = (rng.standard_normal(R.shape) + rng.uniform(-0.3, 0.3, (nb, 1, 1))) * 10.0 ** rng.uniform(-4, 6, (nb, 1, 1))
            E2 = rng.standard_normal(E.shape) * 10.0 ** rng.uniform(-4, 6, (nb, 1, 1))
            for j in range(nb):
                foreign(rng, R2, E2, j, spec)
            R2, E2 = R2.astype(R.dtype), E2.astype(E.dtype)
            R2[i], E2[i] = R[i], E[i]
            o = run(spec, R2.reshape(ref.shape), E2.reshape(est.shape))
            one(i, slice_out(slice_out(o, b, None), (nb,), i), "with unrelated data in the other elements")
    s = flat.sdr[np.isfinite(flat.sdr)]
    if nb > 1 and s.size and np.unique(np.round(s, 3)).size > 1:
        ctx.nontrivial(out_digest(a))
