"""C07: clamp_db."""
import numpy as np

from ..calls import FNS, expect, mode_of, out_digest, rand_call, run
from ..compare import close_db
from ..core import Violation
from ..designed import from_coherence
from ..env import lib
from ..oracle import clamp_eps
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "random calls with a clamping limit from 0 to 300 dB on ordinary, perfect, scaled-copy, orthogonal and"
    " designed (square cosine within 1e-12 of 0 or 1) estimates; all values must be within the limits and,"
    " where no pairing is involved, equal the clamped value of the same call without clamping; non-trivial:"
    " at least one value was limited; distinct by output digest"
)
MUST = ["values_bounded", "hit_upper", "hit_lower", "clip_compared", "f32_hit_upper"]


def cases(tier, seed):
    rng = rng_of(seed, 7)
    for i in range({"quick": 2520, "thorough": 64000}[tier]):
        if i % 2:
            c = rand_cfg(rng, budget=4e8)
            c["scen"] = pick(rng, ["plain", "perfect", "copy", "filtered", "disjoint"])
            if c["scen"] != "plain":
                c["n_est"] = c["n_ref"]
        else:
            C = pick(rng, [1, 2, 3, 4, 6])
            c = dict(seed=int(rng.integers(2**31)), backend=pick(rng, ["np", "pt"]), dtype=pick(rng, ["f32", "f64"]),
                     L=1, n_ref=C, n_est=C if rng.random() < 0.6 else pick(rng, [1, 2, 3, 5]),
                     batch=pick(rng, [[], [2], [3, 2]]), T=40, scen="designed")
        # an estimate orthogonal to every reference has no SIR (0/0)
        fns = [f for f in FNS if "bss" not in f] if c["scen"] == "disjoint" else None
        c = rand_call(rng, c, fns=fns, clamp=0.0, cg=0.25 if c["scen"] in ("plain", "filtered") else 0)
        if c["scen"] == "designed":
            c["L"] = 1
            c["opts"].pop("use_cg_iter", None)
        c["opts"].pop("load_diag", None)
        lim = pick(rng, [0, 0.0, 0.1, 1.0, 3, 10, 20.0, 30, 60.0, 80.0, 100, 120, 150.0, 156.0, 200.0, 300.0])
        c["clamp"] = lim
        yield c


def signals(spec):
    if spec["scen"] == "designed":
        rng = rng_of(spec["seed"], 70)
        nb = int(np.prod(spec["batch"])) if spec["batch"] else 1
        refs, ests = [], []
        for _ in range(nb):
            w = 10.0 ** rng.uniform(-13, -1, (spec["n_ref"], spec["n_est"]))
            for m in range(spec["n_est"]):
                if rng.random() < 0.6:
                    k = rng.integers(spec["n_ref"])
                    w[:, m] = w[:, m] / spec["n_ref"]
                    w[k, m] = (1 - 10.0 ** rng.uniform(-12, -1)) * (1 - w[:, m].sum() + w[k, m])
            w /= np.maximum(w.sum(0), 1.0)
            r, e = from_coherence(rng, w, spec["T"])
            refs.append(r), ests.append(e)
        sh = tuple(spec["batch"])
        dt = lib.np_dtype(spec["dtype"])
        return (np.stack(refs).reshape(sh + refs[0].shape).astype(dt), np.stack(ests).reshape(sh + ests[0].shape).astype(dt))
    ref, est = make_cast(spec)
    if spec["scen"] == "perfect":
        est = ref.copy()
    elif spec["scen"] == "disjoint":
        # no common sample, at any lag
        L, T = spec["L"], ref.shape[-1]
        ref[..., T // 3 :] = 0
        est[..., : min(T // 3 + L, T - 1)] = 0
        ref[..., 0] += 1
        est[..., -1] += 1
    elif spec["scen"] == "copy":
        est = (ref * 0.25).astype(ref.dtype)
    elif spec["scen"] == "filtered":
        L = spec["L"]
        ref[..., -L:] = 0
        h = rng_of(spec["seed"], 71).standard_normal(L)
        f = np.apply_along_axis(lambda v: np.convolve(v, h)[: ref.shape[-1]], -1, ref.astype(np.float64))
        est = f.astype(ref.dtype)
    return ref, est


def check(spec, ctx):
    ref, est = signals(spec)
    lim = float(spec["clamp"])
    u = lib.eps_of(spec["dtype"])
    out = run(spec, ref, est, extra={"clamp_db": spec["clamp"]})
    # the limits are reached through eps = 1/(1+10^(lim/10)) held in precision u
    slack = 1e-5 * (1 + lim) if spec["dtype"] == "f32" else 1e-9 * (1 + lim)
    hit = 0
    label = f"{spec['fn']}[{spec['backend']},{spec['dtype']}]"
    for which, v in out.metrics():
        if np.isnan(v).any():
            raise Violation(f"{label}: NaN with clamp_db={lim}", key="nan")
        ctx.count("values_bounded", v.size)
        ctx.stat_max("max_excess_dB", np.max(np.abs(v)) - lim)
        if np.any(np.abs(v) > lim + slack):
            raise Violation(f"{label}: {which} = {v.flat[int(np.argmax(np.abs(v)))]} exceeds clamp_db = {lim}", key="bound")
        # near the upper limit 1 - eps is rounded to a multiple of u
        nearu = v > lim - 0.2
        nearl = v < -lim + 1e-3
        hit += int(nearu.sum() + nearl.sum())
        ctx.count("hit_upper", int(nearu.sum()))
        ctx.count("hit_lower", int(nearl.sum()))
        if spec["dtype"] == "f32":
            ctx.count("f32_hit_upper", int(nearu.sum()))
    if mode_of(spec["fn"], spec["opts"]) != "perm":
        free = run(spec, ref, est)
        eps = clamp_eps(lim)
        for (which, v), (_, w) in zip(out.metrics(), free.metrics()):
            if np.isnan(w).any():
                raise Violation(f"{label}: NaN without clamping", key="nan")
            a = np.clip(w, -lim, lim)
            # identical computation up to the final limit: only rounding of 1 - eps
            close_db(v, a, 8 * u, u, label + " against its own unclamped value", which, rel=512)
            ctx.count("clip_compared", v.size)
            inside = np.abs(w) < lim - 0.5
            if lim < (60 if spec["dtype"] == "f32" else 140):
                d = np.abs(v - w)[inside]
                if d.size and np.max(d) > 0.01:
                    raise Violation(f"{label}: {which} changed by {np.max(d)} dB although inside the limits", key="changed")
    if hit:
        ctx.nontrivial(out_digest(out))
