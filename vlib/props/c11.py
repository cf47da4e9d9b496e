"""C11: filtering of the reference within the allowed length is not a distortion."""
import numpy as np

from ..calls import expect, mode_of, out_digest, rand_call, run
from ..compare import check_values
from ..core import Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of, source

RULE = (
    "estimates made by a causal filter of 1..L taps or a delay of 0..L-1 samples (all positions in rotation)"
    " with the full tail kept must score as undistorted, delays of L or more and advances must not; scores for"
    " growing filter lengths on the same signals must not decrease; non-trivial: the filter is not a plain gain;"
    " distinct by output digest"
)
MUST = ["within_checked", "outside_checked", "monotone_checked", "sar_checked", "extreme_delay"]


def cases(tier, seed):
    rng = rng_of(seed, 11)
    n = {"quick": 2400, "thorough": 64000}[tier]
    long = [200, 255, 256, 257, 300, 301, 383, 511, 512, 513, 601, 640]
    for i in range(n // 16):
        # long filters, every way of computing them
        c = rand_cfg(rng, L=long[i % len(long)], batch=[[], [2]][i % 5 == 0], max_c=2, square=True, budget=1e12,
                     backend=["np", "pt"][i // len(long) % 2], T=500, kinds=["white", "uniform", "laplace", "burst", "ints"])
        if c["L"] > 520:
            c["n_ref"] = c["n_est"] = 1
        c["T"] = 3 * c["L"] * c["n_ref"] + 60
        c["dc"] = 0.0
        c["scen"] = ["fir", "delay_last", "delay", "outside", "advance"][int(rng.integers(5))]
        c = rand_call(rng, c, fns=[["bss_eval_sources"], ["sdr"], ["sdr_loss"], ["sdr_loss"], ["pairwise_sdr_loss"], ["sdr_pit_loss"]][i % 6],
                      clamp=0.0, zm=0.0, load=0.0)
        if c["fn"] == "sdr_loss":
            c["opts"].pop("pairwise", None)
            if i % 6 == 2:
                c["opts"]["pairwise"] = True
        yield c
    for i in range(n):
        sc = ["fir", "delay_last", "delay", "outside", "monotone", "mixture", "delay_last", "advance"][i % 8]
        c = rand_cfg(rng, budget=6e8, max_c=5, square=True,
                     kinds=["white", "uniform", "laplace", "ar", "burst", "ints"])
        if c["L"] == 1 and sc in ("delay_last", "fir", "monotone"):
            c["L"] = int(rng.integers(2, 40))
        c["T"] = max(c["T"], 3 * c["L"] * c["n_ref"] + 60)
        c["dc"] = 0.0
        c["scen"] = sc
        fns = ["bss_eval_sources"] if sc == "mixture" else ["bss_eval_sources", "sdr", "sdr_loss", "pairwise_sdr_loss", "sdr_pit_loss"]
        c = rand_call(rng, c, fns=fns, clamp=0.0, zm=0.0, load=0.0)
        if mode_of(c["fn"], c["opts"]) == "pair" and rng.random() < 0.5 and c["fn"] == "sdr_loss":
            c["opts"].pop("pairwise", None)
        yield c


def check(spec, ctx):
    rng = rng_of(spec["seed"], 110)
    L, C, T = spec["L"], spec["n_ref"], spec["T"]
    dt = lib.np_dtype(spec["dtype"])
    u = lib.eps_of(spec["dtype"])
    b = tuple(spec["batch"])
    nb = int(np.prod(b)) if b else 1
    sc = spec["scen"]
    P = 2 * L + 8  # silence at both ends so that the filtered signals fit
    ref = np.zeros((nb, C, T + 2 * P))
    for i in range(nb):
        for c in range(C):
            ref[i, c, P : P + T] = source(rng, spec["kind"], T)
    ref = ref.astype(dt).astype(np.float64)
    est = np.zeros_like(ref)
    delays = rng.integers(0, L, (nb, C))
    if sc == "delay_last":
        delays[:] = L - 1
        ctx.count("extreme_delay")
    if sc == "outside":
        delays = L + rng.integers(0, L + 1, (nb, C))
    if sc == "advance":
        delays = -1 - rng.integers(0, L + 1, (nb, C))
    for i in range(nb):
        for c in range(C):
            if sc in ("fir", "monotone", "mixture"):
                taps = L if sc != "fir" else int(rng.integers(1, L + 1))
                if sc == "fir" and rng.random() < 0.5:
                    taps = L
                h = rng.standard_normal(taps)
                h[-1] += np.sign(h[-1]) * 0.5
                v = np.convolve(ref[i, c], h)[: ref.shape[-1]]
                if sc == "mixture":
                    for k in range(C):
                        v = v + np.convolve(ref[i, k], rng.standard_normal(L))[: ref.shape[-1]]
            else:
                v = rng.choice([-1, 1]) * rng.uniform(0.1, 5) * np.roll(ref[i, c], delays[i, c])
            est[i, c] = v
    if sc == "monotone":
        est += 0.3 * np.std(est) * rng.standard_normal(est.shape)
    ref, est = ref.astype(dt).reshape(b + ref.shape[1:]), est.astype(dt).reshape(b + est.shape[1:])
    out = run(spec, ref, est)
    exp = expect(spec, ref, est)
    mode = mode_of(spec["fn"], spec["opts"])
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}] {sc}"
    got = out.sdr
    if mode == "pair":
        got = np.diagonal(got, axis1=-2, axis2=-1)
    elif mode == "perm" and out.perm is not None and sc in ("fir", "delay", "delay_last"):
        # each estimate is an undistorted version of its reference: no other pairing is as good
        if not np.all(out.perm == np.arange(C)):
            raise Violation(f"{lab}: undistorted estimates are not paired with their references: {out.perm.tolist()}", key="perm")
    if sc in ("fir", "delay", "delay_last"):
        # what rounding (of the samples of the estimate as well) allows
        t = np.diagonal(exp.t_sdr, axis1=-2, axis2=-1) + 8 * u
        floor = -10 * np.log10(np.minimum(2 * t, 0.5))
        ctx.count("within_checked", got.size)
        ctx.stat_max("minus_lowest_SDR_within_" + spec["dtype"], -np.min(got))
        if mode == "perm" and out.perm is None:
            bad = np.sort(got, -1) < np.min(floor) - 3
        else:
            bad = got < floor - 3
        if np.any(bad):
            raise Violation(f"{lab}: SDR {got[bad].min()} dB for an estimate which is a filtered reference"
                            f" (length allowed {L}, delays {delays.tolist() if 'delay' in sc else None}), at least {floor.min()} expected", key="within")
    elif sc in ("outside", "advance"):
        from ..calls import judge

        judge(ctx, spec, out, exp)
        ctx.count("outside_checked", got.size)
        if spec["kind"] == "white" and T > 40 * L * C and np.any(got > 6):
            raise Violation(f"{lab}: SDR {got.max()} dB for a shift that the filter cannot make", key="outside")
    elif sc == "mixture":
        t = np.max(exp.t_sar) + 8 * u
        floor = -10 * np.log10(min(2 * t, 0.5))
        ctx.count("sar_checked", out.sar.size)
        if np.any(out.sar < floor - 3):
            raise Violation(f"{lab}: SAR {out.sar.min()} dB although the estimates are filtered mixtures of the references", key="sar")
    else:
        prev, pexp = out, exp
        if mode == "perm":
            return
        for L2 in (L + 1, 2 * L, 2 * L + 3):
            if C * L2 * 2 > T:
                break
            s2 = dict(spec, L=L2)
            o2, e2 = run(s2, ref, est), expect(s2, ref, est)
            for which in ("sdr", "sar") if out.sar is not None else ("sdr",):
                x, y = getattr(prev, which), getattr(o2, which)
                cx, cy = 1 / (1 + 10 ** (-x / 10)), 1 / (1 + 10 ** (-y / 10))
                tol = np.max(pexp.tau(which)) + np.max(e2.tau(which)) + 8 * u
                ctx.count("monotone_checked", x.size)
                if np.any(cy < cx - tol):
                    raise Violation(f"{lab}: {which} decreases when the filter grows to {L2}", key="monotone")
            prev, pexp = o2, e2
    if L > 1:
        ctx.nontrivial(out_digest(out))
