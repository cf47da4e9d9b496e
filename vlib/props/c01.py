"""C01: SDR/SIR/SAR of bss_eval_sources are those of the definition."""
from ..compare import check_perm_valid, check_values, digest
from ..env import lib
from ..oracle import Expect
from ..signals import edge_signals, huge_signals, long_filters, medium_signals, make_cast, rand_cfg, rng_of

RULE = (
    "fixed grid (filter length x channels x batch x dtype x backend) plus random configurations with heavy"
    " tails (filter up to 512, 12 channels, batch up to 33, 8 source families, gains, DC, long signals);"
    " non-trivial: the interval allowed by the reference model is below 0.1 dB for at least half of the"
    " values of the call; distinct by the digest of the outputs"
)
ASSUMPTIONS = ["signals with finite energy well above 1e-6, no silent channel (C15, C19)"]
MUST = ["values_tight_0.1dB", "perm_calls", "diag_calls"]


def cases(tier, seed):
    k = 0
    for L in (1, 2, 3, 5, 8, 16, 33, 64):
        for C, M in ((1, 1), (2, 2), (3, 3), (2, 4), (4, 2), (5, 5)):
            for be in ("np", "pt"):
                k += 1
                yield dict(seed=1000 + k + 7919 * seed, backend=be, dtype=("f64", "f32")[(k // 2) % 2], L=L,
                           n_ref=C, n_est=M, batch=[[], [2], [3, 2]][k % 3], T=[300, 512, 777, 1024][k % 4],
                           kind="mixed", snr=15.0, leak=-8.0, taps=min(L, 4), fn="bss_eval_sources",
                           opts=[{}, {"zero_mean": True}, {"clamp_db": 30.0}, {"load_diag": 1e-3}][(k // 3) % 4])
    # the default filter length, and long signals
    for be in ("np", "pt"):
        for T in (16000, 65536, 70001, 160000):
            yield dict(seed=50 + T + seed, backend=be, dtype="f64" if T < 100000 else "f32", L=[16, 40, 129, 64][T % 4],
                       n_ref=2, n_est=2, batch=[], T=T, kind="mixed", snr=20.0, leak=-10.0, taps=5,
                       fn="bss_eval_sources", opts={})
        yield dict(seed=51 + seed, backend=be, dtype="f64", L=512, n_ref=2, n_est=2, batch=[], T=8000,
                   kind="white", snr=20.0, leak=-10.0, taps=5, fn="bss_eval_sources", opts={}, default_L=True)
    rng = rng_of(seed, 12)
    for i, c in enumerate(long_filters(seed, 1 if tier == "quick" else 6)):
        c["fn"] = "bss_eval_sources"
        yield dict(c, opts=rand_opts(rng, c) if i % 2 else {})
    for c in medium_signals(seed + 1, 24 if tier == "quick" else 400):
        c["fn"], c["level"] = "bss_eval_sources" if c["L"] > 1 else "si_bss_eval_sources", "top"
        yield dict(c, opts=rand_opts(rng, c))
    for i, c in enumerate(huge_signals(seed, 1 if tier == "quick" else 3)):
        yield dict(c, fn="si_bss_eval_sources" if c["L"] == 1 else "bss_eval_sources",
                   opts={"zero_mean": True} if i % 2 else {})
    rng = rng_of(seed, 11)
    for c in edge_signals(seed + 1, taps=(2, 3, 8, 20), n=1 if tier == "quick" else 12):
        c["fn"], c["level"] = "bss_eval_sources", "top"
        yield dict(c, opts=rand_opts(rng, c))
    rng = rng_of(seed, 1)
    n = {"quick": 2520, "thorough": 72000}[tier]
    for i in range(n):
        c = rand_cfg(rng, budget=1.5e9 if tier == "quick" else 2e10, max_c=12)
        if i % 29 == 7 and c["L"] > 4:
            # signals hardly longer, or shorter, than the filter
            c["n_ref"] = 1 + int(rng.random() < 0.3)
            c["T"] = int(rng.integers(2, c["L"] + 4)) + (c["n_ref"] - 1) * (c["L"] + 30)
            c["kind"], c["rho"] = "white", 0.0
        c["fn"] = "bss_eval_sources" if rng.random() < 0.85 else "si_bss_eval_sources"
        if c["fn"].startswith("si_"):
            c["L"] = 1
        c["opts"] = rand_opts(rng, c)
        c["level"] = "sub" if rng.random() < 0.15 else "top"
        yield c


def rand_opts(rng, c, square_ok=True):
    o = {}
    if rng.random() < 0.3:
        o["zero_mean"] = True
    if rng.random() < 0.25:
        o["clamp_db"] = float([5, 10, 20, 30, 60, 100][int(rng.integers(6))])
    if rng.random() < 0.3:
        o["load_diag"] = float([1e-6, 1e-4, 1e-2, 0.3][int(rng.integers(4))])
    if square_ok and c["n_ref"] == c["n_est"] and rng.random() < 0.3:
        o["compute_permutation"] = False
    return o


def check(spec, ctx):
    ref, est = make_cast(spec)
    opts = dict(spec["opts"])
    if not spec["fn"].startswith("si_") and not spec.get("default_L"):
        opts["filter_length"] = spec["L"]
    out = lib.call(spec["fn"], spec["backend"], ref, est, level=spec.get("level", "top"), **opts)
    exp = Expect(ref, est, spec["L"], lib.eps_of(spec["dtype"]), load=opts.get("load_diag"),
                 zero_mean=opts.get("zero_mean", False), clamp_db=opts.get("clamp_db"))
    if opts.get("compute_permutation", True):
        check_perm_valid(out.perm, exp.bshape, exp.C, exp.M)
        mode = "perm"
    else:
        mode = "diag"
    ctx.count(mode + "_calls")
    tight = 0
    for which, got in out.metrics():
        tight += check_values(ctx, exp, which, got, mode, out.perm, label=f"{spec['fn']}[{spec['backend']}]") / 3
    ctx.stat_max("condition_number", exp.cond)
    if tight >= 0.5:
        ctx.nontrivial(digest(out.sdr, out.sir, out.sar))
