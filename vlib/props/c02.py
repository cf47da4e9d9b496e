"""C02: every SDR-only function returns the SDR of the definition."""
from ..calls import FNS, expect, judge, out_digest, rand_call, run
from ..signals import edge_signals, huge_signals, long_filters, make_cast, medium_signals, rand_cfg, rng_of

RULE = (
    "fixed grid over the eight SDR-only functions (filter length x shape x backend x dtype) plus random"
    " configurations and options, and lengths around multiples of block sizes with the energy at both ends; each recorded call is compared with a time-domain least-squares reference"
    " model; non-trivial: at least half of the values are determined to 0.1 dB by the model; distinct by output digest"
)
MUST = ["values_tight_0.1dB", "perm_calls", "diag_calls", "pair_calls"]
F = [f for f in FNS if "bss" not in f]


def cases(tier, seed):
    k = 0
    for fn in F:
        for L in ((1,) if "si_" in fn else (1, 2, 7, 16, 50)):
            for C, M in ((1, 1), (2, 2), (3, 5), (4, 2)):
                for be in ("np", "pt"):
                    k += 1
                    if fn in ("sdr_loss", "si_sdr_loss") and C != M:
                        o = {"pairwise": True}
                    else:
                        o = {"return_perm": True} if fn in ("sdr", "si_sdr") else {}
                    yield dict(seed=k + 7919 * seed, backend=be, dtype=("f64", "f32")[(k // 2) % 2], L=L, n_ref=C,
                               n_est=M, batch=[[], [2], [2, 2]][k % 3], T=[400, 512, 901][k % 3], kind="mixed",
                               snr=12.0, leak=-8.0, taps=min(L, 3), fn=fn, opts=o,
                               level="sub" if fn.startswith("pairwise") else "top")
    for be in ("np", "pt"):
        for i, T in enumerate((16000, 65536, 70001, 160000)):
            yield dict(seed=50 + T + seed, backend=be, dtype=("f64", "f32")[i % 2], L=[16, 512, 129, 64][i],
                       n_ref=2, n_est=2, batch=[], T=T, kind="mixed", snr=20.0, leak=-10.0, taps=5,
                       fn=["sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss"][i], opts={},
                       level="sub" if i == 3 else "top")
    rng = rng_of(seed, 23)
    for i, c in enumerate(long_filters(seed + 1, 1 if tier == "quick" else 6)):
        yield dict(c, fn=("sdr", "sdr_pit_loss", "sdr")[i % 3], opts={})
        yield rand_call(rng, dict(c, seed=c["seed"] + 77), fns=[f for f in F if "si_" not in f], cg=0.0)
    for c in medium_signals(seed + 2, 30 if tier == "quick" else 400):
        yield rand_call(rng, c, fns=F, cg=0.0)
    for i, c in enumerate(huge_signals(seed, 1 if tier == "quick" else 3)):
        fn = ["sdr", "sdr_pit_loss", "sdr"][i % 3] if c["L"] > 1 else "si_sdr"
        yield dict(c, fn=fn, opts={"zero_mean": True} if i % 2 else {})
        if i % 2:
            yield rand_call(rng, dict(c, seed=c["seed"] + 77), fns=F, cg=0.0)
    rng = rng_of(seed, 22)
    for i, c in enumerate(edge_signals(seed + 2, n=1 if tier == "quick" else 12)):
        yield rand_call(rng, c, fns=F, cg=0.0)
    rng = rng_of(seed, 2)
    for i in range({"quick": 2520, "thorough": 72000}[tier]):
        c = rand_cfg(rng, budget=1.5e9 if tier == "quick" else 2e10, max_c=12)
        if i % 29 == 7 and c["L"] > 4:
            # signals hardly longer, or shorter, than the filter
            c["T"] = int(rng.integers(2, c["L"] + 4))
            c["kind"], c["rho"] = "white", 0.0
        yield rand_call(rng, c, fns=F)


def check(spec, ctx):
    ref, est = make_cast(spec)
    out = run(spec, ref, est)
    exp = expect(spec, ref, est)
    tight = judge(ctx, spec, out, exp)
    ctx.stat_max("condition_number", exp.cond)
    if tight >= 0.5:
        ctx.nontrivial(out_digest(out))
