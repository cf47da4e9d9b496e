"""C24: the functions of the family are consistent with each other."""
import inspect

import numpy as np
from scipy.optimize import linear_sum_assignment

from ..calls import FNS, cg_tol, expect, mode_of, out_digest, rand_call, run, same
from ..compare import check_shape, close_db, fin, gather
from ..core import LibraryRaised, Violation
from ..env import lib
from ..lib_free import Rec
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "families of calls on the same signals and options recorded together: losses against negated scores, pairwise"
    " matrix against its diagonal and against single pairs, permutation-invariant loss against the best pairing of the"
    " matrix, package-level against backend-level functions with every subset of options, positional against keyword"
    " and omitted against documented default values; non-trivial: every family; distinct by matrix digest"
)
MUST = ["family_sign", "family_diag", "family_single", "family_pit", "family_bss", "family_facade", "family_positional",
        "family_defaults", "family_numbers"]
SDR = ["sdr", "sdr_loss", "sdr_pit_loss", "bss_eval_sources"]


def cases(tier, seed):
    rng = rng_of(seed, 24)
    rels = ["core", "facade", "core", "positional", "core_si", "facade", "numbers"]
    for i in range({"quick": 2100, "thorough": 56000}[tier]):
        c = rand_cfg(rng, budget=2e8, max_c=6)
        c["rel"] = rels[i % len(rels)]
        c = rand_call(rng, c, fns=FNS if c["rel"] in ("facade", "positional", "numbers") else (["si_sdr_loss"] if c["rel"] == "core_si" else ["sdr_loss"]),
                      cg=0.3, clamp=0.5, load=0.5, zm=0.5)
        yield c
    for be in ("np", "pt"):
        for fn in FNS:
            for dt in ("f64", "f32"):
                yield dict(seed=11 + seed, backend=be, dtype=dt, L=512 if "si_" not in fn else 1, n_ref=2, n_est=2,
                           batch=[], T=2600, kind="white", snr=5.0, leak=-6.0, taps=3, dc=1.0, fn=fn, opts={}, level="top",
                           rel="defaults")


DEFAULTS = dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, compute_permutation=True,
                load_diag=None, return_perm=False, change_sign=False, pairwise=False)
ORDER = {
    "bss_eval_sources": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "compute_permutation", "load_diag"],
    "sdr": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "return_perm", "change_sign"],
    "sdr_loss": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "pairwise"],
    "sdr_pit_loss": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag"],
    "si_bss_eval_sources": ["zero_mean", "clamp_db", "compute_permutation", "load_diag"],
    "si_sdr": ["zero_mean", "clamp_db", "return_perm", "change_sign"],
    "si_sdr_loss": ["zero_mean", "clamp_db", "pairwise"],
    "si_sdr_pit_loss": ["zero_mean", "clamp_db"],
}


def check(spec, ctx):
    ref, est = make_cast(spec)
    rng = rng_of(spec["seed"], 240)
    exp = expect(spec, ref, est)
    rel = spec["rel"]
    if rel == "facade":
        return facade(spec, ctx, ref, est, exp, rng)
    if rel == "numbers":
        return numbers(spec, ctx, ref, est, exp, rng)
    if rel == "positional":
        return positional(spec, ctx, ref, est, exp, rng)
    if rel == "defaults":
        return defaults(spec, ctx, ref, est, exp)
    core(spec, ctx, ref, est, exp, rng)


def label(spec, what):
    return f"{what}[{spec['backend']},{spec['dtype']}] L={spec['L']} {spec['opts']} {spec['batch']},{spec['n_ref']},{spec['n_est']},{spec['T']}"


def core(spec, ctx, ref, est, exp, rng):
    si = "si_" if spec["fn"].startswith("si_") else ""
    o = {k: v for k, v in spec["opts"].items() if k in ("zero_mean", "clamp_db", "use_cg_iter") or (k == "load_diag" and not si)}
    C, M = exp.C, exp.M
    extra = cg_tol(spec, exp)
    level = spec["level"]

    def go(fn, **kw):
        return run(dict(spec, fn=fn, opts=dict(o, **kw)), ref, est)

    def near(a, b, tau, what):
        check_shape(b, a.shape, label(spec, what))
        close_db(a, b, 2 * tau + extra, exp.u, label(spec, what), "values")

    tau = exp.tau("sdr")
    P = go(si + "sdr_loss", pairwise=True).sdr  # normalised to positive decibels
    check_shape(P, exp.bshape + (C, M), label(spec, "pairwise"))
    # sign: the raw loss is minus the score
    s = go(si + "sdr", return_perm=True)
    pit = go(si + "sdr_pit_loss").sdr
    near(s.sdr, pit, gather(tau, s.perm, C, M) * 0 + np.max(tau, axis=(-2, -1))[..., None], "score against PIT loss") \
        if unique(P, tau, exp, extra) else None
    raw = go(si + "sdr", return_perm=True, change_sign=True)
    if not np.array_equal(lib.f64(raw.raw[0]), -s.sdr) and not np.allclose(raw.sdr, s.sdr, rtol=1e-5, atol=1e-5):
        raise Violation(label(spec, f"change_sign gives {lib.f64(raw.raw[0]).tolist()}, without {s.sdr.tolist()}"), key="sign")
    ctx.count("family_sign")
    near(gather(P, s.perm, C, M), s.sdr, gather(tau, s.perm, C, M), "pairwise matrix against score")
    # PIT: the best total over the pairings of the matrix
    F = fin(P).reshape((-1, C, M))
    best = np.array([m[linear_sum_assignment(m, maximize=True)].sum() for m in F])
    got = fin(pit).reshape((len(F), -1)).sum(-1)
    slack = 1e-6 + 1e-6 * np.abs(best) if exp.u < 1e-10 and not extra else 1e-2 + 1e-3 * np.abs(best)
    if np.all(np.isfinite(P)) and np.max(np.abs(P)) < 60 and np.any(got < best - slack):
        raise Violation(label(spec, f"permutation-invariant loss totals {got.tolist()}, best pairing {best.tolist()}"), key="pit")
    ctx.count("family_pit")
    if C == M:
        D = go(si + "sdr_loss").sdr
        near(np.diagonal(P, axis1=-2, axis2=-1), D, np.diagonal(tau, axis1=-2, axis2=-1), "pairwise diagonal")
        ctx.count("family_diag")
        b = go(si + "bss_eval_sources", compute_permutation=False)
        near(D, b.sdr, np.diagonal(tau, axis1=-2, axis2=-1), "loss against bss_eval without permutation")
    full = Rec()
    try:
        full = go(si + "bss_eval_sources")
    except LibraryRaised:
        full = None  # mixed infinities
    if full is not None:
        near(gather(P, full.perm, C, M), full.sdr, gather(tau, full.perm, C, M), "pairwise matrix against bss_eval")
        ctx.count("family_bss")
    # one pair alone
    k, m = int(rng.integers(C)), int(rng.integers(M))
    one = run(dict(spec, fn=si + "sdr_loss", opts=dict(o, pairwise=bool(rng.random() < 0.5))), ref[..., k : k + 1, :], est[..., m : m + 1, :]).sdr
    if one.ndim > len(exp.bshape) + 1:
        one = one[..., 0]
    near(P[..., k, m], one[..., 0], tau[..., k, m], f"reference {k} and estimate {m} alone")
    ctx.count("family_single")
    sub = run(dict(spec, fn="pairwise_" + si + "sdr_loss", opts=o), ref, est).sdr
    near(P, sub, tau, "pairwise function against pairwise option")
    ctx.nontrivial(out_digest(Rec(sdr=P)))


def unique(P, tau, exp, extra):
    """the best pairing of every matrix is better than any other by a margin"""
    if not np.all(np.isfinite(P)) or np.max(np.abs(P)) > 60:
        return False
    for m in P.reshape((-1,) + P.shape[-2:]):
        r, c = linear_sum_assignment(m, maximize=True)
        best = m[r, c].sum()
        for i, j in zip(r, c):
            n = m.copy()
            n[i, j] = -1e4
            r2, c2 = linear_sum_assignment(n, maximize=True)
            if n[r2, c2].sum() > best - 0.1:
                return False
    return True


def facade(spec, ctx, ref, est, exp, rng):
    a = run(dict(spec, level="top"), ref, est)
    b = run(dict(spec, level="sub"), ref, est)
    same(ctx, spec, a, b, exp, label(spec, f"{spec['fn']}: package against backend function"), extra_tol=cg_tol(spec, exp), scale=0.5)
    for x, y in zip(a.raw, b.raw):
        if type(x) is not type(y) or x.dtype != y.dtype:
            raise Violation(label(spec, f"{spec['fn']}: package returns {type(x)}, {x.dtype}, backend {type(y)}, {y.dtype}"), key="facade")
    # every option changes what it should: dropping one is seen by the definition
    ctx.count("family_facade")
    ctx.nontrivial(out_digest(a))


def numbers(spec, ctx, ref, est, exp, rng):
    """the value of an option counts, not the type of the number"""
    o = {}
    for k, v in spec["opts"].items():
        if isinstance(v, bool):
            o[k] = pick(rng, [np.bool_(v), int(v), v])
        elif isinstance(v, int):
            o[k] = pick(rng, [np.int64(v), np.int32(v), np.uint8(v), np.array(v)[()]])
        elif float(v).is_integer():
            o[k] = pick(rng, [int(v), np.float64(v), np.float32(v), np.int64(v), np.int8(v)])
        else:
            o[k] = pick(rng, [np.float64(v), float(np.float64(v))])
    L = spec["L"]
    s2 = dict(spec, opts=o, L=pick(rng, [np.int64(L), np.int32(L), np.int16(L), L]))
    a = run(spec, ref, est)
    try:
        b = run(s2, ref, est)
    except LibraryRaised as e:
        if not isinstance(e.exc, (TypeError, ValueError)):
            raise
        ctx.count("numbers_declined")
        return
    what = {k: type(v).__name__ for k, v in o.items()}
    same(ctx, spec, a, b, exp, label(spec, f"{spec['fn']}: options as {what}, filter_length as {type(s2['L']).__name__}"),
         extra_tol=cg_tol(spec, exp), scale=0.5)
    ctx.count("family_numbers")
    ctx.nontrivial(out_digest(a))


def positional(spec, ctx, ref, est, exp, rng):
    fn = spec["fn"]
    if fn not in ORDER:
        fn = fn.replace("pairwise_", "")
    o = {k: v for k, v in spec["opts"].items() if k in ORDER[fn]}
    if fn in ("sdr_loss", "si_sdr_loss"):
        o["pairwise"] = True
    if "si_" not in fn:
        o["filter_length"] = spec["L"]
    r, e = lib.to_backend(ref, spec["backend"]), lib.to_backend(est, spec["backend"])
    full = [o.get(k, DEFAULTS[k]) for k in ORDER[fn]]
    n = int(rng.integers(1, len(full) + 1))
    rest = {k: o[k] for k in ORDER[fn][n:] if k in o}
    f = getattr(lib.fbe, fn)
    args = (r, e) if fn in lib.REF_FIRST else (e, r)
    lib.EVENTS[fn + ":positional"] = lib.EVENTS.get(fn + ":positional", 0) + 1
    try:
        out = f(*args, *full[:n], **rest)
    except Exception as ex:
        raise LibraryRaised(fn, spec["backend"], ex)
    out = tuple(out) if isinstance(out, (tuple, list)) else (out,)
    a = lib.normalise(fn, out, o)
    s2 = dict(spec, fn=fn, opts={k: v for k, v in o.items() if k != "filter_length"}, level="top")
    b = run(s2, ref, est)
    same(ctx, s2, a, b, exp, label(spec, f"{fn}: positional against keyword"), extra_tol=cg_tol(spec, exp), scale=0.5)
    # named inputs, in any order
    kw = dict(ref=r, est=e)
    if fn in lib.REF_FIRST:
        kw = dict(est=e, ref=r)
    try:
        out = f(args[0], **{k: v for k, v in kw.items() if v is not args[0]}, **o)
    except Exception as ex:
        raise LibraryRaised(fn, spec["backend"], ex)
    out = tuple(out) if isinstance(out, (tuple, list)) else (out,)
    same(ctx, s2, lib.normalise(fn, out, o), b, exp, label(spec, f"{fn}: named inputs"), extra_tol=cg_tol(spec, exp), scale=0.5)
    ctx.count("family_positional")
    ctx.nontrivial(out_digest(a))


def defaults(spec, ctx, ref, est, exp):
    fn = spec["fn"]
    be = spec["backend"]
    for level in ("top", "sub"):
        a = lib.call(fn, be, ref, est, level=level)  # everything omitted
        key = fn.replace("pairwise_", "")
        o = {k: DEFAULTS[k] for k in ORDER[key] if not (fn.startswith("pairwise") and k == "pairwise")}
        b = lib.call(fn, be, ref, est, level=level, **o)
        same(ctx, dict(spec, opts={}), a, b, exp, label(spec, f"{fn} ({level}): omitted against documented defaults"), scale=0.5)
        from ..calls import judge

        judge(ctx, dict(spec, opts={}), a, exp, label(spec, f"{fn} with default options"))
    ctx.count("family_defaults")
    ctx.nontrivial(out_digest(a))
