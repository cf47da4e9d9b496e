"""C23: calls touch only memory which is theirs and never use what it happened
to contain."""
import os
import signal

import numpy as np

from ..calls import FNS, cg_tol, expect, judge, out_digest, rand_call, same
from ..compare import digest
from ..core import LibraryRaised, Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "calls run in a process whose numpy arrays and torch tensors (inputs included) each lie between inaccessible"
    " pages, flush with the upper or the lower one, filled with three different byte patterns when allocated and made"
    " inaccessible when released; strided views checked against the memory of the array they view; outputs must be"
    " bitwise the same for all patterns and agree with the definition; an invalid access ends the process and is"
    " reported; non-trivial: at least one guarded block in the call; distinct by output digest"
)
MUST = ["guarded_calls", "guard_armed", "np_blocks", "pt_blocks", "patterns_compared"]
ASSUMPTIONS = ["numpy blocks are guarded to 8 bytes, torch blocks to 64 bytes at the upper end (slack checked by canaries)"]
FILLS = (0xFF, 0x00, 0x7E)


def lanes(here, tier):
    from ..memory import build

    so = build(os.path.join(here, "evidence", "build"))
    return [{"name": "guard", "env": {"LD_PRELOAD": so, "FBE_MEMORY": "1", "FBE_GUARD_SO": so}}]


def cases(tier, seed):
    rng = rng_of(seed, 23)
    for be in ("np", "pt"):  # every small filter length and size: the corners of the views
        for L in (1, 2, 3, 4, 5, 7, 8, 16, 17):
            for C, M in ((1, 1), (2, 2), (3, 2), (2, 3)):
                yield dict(seed=int(rng.integers(2**31)), backend=be, dtype=pick(rng, ["f64", "f32"]), L=L, n_ref=C,
                           n_est=M, batch=pick(rng, [[], [2]]), T=int(2 * C * L + 20 + rng.integers(0, 9)), kind="white",
                           snr=10.0, leak=-10.0, fn="bss_eval_sources", opts=pick(rng, [{}, {}, {"zero_mean": True}, {"clamp_db": 30.0}]),
                           level="top", fault=None)
    for i in range({"quick": 1980, "thorough": 72000}[tier]):
        c = rand_cfg(rng, budget=3e7, max_c=6 if rng.random() < 0.9 else 12)
        if rng.random() < 0.3:
            c["T"] = int(rng.integers(max(2, 2 * c["n_ref"] * c["L"] + 20), 2 * c["n_ref"] * c["L"] + 60))
        c = rand_call(rng, c, cg=0.35)
        c["fault"] = pick(rng, [None, None, None, "nan", "silent", "short"])
        if c["fault"] == "short" and c["L"] > 1:
            c["T"] = int(rng.integers(1, c["L"] + 1))
            c["n_ref"] = 1
            c["batch"] = []
            if c["n_est"] != 1:
                c["opts"].pop("compute_permutation", None)
                if c["fn"] == "sdr_loss":
                    c["opts"]["pairwise"] = True
            c["dc"], c["kind"], c["taps"] = 0.0, "white", 1
        yield c


def place(x, be):
    """a copy of x in guarded memory"""
    if be == "np":
        y = np.empty(x.shape, x.dtype)
        y[...] = x
        return y
    t = lib.torch
    y = t.empty(tuple(x.shape), dtype=t.from_numpy(x).dtype)
    y.copy_(t.from_numpy(x))
    return y


def armed(ctx, be):
    """the guard pages are where they should be"""
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            signal.signal(signal.SIGSEGV, signal.SIG_DFL)
            x = place(np.ones(8), be)
            p = x.ctypes.data if be == "np" else x.data_ptr()
            import ctypes

            ctypes.string_at(p + 64, 8)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS)):
        raise RuntimeError("the guarded allocator is not armed")
    ctx.count("guard_armed")


DONE = set()


def check(spec, ctx):
    from .. import memory

    G = memory.GUARD
    ref, est = make_cast(spec)
    rng = rng_of(spec["seed"], 230)
    be = spec["backend"]
    if spec.get("fault") == "nan":
        x = ref if rng.random() < 0.5 else est
        x[..., 0, int(rng.integers(x.shape[-1]))] = np.nan
    elif spec.get("fault") == "silent":
        (ref if rng.random() < 0.4 else est)[..., 0, :] = 0
    lab = f"{spec['fn']}[{be},{spec['dtype']}] L={spec['L']} {spec['opts']} {spec['batch']},{spec['n_ref']},{spec['n_est']},{spec['T']}"
    o = dict(spec["opts"])
    if "si_" not in spec["fn"]:
        o["filter_length"] = spec["L"]
    per_place = []
    v0 = dict(memory.VIEWS)
    for placement in (0, 1):
        results = []
        for fill in FILLS:
            before = G.stats()
            out = err = None
            G.mode(True, placement, fill)
            G.numpy_on()
            try:
                if placement == 0 and be not in DONE:
                    armed(ctx, be)
                    DONE.add(be)
                r, e = place(ref, be), place(est, be)
                try:
                    out = lib.raw_call(spec["fn"], be, r, e, level=spec["level"], **o)
                except LibraryRaised as ex:
                    err = type(ex.exc).__name__
                r2, e2 = lib.to_np(r).copy(), lib.to_np(e).copy()
                rec = None if out is None else [np.array(lib.to_np(v), copy=True) for v in out]
                del r, e, out
            finally:
                G.numpy_off()
                G.mode(False, placement, fill)
            after = G.stats()
            rec = None if rec is None else [np.array(v, copy=True) for v in rec]  # out of guarded memory
            ctx.count(be + "_blocks", after["blocks"] - before["blocks"])
            ctx.count("guarded_calls")
            ctx.count("guarded_bytes", after["bytes"] - before["bytes"])
            if after["fallbacks"] > before["fallbacks"]:
                ctx.count("unguarded_blocks", after["fallbacks"] - before["fallbacks"])
            if after["canaries_overwritten"] > before["canaries_overwritten"]:
                raise Violation(f"{lab}: bytes next to a block were overwritten", key="canary")
            if memory.BAD:
                m = memory.BAD[:]
                memory.BAD.clear()
                raise Violation(f"{lab}: {m[0]}", key="view")
            if not (np.array_equal(r2, ref, equal_nan=True) and np.array_equal(e2, est, equal_nan=True)):
                raise Violation(f"{lab}: the inputs were modified", key="modified")
            results.append((rec, err))
        (a, ea), rest = results[0], results[1:]
        for (b, eb), fill in zip(rest, FILLS[1:]):
            ctx.count("patterns_compared")
            if ea != eb:
                raise Violation(f"{lab}: outcome {ea or 'scores'} or {eb or 'scores'} depending on the content of fresh memory",
                                key="uninitialised")
            if a is not None and not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
                raise Violation(f"{lab}: {[v.tolist() for v in a]} or {[v.tolist() for v in b]} depending on the content of"
                                f" fresh memory (0x{FILLS[0]:02x}, 0x{fill:02x})", key="uninitialised")
        per_place.append(a)
    ctx.count("views_checked", sum(memory.VIEWS.values()) - sum(v0.values()))
    a, b = per_place
    if a is None or spec.get("fault") in ("nan", "silent"):
        ctx.count("faulted_calls")
        ctx.nontrivial(digest(np.array([spec["seed"]]), *(a or [])))
        return
    exp = expect(spec, ref, est)
    A, B = lib.normalise(spec["fn"], a, o), lib.normalise(spec["fn"], b, o)
    if exp.cond < (1e5 if spec["dtype"] == "f32" else 1e10):
        if "use_cg_iter" not in spec["opts"]:
            judge(ctx, spec, A, exp, lab + " in guarded memory")
        same(ctx, spec, A, B, exp, lab + ": two placements in memory", extra_tol=cg_tol(spec, exp))
    ctx.nontrivial(out_digest(A))
