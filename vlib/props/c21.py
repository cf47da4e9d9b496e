"""C21: scores depend on the samples, not on how they are stored."""
import numpy as np

from ..calls import FNS, cg_tol, expect, judge, mode_of, out_digest, rand_call, run, same
from ..compare import digest
from ..core import LibraryRaised, Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "every call repeated with the same samples in other memory layouts, independently for both inputs (Fortran order,"
    " transposed, gapped, reversed, offset, unaligned, broadcast with zero strides, read-only, shared with guard values"
    " around, both inputs views of one buffer, integer PCM); results against the contiguous call and the definition, surrounding memory unchanged;"
    " lists, mixed data types and backends, implicitly broadcast batches and unequal lengths are declined or right;"
    " non-trivial: strides differ from contiguous; distinct by layout pair and output digest"
)
MUST = ["layout_calls", "np_calls", "pt_calls", "integer_calls", "broadcast_calls", "guards_checked", "readonly_calls", "alias_calls", "loose_calls"]
NP = ["fortran", "time_first", "gapped", "reversed", "offset", "unaligned", "readonly", "embedded", "chan_reversed", "subclass", "memmap", "byteswapped", "field", "base_slice"]
PT = ["fortran", "time_first", "gapped", "offset", "embedded", "expanded", "from_numpy", "grad", "narrow", "chan_perm", "parameter", "subclass", "negated", "inference", "unfold"]


def cases(tier, seed):
    rng = rng_of(seed, 21)
    for i in range({"quick": 3120, "thorough": 96000}[tier]):
        c = rand_cfg(rng, budget=2e8, max_c=6)
        c["rel"] = ["layout", "layout", "alias", "broadcast", "integer", "layout"][i % 6]
        c = rand_call(rng, c, cg=0.2)
        if c["rel"] == "layout":
            names = NP if c["backend"] == "np" else PT
            c["lay"] = [pick(rng, names), pick(rng, names + ["plain"])]
            if rng.random() < 0.5:
                c["lay"].reverse()
        elif c["rel"] == "broadcast":
            c["batch"] = pick(rng, [[3], [2, 2], [5], [1, 4]])
        else:
            c["backend"], c["dtype"] = "np", "f64"
            c["ity"] = pick(rng, ["int16", "int16", "int32", "int64", "int8"])
        yield c
    for i in range({"quick": 400, "thorough": 9000}[tier]):
        c = rand_cfg(rng, budget=1e8, max_c=5, batch=pick(rng, [[], [3], [2, 2], [2, 3]]))
        c["rel"] = "loose"
        c["loose"] = ["mixed_dtype", "lists", "implicit_batch", "lengths", "mixed_backend"][i % 5]
        c = rand_call(rng, c)
        if c["loose"] == "implicit_batch" and mode_of(c["fn"], c["opts"]) == "diag":
            # not documented, and ambiguous when channels, taps and batch coincide
            c["loose"] = "lengths"
        yield c


GUARD = 1.2345e30
_SUB = []


def tensor_subclass():
    if not _SUB:
        _SUB.append(type("Recording", (lib.torch.Tensor,), {}))
    return _SUB[0]


def layout(x, how, backend, keep):
    """the samples of x in another layout; keep gets (array, copy) pairs to be
    compared after the call"""
    x = np.array(x, order="C")
    if backend == "np":
        if how == "plain":
            y = x
        elif how == "fortran":
            y = np.asfortranarray(x)
        elif how == "time_first":
            y = np.moveaxis(np.ascontiguousarray(np.moveaxis(x, -1, 0)), 0, -1)
        elif how == "gapped":
            b = np.full(x.shape[:-1] + (3 * x.shape[-1],), GUARD, x.dtype)
            y = b[..., 1::3]
            y[...] = x
            keep.append((b, None))
        elif how == "reversed":
            y = np.array(x[..., ::-1], order="C")[..., ::-1]
        elif how == "chan_reversed":
            y = np.array(x[..., ::-1, :], order="C")[..., ::-1, :]
        elif how == "offset":
            b = np.full(x.shape[:-1] + (x.shape[-1] + 5,), GUARD, x.dtype)
            y = b[..., 3:-2]
            y[...] = x
            keep.append((b, None))
        elif how == "unaligned":
            raw = np.zeros(x.nbytes + 1, np.uint8)
            y = np.frombuffer(raw.data, dtype=x.dtype, count=x.size, offset=1).reshape(x.shape)
            y[...] = x
        elif how == "readonly":
            y = x
            y.setflags(write=False)
        elif how == "embedded":
            b = np.full(tuple(n + 2 for n in x.shape), GUARD, x.dtype)
            y = b[tuple(slice(1, -1) for _ in x.shape)]
            y[...] = x
            keep.append((b, None))
        elif how == "byteswapped":
            y = x.astype(x.dtype.newbyteorder())
        elif how == "subclass":
            class A(np.ndarray):
                pass

            y = x.view(A)
        elif how == "field":  # one field of packed records: gapped and unaligned
            rec = np.zeros(x.shape, dtype=[("tag", "i1"), ("x", x.dtype), ("end", "i2")])
            rec["x"] = x
            rec["tag"], rec["end"] = 77, -3
            y = rec["x"]
            keep.append((rec, None))
        elif how == "base_slice":  # a part of a longer recording, samples before and after
            b = np.full((4,) + x.shape[:-1] + (x.shape[-1] + 7,), GUARD, x.dtype)
            y = b[2, ..., 4:-3]
            y[...] = x
            keep.append((b, None))
        elif how == "memmap":
            import tempfile

            f = tempfile.TemporaryFile()
            f.write(x.tobytes())
            f.flush()
            y = np.memmap(f, dtype=x.dtype, mode="r", shape=x.shape)
        if not np.array_equal(y, x):
            raise AssertionError(how)
        for k in range(len(keep)):
            if keep[k][1] is None:
                keep[k] = (keep[k][0], keep[k][0].copy())
        return y
    t = lib.torch
    p = t.from_numpy(x.copy())
    if how == "plain":
        y = p
    elif how == "fortran":
        k = p.ndim
        y = p.permute(*range(k - 1, -1, -1)).contiguous().permute(*range(k - 1, -1, -1))
    elif how == "time_first":
        y = p.movedim(-1, 0).contiguous().movedim(0, -1)
    elif how == "gapped":
        b = t.full(tuple(x.shape[:-1]) + (3 * x.shape[-1],), GUARD, dtype=p.dtype)
        y = b[..., 1::3]
        y.copy_(p)
        keep.append((b, None))
    elif how in ("offset", "narrow"):
        b = t.full(tuple(x.shape[:-1]) + (x.shape[-1] + 5,), GUARD, dtype=p.dtype)
        y = b.narrow(-1, 3, x.shape[-1])
        y.copy_(p)
        keep.append((b, None))
    elif how == "embedded":
        b = t.full(tuple(n + 2 for n in x.shape), GUARD, dtype=p.dtype)
        y = b[tuple(slice(1, -1) for _ in x.shape)]
        y.copy_(p)
        keep.append((b, None))
    elif how == "expanded":
        y = p[None].expand(2, *p.shape)[1]
    elif how == "from_numpy":
        b = np.full(tuple(n + 1 for n in x.shape), GUARD, x.dtype)
        v = b[tuple(slice(1, None) for _ in x.shape)]
        v[...] = x
        y = t.from_numpy(v)
        keep.append((b, None))
    elif how == "grad":
        y = p.clone().requires_grad_(True) * 1
    elif how == "parameter":
        y = t.nn.Parameter(p)
    elif how == "subclass":
        y = p.as_subclass(tensor_subclass())
    elif how == "negated":  # negation pending (lazy)
        y = t.complex(t.zeros_like(p), -p).conj().imag
    elif how == "inference":
        with t.inference_mode():
            y = p.clone()
    elif how == "unfold":
        b = t.full(tuple(x.shape[:-1]) + (2 * x.shape[-1] + 3,), GUARD, dtype=p.dtype)
        y = b.unfold(-1, x.shape[-1], 3)[..., 1, :]
        y.copy_(p)
        keep.append((b, None))
    elif how == "chan_perm":
        n = x.shape[-2]
        y = p.transpose(-1, -2).contiguous().transpose(-1, -2)
    if not np.array_equal(lib.to_np(y), x):
        raise AssertionError(how)
    for k in range(len(keep)):
        if keep[k][1] is None:
            keep[k] = (keep[k][0], keep[k][0].clone() if isinstance(keep[k][0], t.Tensor) else keep[k][0].copy())
    return y


def fire(spec, r, e):
    o = dict(spec["opts"])
    if "si_" not in spec["fn"]:
        o["filter_length"] = spec["L"]
    return lib.normalise(spec["fn"], lib.raw_call(spec["fn"], spec["backend"], r, e, level=spec["level"], **o), o)


def loose(spec, ctx, ref, est, lab):
    """inputs that do not match each other exactly, which the package may
    decline; a score, if there is one, is the right one"""
    rng = rng_of(spec["seed"], 212)
    be, how = spec["backend"], spec["loose"]
    conv = lambda x: lib.to_backend(x, be)
    s = dict(spec)
    if how == "mixed_dtype":
        k = int(rng.integers(2))
        ref, est = ref.astype((np.float32, np.float64)[k]), est.astype((np.float64, np.float32)[k])
        s["dtype"] = "f32"
        r, e = conv(ref), conv(est)
    elif how == "lists":
        s["dtype"] = "f32"
        r, e = ref.tolist(), est.tolist()
        if rng.random() < 0.3:
            e = tuple(e)
    elif how == "implicit_batch":
        b = spec["batch"]
        cut = [lambda x: x[(0,) * len(b)], lambda x: x[tuple(slice(0, 1) for _ in b)],
               lambda x: x[(0,) * max(len(b) - 1, 0)]][int(rng.integers(3))]
        full = ref.shape[:-2]
        if rng.random() < 0.5:
            ref = cut(ref)
        else:
            est = cut(est)
        r, e = conv(ref), conv(est)
        ref = np.array(np.broadcast_to(ref, full + ref.shape[-2:]))
        est = np.array(np.broadcast_to(est, full + est.shape[-2:]))
    elif how == "lengths":
        n = spec["T"] - int(rng.integers(1, max(2, min(40, spec["T"] // 4))))
        if rng.random() < 0.5:
            est = np.array(est[..., :n])
        else:
            ref = np.array(ref[..., :n])
        r, e = conv(ref), conv(est)
    else:
        r, e = (ref, lib.torch.from_numpy(est.copy())) if rng.random() < 0.5 else (lib.torch.from_numpy(ref.copy()), est)
    try:
        got = fire(s, r, e)
    except LibraryRaised as x:
        ctx.count("declined_" + how)
        ctx.count("loose_calls")
        return
    exp = expect(s, ref, est)
    if exp.cond > (1e4 if s["dtype"] == "f32" else 1e10):
        ctx.count("too_ill_conditioned")
        return
    judge(ctx, s, got, exp, f"{lab} {how}")
    ctx.count("loose_" + how)
    ctx.count("loose_calls")
    ctx.nontrivial(digest(np.array([spec["seed"]]), *[v for _, v in got.metrics()]))


def check(spec, ctx):
    ref, est = make_cast(spec)
    lab = f"{spec['fn']}[{spec['backend']},{spec['dtype']}] L={spec['L']} {spec['opts']} {spec['batch']},{spec['n_ref']},{spec['n_est']},{spec['T']}"
    if spec["rel"] == "loose":
        return loose(spec, ctx, ref, est, lab)
    if spec["rel"] == "integer":
        return integer(spec, ctx, ref, est, lab)
    be = spec["backend"]
    if spec["rel"] == "alias":
        # both inputs are views of one buffer, side by side or overlapping
        rng = rng_of(spec["seed"], 211)
        C, M, T = spec["n_ref"], spec["n_est"], spec["T"]
        how = pick(rng, ["packed", "interleaved", "overlap", "overlap_rev"])
        b = tuple(spec["batch"])
        if how == "packed":
            buf = np.concatenate([ref, est], -2)
            cut = lambda z: (z[..., :C, :], z[..., C:, :])
        elif how == "interleaved":
            buf = np.zeros(b + (max(C, M), 2 * T), ref.dtype)
            buf[..., :C, ::2], buf[..., :M, 1::2] = ref, est
            cut = lambda z: (z[..., :C, ::2], z[..., :M, 1::2])
        else:
            s = int(rng.integers(1, 6))
            buf = rng.standard_normal(b + (max(C, M), T + s)).astype(ref.dtype)
            buf[..., s:] += buf[..., :-s] * buf.dtype.type(0.7)
            if how == "overlap":
                cut = lambda z: (z[..., :C, :T], z[..., :M, s:])
            else:
                cut = lambda z: (z[..., :C, s:], z[..., :M, :T])
        buf0 = buf.copy()
        r, e = cut(buf if be == "np" else lib.torch.from_numpy(buf))
        ref, est = (np.ascontiguousarray(v) for v in cut(buf0))
        if expect(spec, ref, est).cond > (1e3 if spec["dtype"] == "f32" else 1e8):
            ctx.count("too_ill_conditioned")
            return
        got = fire(spec, r, e)
        lay, keep = ["alias", how], []
        ctx.count("alias_calls")
    elif spec["rel"] == "broadcast":
        # one recording stands for the whole batch of the other input (stride zero)
        rng = rng_of(spec["seed"], 210)
        which = int(rng.integers(3))
        k = len(spec["batch"])
        one_r, one_e = ref[(0,) * k], est[(0,) * k]
        if which == 0:
            ref = np.broadcast_to(one_r, ref.shape)
        elif which == 1:
            est = np.broadcast_to(one_e, est.shape)
        else:
            ref, est = np.broadcast_to(one_r, ref.shape), np.broadcast_to(one_e, est.shape)
        if be == "pt":
            t = lib.torch
            cv = lambda x: t.from_numpy(np.array(x[(0,) * k])).expand(*x.shape) if 0 in x.strides[:k] else t.from_numpy(np.array(x))
            r, e = cv(ref), cv(est)
        else:
            r, e = ref, est
        got = fire(spec, r, e)
        ref, est = np.array(ref), np.array(est)
        lay = ["broadcast", str(which)]
        ctx.count("broadcast_calls")
        keep = []
    else:
        keep = []
        lay = spec["lay"]
        r, e = layout(ref, lay[0], be, keep), layout(est, lay[1], be, keep)
        got = fire(spec, r, e)
        if "readonly" in lay or "memmap" in lay:
            ctx.count("readonly_calls")
    ctx.count("layout_calls")
    ctx.count(be + "_calls")
    base = run(spec, ref, est)
    exp = expect(spec, ref, est)
    same(ctx, spec, base, got, exp, f"{lab}: contiguous against {lay}", extra_tol=cg_tol(spec, exp))
    if "use_cg_iter" not in spec["opts"]:
        judge(ctx, spec, got, exp, f"{lab} {lay}")
    for b, c in keep:
        ctx.count("guards_checked")
        if not np.array_equal(lib.to_np(b), lib.to_np(c)):
            raise Violation(f"{lab} {lay}: memory around the samples was written", key="guard")
    for a, b in ((r, ref), (e, est)):
        if not np.array_equal(lib.to_np(a), b):
            raise Violation(f"{lab} {lay}: the samples were modified", key="modified")
    for raw, raw0 in zip(got.raw, base.raw):
        if type(lib.to_np(raw)).__name__ == "memmap":
            raise Violation(f"{lab} {lay}: output of type memmap", key="container")
        if lib.to_np(raw).dtype.newbyteorder("=") != lib.to_np(raw0).dtype:
            raise Violation(f"{lab} {lay}: output dtype {raw.dtype} instead of {raw0.dtype}", key="dtype")
    ctx.nontrivial(digest(np.array([spec["seed"]]), *[v for _, v in got.metrics()]))


def integer(spec, ctx, ref, est, lab):
    ity = np.dtype(spec["ity"])
    top = float(np.iinfo(ity).max)
    q = lambda x: np.round(x / np.abs(x).max(-1, keepdims=True) * min(top, 3e4)).astype(ity)
    r, e = q(ref), q(est)
    f_r, f_e = r.astype(np.float64), e.astype(np.float64)
    exp = expect(spec, f_r, f_e)
    if exp.cond > 1e8:
        ctx.count("too_ill_conditioned")
        return
    got = fire(spec, r, e)
    base = fire(spec, f_r, f_e)
    ctx.count("integer_calls")
    same(ctx, spec, base, got, exp, f"{lab}: {ity} against float64 samples", extra_tol=cg_tol(spec, exp))
    # full-scale values must not wrap around anywhere: the definition decides
    if "use_cg_iter" not in spec["opts"]:
        judge(ctx, spec, got, exp, f"{lab} {ity}")
    if not (np.array_equal(r, q(ref)) and np.array_equal(e, q(est))):
        raise Violation(f"{lab} {ity}: the samples were modified", key="modified")
    ctx.nontrivial(digest(np.array([spec["seed"]]), *[v for _, v in got.metrics()]))
