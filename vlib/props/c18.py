"""C18: calls are pure functions of their arguments."""
import decimal
import gc
import json
import logging
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import types
import warnings
import weakref

import numpy as np

from ..calls import FNS, cg_tol, expect, judge, rand_call, same
from ..compare import digest
from ..core import LibraryRaised, Violation
from ..env import lib
from ..signals import make_cast, pick, rand_cfg, rng_of

RULE = (
    "call histories (repeats, interleaved unrelated and failing calls, reused and overwritten buffers, changed ambient"
    " settings) and concurrent histories (2 to 8 threads on shared inputs, delays injected at random lines of the"
    " package) recorded as event logs; an offline checker compares every event with the first execution of the same"
    " call and with the definition, and the ambient state, inputs and standard streams before and after; non-trivial:"
    " a history with at least one repeated call; distinct by digest of the event order (threads: of the interleaving)"
)
MUST = ["repeat_events", "ambient_checked", "buffer_events", "thread_events", "inputs_compared", "stream_bytes_checked",
        "released_checked", "fresh_outputs_checked", "after_failure_events", "imports_checked", "growth_calls"]
ASSUMPTIONS = ["threads of one process, CPython with its global lock"]
STEPS = False
TIMEOUT = {"quick": 100, "thorough": 100}


def cases(tier, seed):
    rng = rng_of(seed, 18)
    rels = ["history", "ambient", "buffer", "threads", "threads", "fresh", "history", "released", "growth"]
    for i in range({"quick": 600, "thorough": 19200}[tier]):
        if i % 150 == 0:
            yield dict(rel="import", seed=i)
        yield dict(rel=rels[i % len(rels)], seed=int(rng.integers(2**31)), nthreads=int(rng.integers(2, 9)),
                   ncalls=int(rng.integers(4, 12)))


def a_call(rng, fixed_shape=None, backend=None, budget=2e7):
    c = rand_cfg(rng, budget=budget, max_c=5, backend=backend)
    if fixed_shape:
        for k in ("n_ref", "n_est", "T", "batch", "L", "dtype", "backend"):
            c[k] = fixed_shape[k]
    c = rand_call(rng, c, cg=0.3)
    if fixed_shape and "si_" not in c["fn"]:
        c["L"] = fixed_shape["L"]
    return c


def args(c):
    ref, est = make_cast(c)
    return lib.to_backend(ref, c["backend"]), lib.to_backend(est, c["backend"])


def fire(c, r, e, extra=None):
    o = dict(c["opts"])
    if extra:
        o.update(extra)
    if "si_" not in c["fn"]:
        o["filter_length"] = c["L"]
    return lib.raw_call(c["fn"], c["backend"], r, e, level=c["level"], limit=None, **o)


def snap(x):
    a = lib.to_np(x)
    return digest(a), a.shape, a.strides, getattr(x, "_version", None), getattr(x, "requires_grad", None)


def rec(out):
    """frozen copies"""
    return [np.array(lib.to_np(v), copy=True) for v in out]


def agree(ctx, c, a, b, r=None, e=None):
    """two recordings of the same call: bitwise equal, or the dtypes and shapes
    are and the values differ by rounding (threads and alignment may change the
    order of sums), with ties between permutations allowed"""
    if len(a) != len(b) or any(x.dtype != y.dtype or x.shape != y.shape for x, y in zip(a, b)):
        return False
    if all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
        ctx.count("bitwise_equal")
        return True
    ctx.count("not_bitwise_equal")
    ref, est = make_cast(c) if r is None else (lib.to_np(r), lib.to_np(e))
    exp = expect(c, ref, est)
    try:
        same(ctx, c, lib.normalise(c["fn"], a, c["opts"]), lib.normalise(c["fn"], b, c["opts"]), exp, "repeat",
             extra_tol=cg_tol(c, exp))
    except Violation:
        return False
    return True


def frozen(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def show(c):
    return f"{c['fn']}[{c['backend']},{c['dtype']}] L={c['L']} {c['opts']} {c['batch']},{c['n_ref']},{c['n_est']},{c['T']}"


def ambient(t=None):
    t = t or lib.torch
    st = np.random.get_state()
    return {
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy random state": (digest(st[1]), st[2]),
        "numpy print options": repr(np.get_printoptions()),
        "torch default dtype": str(t.get_default_dtype()),
        "torch random state": digest(t.get_rng_state().numpy()),
        "torch gradient mode": t.is_grad_enabled(),
        "torch threads": t.get_num_threads(),
        "torch deterministic mode": t.are_deterministic_algorithms_enabled(),
        "torch anomaly mode": t.is_anomaly_enabled(),
        "recursion limit": sys.getrecursionlimit(),
        "working directory": os.getcwd(),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "python random state": hash(random.getstate()),
        "warning filters": [(a, str(m), c.__name__, str(o), n) for a, m, c, o, n in warnings.filters],
        "warning hook": warnings.showwarning is _SHOW,
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "decimal context": repr(decimal.getcontext()),
        "import path": tuple(sys.path),
        "switch interval": sys.getswitchinterval(),
        "excepthook": sys.excepthook is _EXC,
        "signal handlers": tuple(str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)),
        "root logger": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "live threads": threading.active_count(),
        "numpy error callback": repr(np.geterrcall()),
        "numpy buffer size": np.getbufsize(),
        "numpy denormals": float(_DEN * _ONE) != 0.0,
        "torch denormals": float(_tden(t)) != 0.0,
        "torch default device": str(t.get_default_device()) if hasattr(t, "get_default_device") else "",
        "torch autocast": _autocast(t),
        "torch matmul precision": t.get_float32_matmul_precision() if hasattr(t, "get_float32_matmul_precision") else "",
        "torch inference mode": t.is_inference_mode_enabled(),
        "torch print options": repr(getattr(t._tensor_str, "PRINT_OPTS", "")),
        "open files": len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0,
    }


_SHOW, _EXC = warnings.showwarning, sys.excepthook
_DEN, _ONE = np.array(1e-310), np.array(1.0)


def _autocast(t):
    try:
        return t.is_autocast_enabled("cpu")
    except TypeError:
        return t.is_autocast_enabled()


def _tden(t):
    return (t.full((1,), 1e-310, dtype=t.float64) * t.ones(1, dtype=t.float64))[0]


class Streams:
    """what reaches the standard streams while the library runs"""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.saved = (os.dup(1), os.dup(2))
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(), sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        for s in self.saved:
            os.close(s)
        self.f.seek(0)
        self.text = self.f.read().decode("utf8", "replace")
        self.f.close()
        return False


def check(spec, ctx):
    rng = rng_of(spec["seed"], 180)
    before = ambient()
    with Streams() as s:
        globals()["rel_" + spec["rel"]](spec, ctx, rng)
    ctx.count("stream_bytes_checked", 1 + len(s.text))
    if s.text.strip():
        raise Violation(f"calls wrote to the standard streams: {s.text[:200]!r}", key="stdout")
    after = ambient()
    for k in before:
        if before[k] != after[k]:
            raise Violation(f"calls changed the {k}: {before[k]} -> {after[k]}", key="ambient_changed")
    ctx.count("ambient_compared", len(before))


IMPORT = """
import sys, json
sys.path.insert(0, %r)
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import logging, numpy, scipy.optimize, scipy.linalg, scipy.fft, torch, torch.fft
try:
    import packaging.version
except ImportError:
    pass
from vlib.props import c18
b = c18.ambient(torch)
import fast_bss_eval
a = c18.ambient(torch)
print(json.dumps([k for k in a if a[k] != b[k]]))
"""


def rel_import(spec, ctx, rng):
    """importing the package leaves the process as it was and prints nothing"""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, "-c", IMPORT % (lib.REPO, here)], capture_output=True, text=True, cwd="/")
    if r.returncode:
        raise Violation(f"importing the package failed: {r.stderr[-600:]}", key="import")
    lines = r.stdout.strip().splitlines()
    if json.loads(lines[-1]):
        raise Violation(f"importing the package changed {json.loads(lines[-1])}", key="ambient_import")
    if len(lines) > 1 or r.stderr.strip():
        raise Violation(f"importing the package printed {(r.stdout + r.stderr)[:300]!r}", key="stdout")
    ctx.count("imports_checked")


def rel_history(spec, ctx, rng):
    pool = []
    shape = None
    for i in range(spec["ncalls"]):
        # several calls share shape and length, so that state keyed by them would be met
        c = a_call(rng, fixed_shape=shape if rng.random() < 0.6 else None)
        shape = shape or c
        r, e = args(c)
        pool.append([c, r, e, snap(r), snap(e), None, None])
    order = []
    failing = False
    for step in range(3 * len(pool)):
        k = int(rng.integers(len(pool)))
        c, r, e, sr, se, first, live = pool[k]
        if rng.random() < 0.15:
            fail(rng, c, r, e)
            failing = True
        out = fire(c, r, e)
        now = rec(out)
        order.append(k)
        for nm, x, s in (("reference", r, sr), ("estimate", e, se)):
            ctx.count("inputs_compared")
            if snap(x) != s:
                raise Violation(f"{show(c)}: the {nm} was modified by the call", key="input_modified")
        if first is None:
            pool[k][5], pool[k][6] = now, out
            ref, est = make_cast(c)
            exp = expect(c, ref, est)
            if "use_cg_iter" not in c["opts"]:
                judge(ctx, c, lib.normalise(c["fn"], out, c["opts"]), exp, show(c))
            continue
        ctx.count("repeat_events")
        if failing:
            ctx.count("after_failure_events")
        if not agree(ctx, c, first, now):
            raise Violation(f"{show(c)}: repeated call returned {[v.tolist() for v in now]} after {[v.tolist() for v in first]}"
                            f" (history {order})", key="history")
        if not frozen(first, rec(live)):
            raise Violation(f"{show(c)}: the outputs of an earlier call changed later", key="outputs_overwritten")
    ctx.nontrivial(digest(np.array(order), np.array([spec["seed"]])))


def fail(rng, c, r, e):
    """a call which is refused or degenerate; whatever it does, it must not leave traces"""
    r2, e2 = lib.to_np(r).copy(), lib.to_np(e).copy()
    k = int(rng.integers(4))
    if k == 0:
        e2[..., 0, :5] = np.nan
    elif k == 1:
        e2[...] = 0
    elif k == 2:
        r2[..., 0, 0] = np.inf
    else:
        e2 = e2[..., : max(1, e2.shape[-1] // 2)]
        r2[...] = 0
    try:
        fire(c, lib.to_backend(r2, c["backend"]), lib.to_backend(e2, c["backend"]))
    except (LibraryRaised, RuntimeError, ValueError):
        pass


def rel_ambient(spec, ctx, rng):
    t = lib.torch
    for _ in range(max(2, spec["ncalls"] // 2)):
        c = a_call(rng)
        r, e = args(c)
        base = rec(fire(c, r, e))
        for name in ("dtype64", "dtype32", "seed", "determ", "errignore", "errwarn", "no_grad", "no_grad_leaf",
                     "inference", "cwd", "print", "warnerror"):
            if rng.random() < 0.4:
                continue
            if name in ("no_grad_leaf", "inference") and c["backend"] != "pt":
                continue
            undo = []
            r1, e1 = r, e
            if name == "dtype64":
                t.set_default_dtype(t.float64)
                undo.append(lambda: t.set_default_dtype(t.float32))
            elif name == "dtype32":
                t.set_default_dtype(t.float16)
                undo.append(lambda: t.set_default_dtype(t.float32))
            elif name == "seed":
                st, ts = np.random.get_state(), t.get_rng_state()
                np.random.seed(int(rng.integers(2**31)))
                t.manual_seed(int(rng.integers(2**31)))
                undo.append(lambda: (np.random.set_state(st), t.set_rng_state(ts)))
            elif name == "determ":
                t.use_deterministic_algorithms(True)
                undo.append(lambda: t.use_deterministic_algorithms(False))
            elif name in ("errignore", "errwarn"):
                old = np.seterr(all=name[3:])
                undo.append(lambda: np.seterr(**old))
            elif name == "no_grad":
                t.set_grad_enabled(False)
                undo.append(lambda: t.set_grad_enabled(True))
            elif name == "no_grad_leaf":
                r1, e1 = r.clone().requires_grad_(), e.clone().requires_grad_(bool(rng.random() < 0.7))
                t.set_grad_enabled(False)
                undo.append(lambda: t.set_grad_enabled(True))
            elif name == "inference":
                im = t.inference_mode()
                im.__enter__()
                undo.append(lambda: im.__exit__(None, None, None))
            elif name == "cwd":
                old_d = os.getcwd()
                os.chdir("/tmp")
                undo.append(lambda: os.chdir(old_d))
            elif name == "print":
                po = np.get_printoptions()
                np.set_printoptions(precision=1, suppress=True)
                undo.append(lambda: np.set_printoptions(**po))
            elif name == "warnerror":
                import warnings

                if "use_cg_iter" in c["opts"] or not finite(base):
                    continue
                cm = warnings.catch_warnings()
                cm.__enter__()
                warnings.simplefilter("error", DeprecationWarning)
                undo.append(lambda: cm.__exit__(None, None, None))
            try:
                b = ambient()
                raw = fire(c, r1, e1)
                a = ambient()
                now = rec(raw)
            finally:
                for u in undo:
                    u()
            ctx.count("ambient_checked")
            if a != b:
                k = [k for k in a if a[k] != b[k]]
                raise Violation(f"{show(c)}: the call changed {k}", key="ambient_changed")
            if name in ("no_grad_leaf", "inference") and any(v.requires_grad for v in raw):
                raise Violation(f"{show(c)}: outputs track gradients although the caller disabled them", key="no_grad")
            if not agree(ctx, c, base, now):
                raise Violation(f"{show(c)}: the result depends on ambient state '{name}': {[v.tolist() for v in base]}"
                                f" {[v.tolist() for v in now]} {[str(v.dtype) for v in now]}", key="ambient_" + name)
        ctx.nontrivial(digest(*base))


def finite(vals):
    return all(np.all(np.isfinite(v)) for v in vals)


def rel_buffer(spec, ctx, rng):
    """the caller owns and reuses its buffers"""
    shape = a_call(rng)
    R, E = args(shape)
    log = []
    for i in range(spec["ncalls"]):
        c = a_call(rng, fixed_shape=shape)
        ref, est = make_cast(c)
        how = pick(rng, ["both", "ref", "est", "one_sample", "swap"])
        Rn, En = lib.to_np(R), lib.to_np(E)
        if how in ("both", "ref"):
            Rn[...] = ref
        if how in ("both", "est"):
            En[...] = est
        if how == "one_sample":
            Rn[..., 0, int(rng.integers(Rn.shape[-1]))] += np.abs(Rn).max() * 3
            En[..., -1, int(rng.integers(En.shape[-1]))] -= np.abs(En).max() * 3
        if how == "swap" and Rn.shape == En.shape:
            tmp = Rn.copy()
            Rn[...] = En
            En[...] = tmp
        got = fire(c, R, E)
        keep = rec(got)
        # scribble over the inputs once the call has returned
        save = Rn.copy(), En.copy()
        Rn[...] = 7.0
        En[...] = -3.0
        if not frozen(keep, rec(got)):
            raise Violation(f"{show(c)}: the outputs share memory with the inputs", key="alias")
        Rn[...], En[...] = save
        fresh = rec(fire(c, lib.to_backend(save[0].copy(), c["backend"]), lib.to_backend(save[1].copy(), c["backend"])))
        ctx.count("buffer_events")
        log.append(how)
        if not agree(ctx, c, keep, fresh, *save):
            raise Violation(f"{show(c)}: reused buffers gave {[v.tolist() for v in keep]}, fresh ones"
                            f" {[v.tolist() for v in fresh]} (history {log})", key="buffer")
    ctx.nontrivial(digest(np.array([spec["seed"]])))


def rel_fresh(spec, ctx, rng):
    """outputs are the caller's own"""
    for _ in range(spec["ncalls"]):
        c = a_call(rng)
        r, e = args(c)
        a = fire(c, r, e)
        first = rec(a)
        arr = [lib.to_np(v) for v in a]
        for i in range(len(arr)):
            for x, nm in ((lib.to_np(r), "reference"), (lib.to_np(e), "estimate")):
                if np.shares_memory(arr[i], x):
                    raise Violation(f"{show(c)}: output {i} shares memory with the {nm}", key="alias")
        for i, v in enumerate(arr):
            if not v.flags.writeable:
                raise Violation(f"{show(c)}: output {i} is read-only", key="alias")
            others = [w.copy() for w in arr]
            v[...] = 99
            for j, w in enumerate(arr):
                if j != i and not np.array_equal(w, others[j], equal_nan=True):
                    raise Violation(f"{show(c)}: writing to output {i} changes output {j}", key="alias")
        b = rec(fire(c, r, e))
        ctx.count("fresh_outputs_checked", len(arr))
        ctx.count("repeat_events")
        if not agree(ctx, c, first, b):
            raise Violation(f"{show(c)}: writing to the outputs of a call changed the next one: {[v.tolist() for v in b]}",
                            key="outputs_shared")
    ctx.nontrivial(digest(*first))


def rel_released(spec, ctx, rng):
    """nothing keeps the inputs alive"""
    for _ in range(3):
        c = a_call(rng)
        r, e = args(c)
        if rng.random() < 0.3:
            r = lib.to_backend(lib.to_np(r) * np.nan, c["backend"])
        if c["backend"] == "pt" and rng.random() < 0.5:
            r, e = r.clone().requires_grad_(), e.clone().requires_grad_()
        try:
            out = fire(c, r, e)
        except (LibraryRaised, RuntimeError):
            out = None
        w = [weakref.ref(r), weakref.ref(e)]
        del r, e, out
        gc.collect()
        ctx.count("released_checked", 2)
        if any(x() is not None for x in w):
            raise Violation(f"{show(c)}: an input is kept alive after the call", key="retained")
    ctx.nontrivial(digest(np.array([spec["seed"]])))


def held(backend):
    """bytes of Python and numpy memory; bytes of the tensors alive"""
    gc.collect()
    if backend == "np":
        return tracemalloc.get_traced_memory()[0]
    n, seen = 0, set()
    for o in gc.get_objects():
        if type(o) in TENSORS:
            st = o.untyped_storage()
            if st.data_ptr() not in seen:
                seen.add(st.data_ptr())
                n += st.nbytes()
    return n


def rel_growth(spec, ctx, rng):
    """many calls on fresh data of one shape hold no more memory than few did"""
    t = lib.torch
    TENSORS.update((t.Tensor, t.nn.Parameter))
    c = a_call(rng)
    c["T"] = int(rng.integers(3000, 8000))
    if "si_" not in c["fn"]:
        c["L"] = int(rng.integers(2, 65))
    c["batch"] = [] if rng.random() < 0.6 else [2]
    r0, e0 = (lib.to_np(x) for x in args(c))
    grad = c["backend"] == "pt" and rng.random() < 0.5
    size = r0.nbytes + e0.nbytes
    warm, n = 12, 40
    if c["backend"] == "np":
        tracemalloc.start()
    try:
        for i in range(warm + n):
            if i == warm:
                base = held(c["backend"])
            r, e = r0 + rng.standard_normal(r0.shape).astype(r0.dtype) * 0.05 * np.abs(r0).mean(), e0 * (1 + i)
            if rng.random() < 0.1:
                e[..., 0, 0] = np.nan
            r, e = lib.to_backend(r, c["backend"]), lib.to_backend(e, c["backend"])
            if grad:
                r.requires_grad_()
                e.requires_grad_()
            try:
                fire(c, r, e)
            except (LibraryRaised, RuntimeError, ValueError):
                ctx.count("growth_failed_calls")
        del r, e
        grown = held(c["backend"]) - base
    finally:
        if c["backend"] == "np":
            tracemalloc.stop()
    ctx.count("growth_calls", n)
    ctx.stat_max("memory growth per call, share of the inputs", max(0.0, grown / (n * size)))
    if grown > max(0.01 * n * size, 30000):
        raise Violation(f"{show(c)}: {n} further calls on signals of {size} bytes left {grown} bytes more in memory"
                        f" (gradients: {grad})", key="growth")
    ctx.nontrivial(digest(np.array([spec["seed"]])))


TENSORS = set()


# ---------------------------------------------------------------- threads
class Delays:
    """yields or sleeps at random lines of the package, and records the order
    in which threads execute them"""

    TOOL = 3

    def __init__(self, seed, p):
        self.p, self.seed = p, seed
        self.local = threading.local()
        self.trace = []
        self.switches = 0
        self.last = None
        self.where = set()

    def on_line(self, code, line):
        tid = threading.get_ident()
        if tid != self.last:
            if self.last is not None:
                self.switches += 1
                self.where.add((code.co_filename, line))
                if len(self.trace) < 5000:
                    self.trace.append((tid, line))
            self.last = tid
        rng = getattr(self.local, "rng", None)
        if rng is None:
            return
        x = rng.random()
        if x < self.p:
            time.sleep(0 if x < self.p * 0.8 else 1e-4)

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "delays")
        mon.register_callback(self.TOOL, mon.events.LINE, self.on_line)
        self.codes = codes()
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)


def codes():
    root = os.path.realpath(os.path.dirname(lib.fbe.__file__))
    seen = {}

    def visit(code):
        if code in seen:
            return
        if os.path.realpath(code.co_filename).startswith(root):
            seen[code] = 1
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    visit(c)

    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("fast_bss_eval"):
            continue
        for obj in list(vars(mod).values()):
            f = getattr(obj, "__wrapped__", obj)
            if isinstance(f, types.FunctionType):
                visit(f.__code__)
            elif isinstance(obj, type):
                for m in vars(obj).values():
                    m = getattr(m, "fget", m)
                    if isinstance(m, types.FunctionType):
                        visit(m.__code__)
    return list(seen)


def rel_threads(spec, ctx, rng):
    n = spec["nthreads"]
    pool = []
    shape = None
    for i in range(spec["ncalls"]):
        c = a_call(rng, fixed_shape=shape if rng.random() < 0.7 else None, budget=4e6)
        shape = shape or c
        r, e = args(c)
        pool.append((c, r, e, snap(r), snap(e)))
    base = [rec(fire(c, r, e)) for c, r, e, _, _ in pool]
    log = []
    start = threading.Barrier(n)
    old = sys.getswitchinterval()

    def work(k, d):
        mine = rng_of(spec["seed"], 181, k)
        d.local.rng = mine
        start.wait()
        for j in range(6):
            i = int(mine.integers(len(pool)))
            c, r, e = pool[i][:3]
            log.append(("start", k, i, None))
            try:
                if mine.random() < 0.1:
                    fail(mine, c, r, e)
                v = rec(fire(c, r, e))
            except BaseException as ex:
                v = ex
            log.append(("end", k, i, v))

    with Delays(spec["seed"], float(pick(rng, [0.02, 0.1, 0.3]))) as d:
        sys.setswitchinterval(float(pick(rng, [1e-6, 1e-5, 1e-4])))
        try:
            th = [threading.Thread(target=work, args=(k, d)) for k in range(n)]
            for x in th:
                x.start()
            for x in th:
                x.join()
        finally:
            sys.setswitchinterval(old)
    # offline: every call behaves as if it ran alone
    open_ = {}
    overlap = 0
    for kind, k, i, v in log:
        if kind == "start":
            overlap += len(open_) > 0
            open_[k] = i
            continue
        open_.pop(k)
        ctx.count("thread_events")
        c = pool[i][0]
        if isinstance(v, BaseException):
            raise Violation(f"{show(c)}: raised {v} when run concurrently", key="threads")
        if not agree(ctx, c, base[i], v):
            raise Violation(f"{show(c)}: concurrent call returned {[x.tolist() for x in v]}, alone"
                            f" {[x.tolist() for x in base[i]]}", key="threads")
    for (c, r, e, sr, se), b in zip(pool, base):
        ctx.count("inputs_compared", 2)
        if snap(r) != sr or snap(e) != se:
            raise Violation(f"{show(c)}: inputs modified by concurrent calls", key="input_modified")
        if not agree(ctx, c, b, rec(fire(c, r, e))):
            raise Violation(f"{show(c)}: a call after the concurrent ones differs", key="history")
    ctx.count("overlapping_calls", overlap)
    ctx.count("thread_switches_inside_package", d.switches)
    ctx.stat_max("distinct_switch_lines_one_case", len(d.where))
    ctx.nontrivial(digest(np.array([(hash(t) % 997, l) for t, l in d.trace] or [[spec["seed"], 0]])))


def worker_init():
    # torch sets an environment variable when this is first used
    lib.torch.use_deterministic_algorithms(True)
    lib.torch.use_deterministic_algorithms(False)
