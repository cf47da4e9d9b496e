"""Access to the code under test, and the monitors at its API boundary.

Everything that judges the library does so from here: `call` invokes a public
function of fast_bss_eval on freshly built inputs, counts the event, keeps a
logical step budget (backward/forward jumps executed inside the package), and
returns the outputs in a normalised form.
"""
import os
import sys
import types

REPO = os.environ.get("FBE_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import warnings

warnings.simplefilter("ignore")

if os.environ.get("FBE_NO_TORCH"):

    class _NoTorch:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name == "torch" or name.startswith("torch."):
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)

    sys.meta_path.insert(0, _NoTorch)

import numpy as np

np.seterr(all="ignore")

try:
    import torch

    torch.set_num_threads(1)
except ImportError:  # the numpy-only interpreter
    torch = None

from .core import LibraryRaised, Violation

if os.environ.get("FBE_MEMORY"):
    from . import memory

    memory.install()

import fast_bss_eval as fbe

_where = os.path.realpath(fbe.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"fast_bss_eval imported from {_where}, not from {REPO}")

REF_FIRST = ("bss_eval_sources", "sdr", "si_bss_eval_sources", "si_sdr")
EST_FIRST = ("sdr_loss", "sdr_pit_loss", "si_sdr_loss", "si_sdr_pit_loss")
SUB_EST_FIRST = ("pairwise_sdr_loss", "pairwise_si_sdr_loss")


# --------------------------------------------------------------------------
# logical step budget and line coverage (sys.monitoring, events local to the
# code objects of the package)
# --------------------------------------------------------------------------
class StepBudgetExceeded(BaseException):
    pass


class _Steps:
    def __init__(self):
        self.count = 0
        self.limit = None
        self.max_seen = 0
        self.lines = set()
        self.ncode = 0
        self.on = False

    def install(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None or self.on:
            return
        tool = 4
        try:
            mon.use_tool_id(tool, "vlib")
        except ValueError:
            return
        ev = mon.events

        def on_jump(code, off, dest):
            self.count += 1
            if self.limit is not None and self.count > self.limit:
                self.limit = None  # raise once
                raise StepBudgetExceeded("logical step budget exceeded")

        def on_line(code, line):
            self.lines.add((code.co_filename, line))
            return mon.DISABLE

        mon.register_callback(tool, ev.JUMP, on_jump)
        mon.register_callback(tool, ev.LINE, on_line)
        seen = set()
        root = os.path.realpath(os.path.dirname(fbe.__file__))

        def visit(code):
            if code in seen:
                return
            seen.add(code)
            if os.path.realpath(code.co_filename).startswith(root):
                mon.set_local_events(tool, code, ev.JUMP | ev.LINE)
                self.ncode += 1
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    visit(c)

        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith("fast_bss_eval"):
                continue
            for obj in list(vars(mod).values()):
                self._visit_obj(obj, visit)
        self.on = True

    @staticmethod
    def _visit_obj(obj, visit):
        if isinstance(obj, types.FunctionType):
            visit(obj.__code__)
        elif isinstance(obj, type):
            for m in vars(obj).values():
                if isinstance(m, property):
                    m = m.fget
                if isinstance(m, types.FunctionType):
                    visit(m.__code__)

    def begin(self, limit):
        self.count = 0
        self.limit = limit

    def end(self):
        self.max_seen = max(self.max_seen, self.count)
        self.limit = None


STEPS = _Steps()
STEP_LIMIT = 200_000


class Steps:
    """context manager: at most `limit` jumps inside the package"""

    def __init__(self, limit=STEP_LIMIT):
        self.limit = limit

    def __enter__(self):
        STEPS.begin(self.limit)

    def __exit__(self, *a):
        STEPS.end()
        return False


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------
EVENTS = {}  # (function, backend) -> number of calls observed


def np_dtype(name):
    return {"f32": np.float32, "f64": np.float64}[name]


def eps_of(dtype):
    return float(np.finfo(np_dtype(dtype)).eps)


def to_backend(x, backend):
    """x: numpy array with its final dtype"""
    if backend == "pt":
        return torch.from_numpy(np.array(x, order="C", copy=True))
    return x


def to_np(x):
    if torch is not None and isinstance(x, torch.Tensor):
        return x.detach().cpu().resolve_neg().numpy()
    return np.asarray(x)


def f64(x):
    return to_np(x).astype(np.float64)


def get_fn(name, backend, level="top"):
    if name in SUB_EST_FIRST:
        level = "sub"
    if level == "top":
        return getattr(fbe, name)
    return getattr(fbe.numpy if backend == "np" else fbe.torch, name)


def raw_call(name, backend, ref, est, level="top", limit=STEP_LIMIT, **opts):
    """ref, est: objects of the backend. Returns the raw outputs as a tuple"""
    fn = get_fn(name, backend, level)
    key = name + ":" + backend
    EVENTS[key] = EVENTS.get(key, 0) + 1
    batch = getattr(ref, "shape", ())[:-2]
    nb = 1
    for n in batch:
        nb *= int(n)
    STEPS.begin(limit and limit * (1 + nb // 8))
    try:
        if name in REF_FIRST:
            out = fn(ref, est, **opts)
        else:
            out = fn(est, ref, **opts)
    except StepBudgetExceeded:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        raise LibraryRaised(name, backend, e) from e
    finally:
        STEPS.end()
    if not isinstance(out, (tuple, list)):
        out = (out,)
    return tuple(out)


class Out:
    """normalised outputs: float64 arrays sdr/sir/sar in positive-dB convention"""

    __slots__ = ("sdr", "sir", "sar", "perm", "raw")

    def __init__(self, sdr=None, sir=None, sar=None, perm=None, raw=None):
        self.sdr, self.sir, self.sar, self.perm, self.raw = sdr, sir, sar, perm, raw

    def metrics(self):
        return [
            (n, getattr(self, n))
            for n in ("sdr", "sir", "sar")
            if getattr(self, n) is not None
        ]


BadShape = Violation


def normalise(name, outs, opts):
    if name in ("bss_eval_sources", "si_bss_eval_sources"):
        n = 4 if opts.get("compute_permutation", True) else 3
        if len(outs) != n:
            raise BadShape(f"{name} returned {len(outs)} values instead of {n}")
        o = [f64(v) for v in outs[:3]]
        p = to_np(outs[3]) if n == 4 else None
        return Out(o[0], o[1], o[2], p, outs)
    if name in ("sdr", "si_sdr"):
        n = 2 if opts.get("return_perm", False) else 1
        if len(outs) != n:
            raise BadShape(f"{name} returned {len(outs)} values instead of {n}")
        s = f64(outs[0])
        if opts.get("change_sign", False):
            s = -s
        return Out(sdr=s, perm=to_np(outs[1]) if n == 2 else None, raw=outs)
    if len(outs) != 1:
        raise BadShape(f"{name} returned {len(outs)} values instead of 1")
    return Out(sdr=-f64(outs[0]), raw=outs)


def call(name, backend, ref, est, level="top", limit=STEP_LIMIT, **opts):
    """ref, est: numpy arrays (converted to the backend); returns Out"""
    r = to_backend(ref, backend)
    e = to_backend(est, backend)
    return normalise(name, raw_call(name, backend, r, e, level, limit, **opts), opts)
