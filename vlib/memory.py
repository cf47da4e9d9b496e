"""Memory monitors: guarded allocation for numpy and torch, bounds of strided
views. Installed before the code under test is imported (FBE_MEMORY=1)."""
import ctypes
import os
import subprocess
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "native", "guard.c")


def build(outdir):
    """compiles the guarded allocator; returns its path"""
    os.makedirs(outdir, exist_ok=True)
    so = os.path.join(outdir, "libguard.so")
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(SRC):
        return so
    fd, tmp = tempfile.mkstemp(dir=outdir, suffix=".so")
    os.close(fd)
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, SRC, "-lpthread"], check=True)
    os.replace(tmp, so)
    return so


VIEWS = {"np": 0, "pt": 0}
BAD = []


def byte_bounds(x):
    return np.lib.array_utils.byte_bounds(x) if hasattr(np.lib, "array_utils") else np.byte_bounds(x)


def install_views():
    """every strided view must lie within the memory of the array it is made of"""
    st = np.lib.stride_tricks
    orig = st.as_strided

    def as_strided(x, shape=None, strides=None, *a, **k):
        y = orig(x, shape, strides, *a, **k)
        VIEWS["np"] += 1
        src = np.asarray(x)
        if y.size and (src.size == 0 or byte_bounds(y)[0] < byte_bounds(src)[0] or byte_bounds(y)[1] > byte_bounds(src)[1]):
            BAD.append(f"numpy view of shape {y.shape}, strides {y.strides} over an array of shape {src.shape},"
                       f" strides {src.strides} reaches {byte_bounds(y)[1] - byte_bounds(src)[1]} bytes beyond its end,"
                       f" {byte_bounds(src)[0] - byte_bounds(y)[0]} before its start")
        return y

    st.as_strided = as_strided
    impl = getattr(np.lib, "_stride_tricks_impl", None)
    if impl is not None:
        impl.as_strided = as_strided
    try:
        import torch
    except ImportError:
        return
    o_t = torch.as_strided
    o_m = torch.Tensor.as_strided

    def extent(size, stride, offset):
        if any(s == 0 for s in size):
            return None
        hi = offset + sum((n - 1) * s for n, s in zip(size, stride) if s > 0)
        lo = offset + sum((n - 1) * s for n, s in zip(size, stride) if s < 0)
        return lo, hi

    def watch(orig):
        def as_strided(x, size, stride, storage_offset=None):
            y = orig(x, size, stride) if storage_offset is None else orig(x, size, stride, storage_offset)
            VIEWS["pt"] += 1
            a = extent(y.shape, y.stride(), y.storage_offset())
            b = extent(x.shape, x.stride(), x.storage_offset())
            if a is not None and (b is None or a[0] < b[0] or a[1] > b[1]):
                BAD.append(f"torch view of shape {tuple(y.shape)}, strides {y.stride()} over a tensor of shape"
                           f" {tuple(x.shape)}, strides {x.stride()} spans elements {a}, the tensor {b}")
            return y

        return as_strided

    torch.as_strided = watch(o_t)
    torch.Tensor.as_strided = watch(o_m)


class Alloc(ctypes.Structure):
    _fields_ = [("ctx", ctypes.c_void_p)] + [(n, ctypes.c_void_p) for n in ("malloc", "calloc", "realloc", "free")]


class Handler(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char * 127), ("version", ctypes.c_uint8), ("allocator", Alloc)]


class Guard:
    def __init__(self):
        self.lib = None
        self.np_on = False

    def load(self, so):
        g = self.lib = ctypes.CDLL(so)
        g.guard_stat.restype = ctypes.c_ulong
        g.guard_owns.argtypes = [ctypes.c_void_p]
        addr = lambda f: ctypes.cast(f, ctypes.c_void_p).value
        h = self.handler = Handler()
        h.name, h.version = b"guard", 1
        h.allocator = Alloc(None, addr(g.guard_malloc), addr(g.guard_calloc), addr(g.guard_realloc), addr(g.guard_free))
        api = ctypes.pythonapi
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        self.capname = ctypes.create_string_buffer(b"mem_handler")
        self.capsule = api.PyCapsule_New(ctypes.addressof(h), ctypes.cast(self.capname, ctypes.c_char_p), None)
        core = getattr(np, "_core", None) or np.core
        table = api.PyCapsule_GetPointer(core._multiarray_umath._ARRAY_API, None)
        slot = ctypes.cast(table, ctypes.POINTER(ctypes.c_void_p))
        self.set_h = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(slot[304])
        self.get_h = ctypes.PYFUNCTYPE(ctypes.py_object)(slot[305])

    def numpy_on(self):
        self.old = self.set_h(self.capsule)
        self.np_on = True

    def numpy_off(self):
        if self.np_on:
            self.set_h(self.old)
            self.np_on = False

    def mode(self, torch_on, placement, fill):
        self.lib.guard_set(int(torch_on), placement, fill)

    def stats(self):
        n = ["blocks", "released", "canaries_overwritten", "fallbacks", "bytes", "torch_blocks", "bad_frees"]
        return {k: int(self.lib.guard_stat(i)) for i, k in enumerate(n)}


GUARD = Guard()


def install():
    install_views()
    so = os.environ.get("FBE_GUARD_SO")
    if so:
        GUARD.load(so)
