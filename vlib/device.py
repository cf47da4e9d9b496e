"""A second device without the hardware: tensors which say they are elsewhere (`meta`) and
hold their samples on the CPU. Every operator goes through a dispatch mode which applies the
rules of a real accelerator: operands on one device (CPU scalars of zero dimensions excepted),
copies across devices allowed, factories obey the device they are given and default to the CPU.
"""
import contextlib

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_unflatten

VDEV = torch.device("meta")


class Mixed(Exception):
    """operands on two devices"""


class VTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, real):
        r = torch.Tensor._make_wrapper_subclass(
            cls, real.shape, strides=real.stride(), storage_offset=real.storage_offset(), dtype=real.dtype, device=VDEV
        )
        r.real_ = real
        return r

    __torch_function__ = torch._C._disabled_torch_function_impl

    def tolist(self):
        return self.real_.tolist()

    def new_tensor(self, data, **kw):
        return make(data, dtype=kw.get("dtype") or self.dtype, device=kw.get("device") or VDEV)

    def numpy(self, *a, **k):
        raise Mixed("numpy array of a tensor which is not on the cpu")

    def __array__(self, *a, **k):
        raise Mixed("numpy array of a tensor which is not on the cpu")

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return run(func, args, kwargs or {}, None)


def is_virtual(x):
    return isinstance(x, VTensor)


def real(x):
    return x.real_ if is_virtual(x) else x


def make(data, dtype=None, device=None):
    if isinstance(data, torch.Tensor):
        data = real(data)
    elif isinstance(data, (list, tuple)):
        data = [real(x) if isinstance(x, torch.Tensor) else x for x in data]
    t = torch.tensor(data, dtype=dtype)
    return VTensor(t) if device is not None and torch.device(device).type == VDEV.type else t


CROSS = ("aten::copy_", "aten::_to_copy", "aten::to", "aten::set_", "aten::resize_")
INDEX = ("aten::index", "aten::index_put", "aten::index_put_", "aten::_index_put_impl_", "aten::_unsafe_index")


def run(func, args, kwargs, log):
    name = func._schema.name
    flat, spec = tree_flatten((args, kwargs))
    tens = [x for x in flat if isinstance(x, torch.Tensor)]
    virt = [x for x in tens if is_virtual(x)]
    host = [x for x in tens if not is_virtual(x)]
    dev = kwargs.get("device")
    if log is not None:
        log["virtual_ops"] = log.get("virtual_ops", 0) + bool(virt)
    if name not in CROSS and virt and host:
        if name in INDEX:
            # indices may come from the host when the indexed tensor is on the device, values of one element too
            bad = not is_virtual(args[0]) or (len(args) > 2 and not is_virtual(args[2]) and args[2].numel() > 1)
        else:
            bad = any(x.dim() > 0 for x in host)
        if bad:
            raise Mixed(f"{name} on " + ", ".join(f"{'device' if is_virtual(x) else 'cpu'}{tuple(x.shape)}" for x in tens))
    out_virtual = bool(virt)
    if name == "aten::copy_":
        out_virtual = is_virtual(args[0])
    if dev is not None:
        out_virtual = torch.device(dev).type == VDEV.type
        kwargs = dict(kwargs, device=torch.device("cpu"))
        flat, spec = tree_flatten((args, kwargs))
    a, k = tree_unflatten([real(x) for x in flat], spec)
    out = func(*a, **k)
    same = {id(real(x)): x for x in tens}

    def wrap(y):
        if not isinstance(y, torch.Tensor):
            return y
        if id(y) in same:  # in-place
            return same[id(y)]
        if not out_virtual:
            return y
        # lazily conjugated or negated views are resolved: the wrapper does not carry the bit
        y = y.resolve_conj().resolve_neg()
        return VTensor(y)

    of, os_ = tree_flatten(out)
    if log is not None and not tens and any(isinstance(y, torch.Tensor) for y in of):
        log["factories"] = log.get("factories", 0) + 1
    return tree_unflatten([wrap(y) for y in of], os_)


class Ops(TorchDispatchMode):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return run(func, args, kwargs or {}, self.log)


class Constants(TorchFunctionMode):
    """torch.tensor does not reach the dispatcher before it is on its device"""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.tensor, torch.as_tensor, torch.asarray) and kwargs.get("device") is not None:
            if not isinstance(args[0], torch.Tensor):
                return make(args[0], kwargs.get("dtype"), kwargs["device"])
        return func(*args, **kwargs)


@contextlib.contextmanager
def virtual_device():
    log = {}
    with Constants(), Ops(log):
        yield log


def on_device(x):
    return VTensor(x.clone())
