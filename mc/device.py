"""A simulated accelerator: tensors that live on a device of their own.

The values are held by ordinary tensors, so that results can be compared exactly, but an
operator refuses what a real accelerator refuses: mixing devices (other than copies, index
tensors and zero-dimensional operands of the host) and reading the memory from the host.
"""
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from torch.utils._pytree import tree_flatten, tree_map_only, tree_unflatten

aten = torch.ops.aten
NAME = "simdev"
_ready = False


def setup():
    global _ready
    if not _ready:
        from torch.utils.backend_registration import _setup_privateuseone_for_python_backend

        _setup_privateuseone_for_python_backend(NAME)
        getattr(torch, NAME).get_amp_supported_dtype = lambda: [torch.float16, torch.bfloat16]
        # what the C++ side calls by itself, e.g. for the index [k] of x[..., [k]]
        lib = torch.library.Library("aten", "IMPL")
        lib.impl("empty_strided", _empty_strided, "PrivateUse1")
        lib.impl("empty.memory_format", _empty, "PrivateUse1")
        lib.impl("_copy_from", _copy_from, "PrivateUse1")
        globals()["_lib"] = lib
        _ready = True


def _empty_strided(size, stride, dtype=None, layout=None, device=None, pin_memory=None):
    return Dev(torch.empty_strided(size, stride, dtype=dtype))


def _empty(size, dtype=None, layout=None, device=None, pin_memory=None, memory_format=None):
    return Dev(torch.empty(size, dtype=dtype))


def _copy_from(src, dst, non_blocking=False):
    host(dst).copy_(host(src))
    return dst


class DeviceError(RuntimeError):
    pass


COUNT = dict(ops=0, transfers=0)
MOVES = {aten.copy_.default, aten._to_copy.default, aten._local_scalar_dense.default}
INDEX = {aten.index.Tensor: (0,), aten.index_put.default: (0,), aten.index_put_.default: (0,), aten._index_put_impl_.default: (0,)}


def is_dev(d):
    return d is not None and torch.device(d).type == NAME


def plain(x):
    return x.resolve_conj().resolve_neg() if torch.is_tensor(x) else x


class Dev(torch.Tensor):
    @staticmethod
    def __new__(cls, data):
        setup()
        r = torch.Tensor._make_wrapper_subclass(
            cls, data.shape, strides=data.stride(), storage_offset=data.storage_offset(), dtype=data.dtype, device=torch.device(NAME, 0)
        )
        r._data = data
        return r

    def __repr__(self):
        return f"Dev({self._data})"

    def numpy(self, *a, **k):
        raise DeviceError("can't convert a tensor of the device to numpy")

    def __deepcopy__(self, memo):
        r = type(self)(self._data.detach().clone())
        memo[id(self)] = r
        return r.requires_grad_(self.requires_grad) if self.is_leaf else r

    def tolist(self):
        with _disable_current_modes():
            return self._data.tolist()

    def __array__(self, *a, **k):
        raise DeviceError("can't convert a tensor of the device to numpy")

    def data_ptr(self):
        raise DeviceError("host access to the memory of the device")

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return execute(func, args, kwargs or {})


def _lstm_cell(ig, hg, cx, ib=None, hb=None):
    """the kernel of accelerators for the LSTM"""
    gates = ig + hg
    if ib is not None:
        gates = gates + ib + hb
    i, f, g, o = gates.chunk(4, 1)
    i, f, g, o = i.sigmoid(), f.sigmoid(), g.tanh(), o.sigmoid()
    cy = f * cx + i * g
    return o * cy.tanh(), cy, torch.cat((i, f, g, o), dim=1)


def _lstm_cell_backward(ghy, gcy, cx, cy, work, has_bias):
    i, f, g, o = work.chunk(4, 1)
    t = cy.tanh()
    ghy = torch.zeros_like(cy) if ghy is None else ghy
    gc = ghy * o * (1 - t * t)
    if gcy is not None:
        gc = gc + gcy
    grad = torch.cat((gc * g * i * (1 - i), gc * cx * f * (1 - f), gc * i * (1 - g * g), ghy * t * o * (1 - o)), dim=1)
    return grad, gc * f, grad.sum(0) if has_bias else None


KERNELS = {aten._thnn_fused_lstm_cell.default: _lstm_cell, aten._thnn_fused_lstm_cell_backward_impl.default: _lstm_cell_backward}


def execute(func, args, kwargs):
    flat, spec = tree_flatten((args, kwargs))
    devs = [a for a in flat if isinstance(a, Dev)]
    target = kwargs.get("device")
    COUNT["ops"] += 1
    if func in MOVES:
        COUNT["transfers"] += 1
    elif devs:
        hosts = [a for a in flat if torch.is_tensor(a) and not isinstance(a, Dev)]
        if func in INDEX:  # index tensors may be on the host, the values not
            keep = [args[0]] + ([args[2]] if len(args) > 2 else [])
            hosts = [a for a in keep if torch.is_tensor(a) and not isinstance(a, Dev)]
            if not isinstance(args[0], Dev):
                raise DeviceError(f"{func}: host tensor indexed by a tensor of the device")
        if any(a.ndim > 0 for a in hosts):
            raise DeviceError(f"{func}: expected all tensors to be on the same device, found some on the host {[tuple(a.shape) for a in hosts]}")
    if target is not None:
        on = is_dev(target)
    elif func is aten.copy_.default:
        on = isinstance(args[0], Dev)
    else:
        on = bool(devs)
    inner = tree_unflatten([a._data if isinstance(a, Dev) else a for a in flat], spec)
    iargs, ikw = inner
    ikw = dict(ikw)
    if target is not None:
        ikw["device"] = torch.device("cpu")
    with _disable_current_modes(), torch._C._PreserveDispatchKeyGuard():
        # kernels made of several operators rely on lazy conjugation
        torch._C._dispatch_tls_set_dispatch_key_excluded(torch._C.DispatchKey.Conjugate, False)
        torch._C._dispatch_tls_set_dispatch_key_excluded(torch._C.DispatchKey.Negative, False)
        out = KERNELS.get(func, func)(*iargs, **ikw)
    if torch.Tag.inplace_view in func.tags and isinstance(args[0], Dev):
        # the same change of shape for the wrapper
        with torch.utils._mode_utils.no_dispatch():
            func(*args, **kwargs)
        return args[0]
    if not on:
        return out

    def wrap(o):
        for a in devs:  # in-place and out= results keep their identity
            if a._data is o:
                return a
        return Dev(plain(o))

    out = tree_map_only(torch.Tensor, wrap, out)
    return out


class Simulated(TorchDispatchMode):
    """factories with the device of the accelerator, transfers to it"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if is_dev(kwargs.get("device")) or any(isinstance(a, Dev) for a in tree_flatten((args, kwargs))[0]):
            return execute(func, args, kwargs)
        return func(*args, **kwargs)


def to_device(x):
    return Dev(x.detach().clone())


def host(x):
    return x._data if isinstance(x, Dev) else x
