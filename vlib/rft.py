"""
Helpers for the checks on the RETURNN frontend (torch backend).

Reference representation of a tensor: dict {index tuple (in a given order of dims): python value}, only over the valid (not padded) positions.
"""

from __future__ import annotations
import itertools, math


def init(behavior_version=22):
    """in the parent, before forking: compile the native code from the current tree and import everything"""
    from returnn.log import log

    log.initialize(verbosity=[0])
    import torch

    torch.set_num_threads(1)
    from returnn.util.basic import BackendEngine, BehaviorVersion

    BehaviorVersion.set_min_behavior_version(behavior_version)
    BackendEngine.select_engine(engine=BackendEngine.Torch)
    import returnn.frontend as rf

    rf.select_backend_torch()
    rf.init_forward_step_run_ctx()


def static(n, name):
    from returnn.tensor import Dim

    return Dim(int(n), name=name)


def dyn(lens, over, name):
    """dynamic dim. lens: nested list over the dims `over`, or int if over is empty"""
    import torch
    from returnn.tensor import Dim, Tensor

    ext = Tensor(name + "_len", list(over), dtype="int32", raw_tensor=torch.tensor(lens, dtype=torch.int32))
    return Dim(ext, name=name)


def dim_len(dim, idx):
    if dim.dimension is not None:
        return int(dim.dimension)
    ext = dim.dyn_size_ext
    if ext is None or ext.raw_tensor is None:
        dim.complete_dyn_size()
        ext = dim.dyn_size_ext
    return int(ext.raw_tensor[tuple(idx[d] for d in ext.dims)].item() if ext.dims else ext.raw_tensor.item())


def max_len(dim):
    if dim.dimension is not None:
        return int(dim.dimension)
    dim.complete_dyn_size()
    r = dim.dyn_size_ext.raw_tensor
    return int(r.max().item()) if r.numel() else 0


def valid(dims, fixed=None):
    """:return: yields {dim: i} for all valid positions"""
    fixed = dict(fixed or {})
    todo = [d for d in dims if d not in fixed]

    def rec(todo, idx):
        if not todo:
            yield idx
            return
        for k, d in enumerate(todo):
            if d.dimension is None:
                d.complete_dyn_size()
            deps = [x for x in d.dyn_size_ext.dims] if d.dimension is None else []
            if all(x in idx for x in deps):
                break
        else:
            raise Exception(f"cannot resolve dims {todo}: dependency on dims which are not there")
        rest = todo[:k] + todo[k + 1 :]
        for i in range(dim_len(d, idx)):
            yield from rec(rest, {**idx, d: i})

    yield from rec(todo, fixed)


def mk(dims, func, *, dtype="float32", pad=float("nan"), name="x", sparse_dim=None, feature_dim=None, sizes=None):
    """
    :param func: (index tuple in order of dims) -> value
    :param pad: value in the padding
    """
    import torch
    from returnn.tensor import Tensor

    shape = [max_len(d) for d in dims]
    dt = getattr(torch, dtype)
    raw = torch.full(shape, pad, dtype=dt) if dt.is_floating_point else torch.full(shape, int(pad) if pad == pad else 0, dtype=dt)
    for idx in valid(dims):
        t = tuple(idx[d] for d in dims)
        raw[t] = func(t)
    kw = {}
    if sparse_dim is not None:
        kw["sparse_dim"] = sparse_dim
    if feature_dim is not None:
        kw["feature_dim"] = feature_dim
    return Tensor(name, list(dims), dtype=dtype, raw_tensor=raw, **kw)


def get(t, dims, extra=()):
    """
    :return: {index tuple over dims: value}.
    :param dims: must be exactly the dims of the tensor (any order)
    """
    if set(t.dims) != set(dims) or len(t.dims) != len(dims):
        raise ValueError(f"result has dims {t.dims}, expected {list(dims)}")
    if t.raw_tensor is None:
        raise ValueError(f"result {t} has no data")
    raw = t.raw_tensor.detach()
    # (the padded size of a dim may be larger than its longest sequence, e.g. for a sum of two ragged dims)
    if any(n != max_len(d) and not (n == int(d.get_dim_value()) > max_len(d)) for n, d in zip(raw.shape, t.dims)) or raw.dim() != len(t.dims):
        raise ValueError(f"raw shape {tuple(raw.shape)} does not fit to dims {t.dims}, sizes {[max_len(d) for d in t.dims]}")
    out = {}
    lst = raw.tolist()
    for idx in valid(dims):
        v = lst
        for d in t.dims:
            v = v[idx[d]]
        out[tuple(idx[d] for d in dims)] = v
    return out


def same(a, b, tol=1e-5):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, float) or isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def diff(got, exp, tol=1e-5):
    """:return: None or description"""
    if set(got) != set(exp):
        return f"positions differ: missing {sorted(set(exp) - set(got))[:6]}, unexpected {sorted(set(got) - set(exp))[:6]}"
    for k in exp:
        if not same(got[k], exp[k], tol):
            return f"at {k}: {got[k]}, expected {exp[k]}"
    return None
