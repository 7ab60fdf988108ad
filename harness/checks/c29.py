"""C29: moving data between array libraries keeps it."""

from functools import partial

import numpy as np
from core import Section
from gens import array, layout, pick, sig, span
from util import quiet

OPTIONAL = "tensorflow torch keras"

RULE = (
    "A case moves one random array between the installed libraries (numpy, tensorflow, "
    "torch) and back, or asks for a library that is missing; library, type, values and "
    "warnings are judged.  Non-trivial: more than one element."
)
ASSUMPTIONS = ["cupy needs a GPU: only its absence is exercised"]


class Derived(np.ndarray):
    """An array of the user's own class."""


def data(rng, types):
    """An array of any size, type and layout; floats may hold nan and inf."""
    shape = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
    if rng.random() < 0.1:
        shape = ()
    if rng.random() < 0.1:
        shape = (span(rng, 7, 200, 3000),)
    x = array(rng, shape, dtype=pick(rng, float, float, complex), plain=True)
    dt = np.dtype(pick(rng, *types))
    if dt.kind != "c":
        x = np.abs(x)
    with np.errstate(all="ignore"):
        x = x.astype(dt)
    if dt.kind in "fc" and rng.random() < 0.2:
        x.flat[int(rng.integers(x.size))] = pick(rng, np.nan, np.inf, -np.inf, -0.0)
    return layout(rng, x)


def setup(ctx):
    with quiet():
        import modopt.base.backend  # noqa: F401


def moves(ctx, rng, i):
    from modopt.base import backend as be

    tnp = be.LIBRARIES["tensorflow"]
    x = data(rng, (float, np.float32, np.float16, np.int32, np.int64, np.uint8, bool,
                   complex, np.complex64))
    x0 = np.array(x)
    same = partial(np.array_equal, equal_nan=x0.dtype.kind in "fc")
    ctx.info(data=x0)
    ctx.check(be.get_array_module(x) is np, "module of a numpy array")
    ctx.check(be.get_array_module([1, 2]) is np, "module of a list")
    ctx.check(be.move_to_cpu(x) is x, "a numpy array stays as it is")
    with quiet() as (_, err):
        ctx.check(be.change_backend(x, "numpy") is x, "numpy to numpy")
        for y in (x.view(Derived), np.ma.masked_array(x, np.zeros(x.shape, bool))):
            ctx.check(be.change_backend(y, "numpy") is y and be.move_to_cpu(y) is y,
                      f"{type(y)}: data in place are returned as they are")
    ctx.check(err.getvalue() == "", "warning for numpy")
    with quiet() as (_, err):
        lib, name = be.get_backend("numpy")
    ctx.check(lib is np and name == "numpy" and not err.getvalue(), "numpy backend")
    bad = pick(rng, "cupy", "jax", "", "Numpy", "torch")
    with quiet() as (_, err):
        lib, name = be.get_backend(bad)
    ctx.check(lib is np and name == "numpy", f"backend {bad!r}: {name}")
    ctx.check("WARNING" in err.getvalue() and bad in err.getvalue(), "warning")
    with quiet() as (_, err):
        res = be.change_backend(x, *([] if rng.random() < 0.5 else [bad]))
    ctx.check(res is x and "WARNING" in err.getvalue(), "missing library: data stays")
    if tnp is not None:
        with quiet() as (_, err):
            lib, name = be.get_backend("tensorflow")
            ctx.check(lib is tnp and name == "tensorflow" and not err.getvalue(),
                      "tensorflow backend")
            t = be.change_backend(x, "tensorflow")
        ctx.check(be.get_array_module(t) is tnp, "module of a tensorflow array")
        ctx.check(be.change_backend(t, "tensorflow") is t, "tensorflow to tensorflow")
        back = be.move_to_cpu(t)
        # (tensorflow gives a scalar for the one element of a zero-dimensional array)
        ctx.check(type(back) is np.ndarray or x0.shape == () and isinstance(
            back, np.generic), f"back on the CPU: {type(back)}")
        ctx.check(back.dtype == x0.dtype and back.shape == x0.shape and same(back, x0),
                  "values", got=back)
        n = be.change_backend(t, "numpy")
        ctx.check(isinstance(n, np.ndarray) and same(n, x0), "tensorflow to numpy")
        ctx.obs("tensorflow moves")
    ctx.check(same(x, x0), "input modified")
    if x.size > 1:
        ctx.seen(sig(x0))
    ctx.sample(shape=x.shape)


def tensors(ctx, rng, i):
    import torch
    from modopt.base import backend as be

    x = np.array(data(rng, (float, np.float32, np.int32, np.int64, np.uint8, bool)),
                 order="C")
    x0, shape = np.array(x), x.shape
    same = partial(np.array_equal, equal_nan=x0.dtype.kind in "fc")
    t = be.convert_to_tensor(x)
    ctx.check(isinstance(t, torch.Tensor) and t.dtype == torch.float32, "a float tensor")
    ctx.check(tuple(t.shape) == shape, "shape")
    ctx.check(same(t.numpy(), x0.astype(np.float32)), "values")
    back = be.convert_to_cupy_array(t)
    ctx.check(isinstance(back, np.ndarray), "an array")
    ctx.check(same(back, x0.astype(np.float32)), "values back")
    g = torch.tensor(x0.astype(np.float32), requires_grad=True)
    back = be.convert_to_cupy_array(g)
    ctx.check(same(back, x0.astype(np.float32)), "values of a tracked tensor")
    ctx.check(same(x, x0), "input modified")
    for dt in (torch.float64, torch.int32, torch.complex64, torch.bool):
        u = torch.from_numpy(x0).to(dt)
        back = be.convert_to_cupy_array(u)
        ctx.check(isinstance(back, np.ndarray) and back.dtype == u.numpy().dtype
                  and same(back, u.numpy()), f"a tensor of type {dt}", got=back)
    if x.size > 1:
        ctx.seen("torch", sig(x0))


SECTIONS = [
    Section("moves", moves, 300, 4000),
    Section("tensors", tensors, 300, 4000),
]
