"""C30: the positivity operator keeps positive values and zeroes the rest."""

import numpy as np
from core import Section
from gens import array, dims, layout, pick, sig
from modopt.opt.proximity import Positivity
from modopt.signal import positivity as ps
from util import quiet

RULE = (
    "A case is a scalar, an array (shape, type and layout vary), or a random nested "
    "ragged structure; the result must have the same structure with max(x, 0) in every "
    "place, and the input must be unchanged.  Non-trivial: a negative and a positive "
    "value somewhere."
)


def arrays(ctx, rng, i):
    shape = dims(rng, 0, 5, int(rng.integers(1, 4)))
    if rng.random() < 0.8:
        shape = tuple(max(v, 1) for v in shape)
    if rng.random() < 0.05:
        shape = ()
    x = array(rng, shape, dtype=pick(rng, float, np.float32, int, np.int16))
    if x.dtype.kind == "f" and x.size and rng.random() < 0.4:
        # the limits of the type: subnormal, largest, signed zero
        fi = np.finfo(x.dtype)
        ext = np.array([fi.smallest_subnormal, fi.tiny, fi.eps, fi.max, 0.0, -0.0, 1.0],
                       dtype=x.dtype)
        where = rng.random(x.shape) < 0.5
        x = np.where(where, rng.choice(ext, x.shape) * pick(rng, 1, -1), x)
    elif x.dtype.kind == "i" and x.size and rng.random() < 0.3:
        ii = np.iinfo(x.dtype)
        x = np.where(rng.random(x.shape) < 0.5, rng.choice([ii.min, ii.max], x.shape), x)
        x = x.astype(ii.dtype)
    if rng.random() < 0.15:
        x = layout(rng, np.abs(x).astype(pick(rng, np.uint8, np.uint32, np.uint64)))
    elif x.dtype.kind == "f" and x.size and rng.random() < 0.1:
        x = np.array(x)
        x.flat[int(rng.integers(x.size))] = np.inf
    x0 = np.array(x)
    form = pick(rng, "array", "list", "tuple", "prox") if x.size and x.ndim else "array"
    arg = {"array": x, "list": x0.tolist(), "tuple": tuple(x0.tolist()) if x0.ndim else None, "prox": x}[form]
    fn = Positivity().op if form == "prox" else ps.positive
    ctx.info(data=x0, form=form)
    got = fn(arg)
    if form == "prox" and rng.random() < 0.5:
        got = fn(arg, extra_factor=0.3)
    got = np.asarray(got)
    ctx.check(got.dtype != object, "a regular array became an object array")
    ctx.check(got.shape == x0.shape, "shape")
    ctx.check(np.array_equal(got, np.maximum(x0, 0)), "values", got=got)
    ctx.check(np.array_equal(fn(got), got), "idempotent")
    ctx.check(np.array_equal(x, x0), "input modified")
    if form in ("array", "prox"):
        ctx.check(got.dtype == x0.dtype, f"type {got.dtype}")
        if x.size and got.ndim and x.flags.writeable:
            got[...] = 7
            ctx.check(np.array_equal(x, x0), "the result shares memory with the input")
    v = pick(rng, float(rng.standard_normal()), int(rng.integers(-9, 9)), 0, -0.5, 0.0,
             1e-310, -1e-310, 1e308, 2**70, -(2**70), 1e-17)
    ctx.check(ps.positive(v) == max(v, 0), f"scalar {v}")
    for bad in ("a", None, {1: 2}, 1j, {1, 2}):
        ctx.raises(TypeError, lambda: ps.positive(bad), f"input {bad!r}")
    if x.size and x0.min() < 0 < x0.max():
        ctx.seen(form, sig(x0))
    ctx.sample(result=got)


def nest(rng, depth):
    """Nested structure with leaves that are arrays; (value, leaves)."""
    n = dims(rng, 1, 4, 1, 80)[0]
    items = []
    for _ in range(n):
        if depth > 0 and rng.random() < 0.4:
            items.append(nest(rng, depth - 1))
        else:
            items.append(array(rng, dims(
                rng, 1, 4, int(rng.integers(1, 3))), dtype=pick(rng, float, int)))
    kind = pick(rng, "object", "object", "list", "tuple")
    if kind == "object":
        res = np.empty(n, dtype=object)
        for k, it in enumerate(items):
            res[k] = it
        return res
    return items if kind == "list" else tuple(items)


def leaves(v, path=()):
    if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.dtype == object):
        for k, it in enumerate(v):
            yield from leaves(it, (*path, k))
    else:
        yield path, np.array(v)


def ragged(ctx, rng, i):
    v = nest(rng, int(rng.integers(0, 3)))
    before = list(leaves(v))
    ctx.info(structure=v)
    got = ps.positive(v, ragged=True)
    after = list(leaves(got))
    ctx.check([p for p, _ in after] == [p for p, _ in before], "structure",
              got=got)
    for (p, a), (_, b) in zip(after, before):
        ctx.check(a.shape == b.shape, f"shape at {p}")
        ctx.check(np.array_equal(a, np.maximum(b, 0)), f"values at {p}", got=a, want=b)
    for (p, a), (_, b) in zip(leaves(v), before):
        ctx.check(np.array_equal(a, b), f"input modified at {p}")
    flat = np.concatenate([b.ravel() for _, b in before])
    if flat.min() < 0 < flat.max():
        ctx.seen("ragged", sig(flat))


def prox(ctx, rng, i):
    x = array(rng, (int(rng.integers(1, 6)),) * 2)
    p = Positivity()
    with quiet() as (out, _):
        c = p.cost(x)
        c2 = p.cost(x, verbose=True)
    ctx.check(c == 0 and c2 == 0, "cost of the constraint")
    ctx.check("Min" in out.getvalue(), "verbose cost")
    y = array(rng, x.shape, scale=1.0)
    a, b = p.op(x), p.op(y)
    ctx.check(np.linalg.norm(a - b) <= np.linalg.norm(x - y) * (1 + 1e-12),
              "nonexpansive")
    ctx.seen("prox", sig(np.array(x)))


SECTIONS = [
    Section("arrays", arrays, 600, 8000),
    Section("ragged", ragged, 600, 8000),
    Section("prox", prox, 100, 1000),
]
