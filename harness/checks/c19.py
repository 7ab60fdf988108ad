"""C19: rearrangements of data (cube, map, matrix, rotations, padding, axes)."""

import numpy as np
from core import Section
from gens import array, dims, layout, pick, sig
from modopt.base import np_adjust as adj
from modopt.base import transform as tr

RULE = (
    "A case is one array of random shape, type and memory layout sent through a "
    "rearrangement; every output element is compared to the input element that the "
    "definition puts there, the complementary function must give the input back, and "
    "the input must be unchanged.  Non-trivial: more than one distinct element."
)

DTYPES = (float, float, np.float32, complex, np.complex64, np.int64, np.int16, np.uint8,
          np.uint64, np.float16, bool)


def data(rng, shape):
    dt = pick(rng, *DTYPES)
    if dt is bool:
        return array(rng, shape, dtype=np.int64) > 0
    if np.dtype(dt).kind == "u":
        top = np.iinfo(dt).max
        return layout(rng, rng.integers(0, top, shape, dtype=dt, endpoint=True))
    if rng.random() < 0.4:  # every element distinct
        arr = rng.permutation(int(np.prod(shape))).reshape(shape)
        if np.dtype(dt).kind == "f":
            arr = arr + 0.25
        if np.dtype(dt).kind == "c":
            arr = arr + 1j * arr[::-1]
        return layout(rng, arr.astype(dt))
    arr = array(rng, shape, dtype=dt)
    if np.dtype(dt).kind in "fc" and rng.random() < 0.15:  # what has no value moves too
        arr = np.array(arr)
        some = rng.random(arr.shape) < 0.3
        arr[some] = rng.choice([np.nan, np.inf, -np.inf, np.finfo(dt).max], int(some.sum()))
        arr = layout(rng, arr)
    return arr


def equal(a, b):
    return np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind in "fc")


def same(ctx, got, want, msg):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, f"{msg}: shape {got.shape}, not {want.shape}")
    ctx.check(got.dtype == want.dtype, f"{msg}: type {got.dtype}, not {want.dtype}")
    ctx.check(equal(got, want), f"{msg}: elements moved or changed",
              got=got, want=want)


def lay(rng, pair):
    return pick(rng, tuple, list, np.array)([int(v) for v in pair])


def note(ctx, what, x):
    if np.unique(x).size > 1:
        ctx.seen(what, sig(np.array(x)))
    ctx.sample(what=what, shape=x.shape, dtype=str(x.dtype))


def cube_map(ctx, rng, i):
    r, c = dims(rng, 1, 5, 2, 150)
    h, w = dims(rng, 1, 6, 2)
    cube = data(rng, (r * c, h, w))
    keep = np.array(cube)
    ctx.info(layout=(r, c), image=(h, w), dtype=str(cube.dtype))
    got = tr.cube2map(cube, lay(rng, (r, c)))
    want = keep.reshape(r, c, h, w).transpose(0, 2, 1, 3).reshape(r * h, c * w)
    same(ctx, got, want, "cube2map")
    same(ctx, tr.map2cube(np.array(got), lay(rng, (r, c))), keep, "map2cube(cube2map)")
    m = data(rng, (r * h, c * w))
    mk = np.array(m)
    cube2 = tr.map2cube(m, lay(rng, (r, c)))
    same(ctx, cube2, mk.reshape(r, h, c, w).transpose(0, 2, 1, 3).reshape(-1, h, w),
         "map2cube")
    same(ctx, tr.cube2map(np.array(cube2), lay(rng, (r, c))), mk, "cube2map(map2cube)")
    ctx.check(equal(cube, keep) and equal(m, mk), "input modified")
    # invalid layouts and dimensions
    bad = int(rng.integers(1, 40))
    if bad != r * c:
        ctx.raises(ValueError, lambda: tr.cube2map(cube, (bad, 1)), "wrong layout")
    ctx.raises(ValueError, lambda: tr.cube2map(keep[0], (r, c)), "2D data")
    ctx.raises(ValueError, lambda: tr.cube2map(keep[None], (r, c)), "4D data")
    br, bc = (int(v) for v in rng.integers(1, 12, 2))
    if (r * h) % br or (c * w) % bc:
        ctx.raises(ValueError, lambda: tr.map2cube(m, (br, bc)), "layout not dividing")
    note(ctx, "cube/map", cube)


def map_matrix(ctx, rng, i):
    r, c = dims(rng, 1, 5, 2, 150)
    s = dims(rng, 1, 6, 1, 40)[0]
    m = data(rng, (r * s, c * s))
    keep = np.array(m)
    ctx.info(layout=(r, c), image=s, dtype=str(m.dtype))
    got = tr.map2matrix(m, lay(rng, (r, c)))
    want = keep.reshape(r, s, c, s).transpose(1, 3, 0, 2).reshape(s * s, r * c)
    same(ctx, got, want, "map2matrix")
    same(ctx, tr.matrix2map(np.array(got), lay(rng, (r * s, c * s))), keep,
         "matrix2map(map2matrix)")
    mat = data(rng, (s * s, r * c))
    mk = np.array(mat)
    m2 = tr.matrix2map(mat, lay(rng, (r * s, c * s)))
    same(ctx, m2, mk.reshape(s, s, r, c).transpose(2, 0, 3, 1).reshape(r * s, c * s),
         "matrix2map")
    same(ctx, tr.map2matrix(np.array(m2), lay(rng, (r, c))), mk, "map2matrix(matrix2map)")
    # the three views agree
    cube = tr.map2cube(m, (r, c))
    same(ctx, tr.cube2matrix(cube), want, "cube2matrix(map2cube) = map2matrix")
    ctx.check(equal(m, keep) and equal(mat, mk), "input modified")
    note(ctx, "map/matrix", m)


def cube_matrix(ctx, rng, i):
    n, h, w = dims(rng, 1, 6, 3)
    cube = data(rng, (n, h, w))
    keep = np.array(cube)
    got = tr.cube2matrix(cube)
    same(ctx, got, np.array([im.ravel() for im in keep]).T, "cube2matrix")
    same(ctx, tr.matrix2cube(np.array(got), lay(rng, (h, w))), keep, "matrix2cube")
    mat = data(rng, (h * w, n))
    mk = np.array(mat)
    c2 = tr.matrix2cube(mat, lay(rng, (h, w)))
    same(ctx, c2, np.array([mk[:, k].reshape(h, w) for k in range(n)]), "matrix2cube")
    same(ctx, tr.cube2matrix(np.array(c2)), mk, "cube2matrix(matrix2cube)")
    ctx.check(equal(cube, keep) and equal(mat, mk), "input modified")
    note(ctx, "cube/matrix", cube)


def rotations(ctx, rng, i):
    n, h, w = dims(rng, 1, 7, 3)
    stack = data(rng, (n, h, w))
    keep = np.array(stack)
    got = adj.rotate_stack(stack)
    want = np.array([[[keep[k, h - 1 - a, w - 1 - b] for b in range(w)]
                      for a in range(h)] for k in range(n)])
    same(ctx, got, want, "rotate_stack")
    same(ctx, adj.rotate_stack(np.array(got)), keep, "rotate_stack twice")
    for k in range(n):
        same(ctx, adj.rotate(stack[k]), want[k], "rotate")
        same(ctx, adj.rotate(adj.rotate(stack[k])), keep[k], "rotate twice")
    ctx.check(equal(stack, keep), "input modified")
    note(ctx, "rotate", stack)


def padding(ctx, rng, i):
    h, w = dims(rng, 1, 7, 2)
    x = data(rng, (h, w))
    keep = np.array(x)
    px, py = dims(rng, 0, 4, 2, 100)
    if rng.random() < 0.04:  # wide borders
        px, py = (int(rng.integers(0, pick(rng, 5, 400))) for _ in range(2))
    kind = int(rng.integers(6))
    if kind < 3:
        py = px
        pad = [px, (px,), np.array([px])][kind]
    else:
        pad = [(px, py), [px, py], np.array([px, py])][kind - 3]
    ctx.info(padding=pad, shape=(h, w))
    got = adj.pad2d(keep.tolist() if rng.random() < 0.15 and x.dtype == float else x, pad)
    want = np.zeros((h + 2 * px, w + 2 * py), dtype=x.dtype)
    want[px:px + h, py:py + w] = keep
    same(ctx, got, want, "pad2d")
    got[...] = 0
    ctx.check(equal(x, keep), "input modified")
    for bad in ("1", 1.5, None, {1: 2}):
        ctx.raises(ValueError, lambda: adj.pad2d(keep, bad), f"padding {bad!r}")
    note(ctx, f"pad{kind}", x)


def axes(ctx, rng, i):
    nd = int(rng.integers(1, 6))
    x = data(rng, dims(rng, 1, 4, nd))
    keep = np.array(x)
    same(ctx, adj.ftr(x), np.moveaxis(keep, -1, 0), "ftr")
    same(ctx, adj.ftl(x), np.moveaxis(keep, 0, -1), "ftl")
    same(ctx, adj.ftl(adj.ftr(x)), keep, "ftl(ftr)")
    same(ctx, adj.ftr(adj.ftl(x)), keep, "ftr(ftl)")
    roll = int(rng.integers(-6, 7))
    want = np.transpose(keep, [(a - roll) % nd for a in range(nd)])
    same(ctx, adj.fancy_transpose(x, roll), want, f"fancy_transpose roll {roll}")
    same(ctx, adj.fancy_transpose(x), np.moveaxis(keep, -1, 0), "fancy_transpose")
    same(ctx, adj.fancy_transpose(adj.fancy_transpose(x, roll), -roll), keep, "back")
    ctx.check(equal(x, keep), "input modified")
    note(ctx, f"axes{nd}", x)


SECTIONS = [
    Section("cube_map", cube_map, 600, 10000),
    Section("map_matrix", map_matrix, 600, 10000),
    Section("cube_matrix", cube_matrix, 400, 6000),
    Section("rotations", rotations, 300, 4000),
    Section("padding", padding, 600, 8000),
    Section("axes", axes, 600, 8000),
]
