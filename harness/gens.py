"""Input generators: sizes, dtypes, memory layouts and magnitudes that vary."""

import numpy as np


def layout(rng, arr):
    """Same values, another memory layout (order, strides, offset), or read-only."""
    kind = rng.integers(5)
    if rng.random() < 0.05:
        arr = np.array(arr, order=pick(rng, "C", "F"))
        arr.flags.writeable = False
        return arr
    if kind == 0 or arr.ndim == 0:
        return np.ascontiguousarray(arr)
    if kind == 1:
        return np.asfortranarray(arr)
    if kind == 2:  # every second element of a wider buffer
        buf = np.zeros((*arr.shape[:-1], arr.shape[-1] * 2 + 1), dtype=arr.dtype)
        view = buf[..., 1::2][..., : arr.shape[-1]]
        view[...] = arr
        return view
    if kind == 3:  # negative strides
        return np.ascontiguousarray(arr[::-1])[::-1]
    # a transposed view of a contiguous buffer
    return np.ascontiguousarray(arr.T).T


SCALES = (1.0, 1.0, 1.0, 1e-3, 1e3, 1e-7, 1e6)


def values(rng, shape, kind=None, dtype=float, scale=None):
    """Values with the special cases that matter: ties, zeros, signs, spread."""
    shape = tuple(int(s) for s in np.atleast_1d(shape))
    kind = rng.integers(8) if kind is None else kind
    scale = rng.choice(SCALES) if scale is None else scale

    def real():
        if kind == 0:
            return rng.standard_normal(shape)
        if kind == 1:
            return rng.uniform(-3, 3, shape)
        if kind == 2:  # ties
            return rng.integers(-3, 4, shape).astype(float)
        if kind == 3:  # sparse
            return rng.standard_normal(shape) * (rng.random(shape) < 0.4)
        if kind == 4:  # heavy spread of magnitudes
            return rng.standard_normal(shape) * 10.0 ** rng.integers(-4, 4, shape)
        if kind == 5:  # one sign
            return np.abs(rng.standard_normal(shape)) * rng.choice([-1, 1])
        if kind == 6:  # constant
            return np.full(shape, rng.standard_normal())
        return rng.standard_normal(shape) + 2.5

    if np.issubdtype(np.dtype(dtype), np.complexfloating):
        res = real() + 1j * real()
    else:
        res = real()
    if np.issubdtype(np.dtype(dtype), np.integer):
        return np.rint(res * 5).astype(dtype)
    return (res * scale).astype(dtype)


def dims(rng, lo, hi, n, top=1000):
    """``n`` sizes from lo to hi; now and then much larger, up to ``top`` in all."""
    res = [int(k) for k in rng.integers(lo, hi + 1, n)]
    how = rng.random()
    if how < 0.02:  # all large
        most = max(hi, int(round(top ** (1.0 / n))))
        res = [int(k) for k in rng.integers(max(lo, most // 2), most + 1, n)]
    elif how < 0.04:  # one large
        k = int(rng.integers(n))
        rest = int(np.prod(res)) // max(res[k], 1)
        res[k] = int(rng.integers(res[k], max(res[k] + 1, top // max(rest, 1)) + 1))
    return tuple(res)


def span(rng, lo, hi, far):
    """A count from lo to hi; now and then up to ``far``."""
    return int(rng.integers(lo, (far if rng.random() < 0.03 else hi) + 1))


def weary(ctx, rng, call, far=150, rate=0.03):
    """Now and then, a long use before what is looked at: ``call()`` many times."""
    if rng.random() < rate:
        n = int(rng.integers(8, far + 1))
        ctx.info(calls_before=n)
        for _ in range(n):
            call()
        ctx.obs("earlier calls", n)


def shape_nd(rng, ndim=None, lo=1, hi=7, top=1000):
    ndim = int(rng.integers(1, 4)) if ndim is None else ndim
    return dims(rng, lo, hi, ndim, top)


def array(rng, shape, dtype=float, kind=None, scale=None, plain=False):
    arr = values(rng, shape, kind=kind, dtype=dtype, scale=scale)
    return arr if plain else layout(rng, arr)


def unlock(arr):
    """An array of ``array``, writeable again."""
    if not arr.flags.writeable:
        arr.flags.writeable = True
    return arr


def pick(rng, *items):
    return items[int(rng.integers(len(items)))]


def eps_of(*arrays):
    """Machine epsilon of the coarsest floating type among the arguments."""
    res = np.finfo(float).eps
    for arr in arrays:
        dt = np.asarray(arr).dtype
        if dt in (np.float32, np.complex64):
            res = max(res, float(np.finfo(np.float32).eps))
        elif dt == np.float16:
            res = max(res, float(np.finfo(np.float16).eps))
    return res


def sig(*items):
    """Canonical signature of a case, for counting distinct ones."""
    res = []
    for it in items:
        if isinstance(it, np.ndarray):
            res.append((it.shape, str(it.dtype), it.tobytes()[:64]))
        else:
            res.append(it)
    return tuple(res)
