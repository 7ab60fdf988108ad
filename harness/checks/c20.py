"""C20: convolutions equal the convolution sum, image by image, kernel by kernel."""

import numpy as np
from core import Section
from gens import array, dims, pick, sig
from modopt.math import convolve as cv
from modopt.signal import wavelet as wv

RULE = (
    "A case is data and kernels of random (also unequal, non-square, even and odd) "
    "sizes; the result is compared element by element to the convolution sum computed "
    "without FFT: zero boundaries for scipy, periodic ones for astropy.  Non-trivial: "
    "a non-zero result."
)
ASSUMPTIONS = [
    "the periodic method is judged for kernels of odd sizes, whose centre is defined",
]


def full_sum(x, k):
    """Full linear convolution by direct summation."""
    out = np.zeros([a + b - 1 for a, b in zip(x.shape, k.shape)],
                   dtype=np.result_type(x, k, float))
    for idx in np.ndindex(*k.shape):
        sl = tuple(slice(p, p + n) for p, n in zip(idx, x.shape))
        out[sl] += k[idx] * x
    return out


def linear(x, k):
    f = full_sum(np.asarray(x), np.asarray(k))
    return f[tuple(slice((b - 1) // 2, (b - 1) // 2 + a)
                   for a, b in zip(x.shape, k.shape))]


def periodic(x, k):
    x, k = np.asarray(x, dtype=float), np.asarray(k, dtype=float)
    out = np.zeros(x.shape)
    for idx in np.ndindex(*k.shape):
        shift = [p - n // 2 for p, n in zip(idx, k.shape)]
        out += k[idx] * np.roll(x, shift, axis=tuple(range(x.ndim)))
    return out


def setup_case(rng, method, nd=2):
    if method == "scipy":
        ks = tuple(int(v) for v in rng.integers(1, 8, nd))
        xs = dims(rng, 1, 9, nd, 4000)
    else:
        ks = tuple(2 * int(v) + 1 for v in rng.integers(0, 3, nd))
        xs = tuple(max(v, n) for v, n in zip(ks, dims(rng, 1, 9, nd, 4000)))
    return xs, ks


def amp(x, k):
    return float(np.nansum(np.abs(x)) * np.max(np.abs(k))
                 + np.nanmax(np.abs(x)) * np.sum(np.abs(k))) + 1e-300


def scale(rng):
    return float(pick(rng, 1.0, 1.0, 1e-6, 1e5))


def ref(method):
    return linear if method == "scipy" else periodic


def kw_of(rng, method):
    return {} if method == "scipy" and rng.random() < 0.5 else {"method": method}


def dtypes(rng, method):
    if method == "scipy":
        return pick(rng, float, float, complex, int, np.float32)
    return pick(rng, float, float, int)


def prec(x, k):
    return 2e-5 if np.float32 in (x.dtype, k.dtype) else 1e-10


def single(ctx, rng, i):
    method = pick(rng, "scipy", "scipy", "astropy")
    nd = pick(rng, 2, 2, 2, 1, 3)
    xs, ks = setup_case(rng, method, nd)
    x = array(rng, xs, dtype=dtypes(rng, method), scale=scale(rng))
    k = array(rng, ks, dtype=dtypes(rng, method), scale=scale(rng))
    x0, k0 = np.array(x), np.array(k)
    ctx.info(method=method, data=x0, kernel=k0)
    got = cv.convolve(x, k, **kw_of(rng, method))
    eps = prec(x, k)
    ctx.close(got, ref(method)(x0, k0), f"convolve/{method}", rtol=eps, scale=amp(x0, k0))
    ctx.check(np.array_equal(x, x0) and np.array_equal(k, k0), "input modified")
    if np.any(got):
        ctx.seen(method, ks, sig(x0))
    ctx.sample(shapes=(xs, ks))
    if method == "astropy" and x.dtype == float and x.size > 1 and rng.random() < 0.4:
        hole = np.array(x0)
        hole.flat[int(rng.integers(x.size))] = np.nan
        got = cv.convolve(hole, k, method="astropy")
        ctx.close(got, periodic(np.nan_to_num(hole), k0), "missing value", rtol=eps,
                  scale=amp(x0, k0))
    bad = pick(rng, "fft", "SCIPY", "", None, "numpy")
    ctx.raises(ValueError, lambda: cv.convolve(x0, k0, method=bad), f"method {bad!r}")
    ctx.raises(ValueError, lambda: cv.convolve(x0, k0[None]), "kernel dimensions")
    ctx.raises(ValueError, lambda: cv.convolve(x0[None], k0), "data dimensions")


def stacks(ctx, rng, i):
    method = pick(rng, "scipy", "scipy", "astropy")
    xs, ks = setup_case(rng, method)
    n = dims(rng, 1, 4, 1, 40)[0]
    x = array(rng, (n, *xs), dtype=dtypes(rng, method), scale=scale(rng))
    k = array(rng, (n, *ks), dtype=dtypes(rng, method), scale=scale(rng))
    x0, k0 = np.array(x), np.array(k)
    rot = pick(rng, True, False)
    ctx.info(method=method, rotated=rot, data=x0, kernel=k0)
    kw = kw_of(rng, method)
    if rot or rng.random() < 0.5:
        kw["rot_kernel"] = rot
    got = cv.convolve_stack(x, k, **kw)
    kk = k0[:, ::-1, ::-1] if rot else k0
    want = np.array([ref(method)(a, b) for a, b in zip(x0, kk)])
    ctx.close(got, want, f"convolve_stack/{method}", rtol=prec(x0, k0), scale=amp(x0, k0))
    ctx.check(np.array_equal(x, x0) and np.array_equal(k, k0), "input modified")
    if np.any(got):
        ctx.seen("stack", method, rot, ks, sig(x0))


def banks(ctx, rng, i):
    """filter_convolve(_stack): one result per filter; rotated: their sum."""
    method = pick(rng, "scipy", "scipy", "astropy")
    xs, fs = setup_case(rng, method)
    n_f, n_im = dims(rng, 1, 4, 2, 80)
    filt = array(rng, (n_f, *fs), dtype=dtypes(rng, method), scale=scale(rng))
    f0 = np.array(filt)
    kw = kw_of(rng, method)
    x = array(rng, (n_im, *xs), dtype=dtypes(rng, method), scale=scale(rng))
    x0 = np.array(x)
    r = ref(method)
    sc = amp(x0, f0)
    ctx.info(method=method, filters=f0, images=x0)
    want = np.array([[r(a, f) for f in f0] for a in x0])
    eps = prec(x0, f0)
    ctx.close(wv.filter_convolve(x[0], filt, **kw), want[0], "filter_convolve",
              rtol=eps, scale=sc)
    ctx.close(wv.filter_convolve_stack(x, filt, **kw), want, "filter_convolve_stack",
              rtol=eps, scale=sc)
    c = array(rng, (n_im, n_f, *xs), dtype=dtypes(rng, method), scale=scale(rng))
    c0 = np.array(c)
    eps = prec(c0, f0)
    sc = amp(c0, f0)
    want = np.array([sum(r(a, f[::-1, ::-1]) for a, f in zip(co, f0)) for co in c0])
    ctx.close(wv.filter_convolve(c[0], filt, filter_rot=True, **kw), want[0],
              "filter_convolve rotated", rtol=eps, scale=sc)
    ctx.close(wv.filter_convolve_stack(c, filt, filter_rot=True, **kw), want,
              "filter_convolve_stack rotated", rtol=eps, scale=sc)
    ctx.check(np.array_equal(x, x0) and np.array_equal(filt, f0)
              and np.array_equal(c, c0), "input modified")
    ctx.raises(ValueError, lambda: wv.filter_convolve(x0[0], f0, method="x"), "method")
    if np.any(want):
        ctx.seen("bank", method, n_f, n_im, sig(x0))


SECTIONS = [
    Section("single", single, 900, 12000),
    Section("stacks", stacks, 500, 6000),
    Section("banks", banks, 300, 4000),
]
