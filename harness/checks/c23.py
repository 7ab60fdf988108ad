"""C23: image metrics compare normalised magnitudes and respect the mask."""

import numpy as np
from core import Section
from gens import array, dims, pick, sig
from modopt.math import metrics as mt
from scipy.ndimage import uniform_filter

RULE = (
    "A case is a pair of random images (real, complex, integer; any offset and scale) "
    "with or without a mask; every metric is compared to its definition on the "
    "min-max normalised magnitudes, to its invariances (affine intensity changes, "
    "pixels outside the mask) and to its value on identical images.  Non-trivial: the "
    "two images differ."
)
ASSUMPTIONS = ["scikit-image's structural similarity is trusted for its definition"]


def norm(x):
    x = np.abs(np.array(x)).astype(float)
    return (x - x.min()) / (x.max() - x.min())


def image(rng, shape, scale=None):
    while True:
        x = array(rng, shape, dtype=pick(rng, float, float, complex, np.float32, int),
                  kind=pick(rng, 0, 1, 2, 3, 7), scale=scale)
        other = pick(rng, *[None] * 9, np.uint8, np.uint16, np.int8, np.complex64)
        if other is np.complex64:
            x = x.astype(other)
        elif other is not None:  # counts of a detector
            x = np.round(np.abs(x) / max(np.abs(x).max(), 1e-300)
                         * (np.iinfo(other).max - 1)).astype(other)
        m = np.abs(x).astype(float)
        if m.max() > m.min():
            return x


def pair(rng, lo=2, hi=10, ndims=(1, 2, 2, 3)):
    shape = dims(rng, lo, hi - 1, pick(rng, *ndims))
    sc = pick(rng, 1.0, 1e-4, 1e5)
    while True:
        a, b = image(rng, shape, sc), image(rng, shape, sc)
        if not np.allclose(norm(a), norm(b)):
            return a, b


def want_all(a, b):
    """The definitions, on normalised magnitudes (already masked)."""
    err = np.mean((a - b) ** 2)
    return {
        "mse": err,
        "snr": 10 * np.log10(np.mean(a**2) / err),
        "psnr": 10 * np.log10(np.max(np.abs(a)) / err),
        "nrmse": np.sqrt(err) / np.sqrt(np.mean(a**2)),
    }


FNS = {"mse": mt.mse, "snr": mt.snr, "psnr": mt.psnr, "nrmse": mt.nrmse}


def values(ctx, rng, i):
    a, b = pair(rng)
    a0, b0 = np.array(a), np.array(b)
    ctx.info(test=a0, ref=b0)
    want = want_all(norm(a0), norm(b0))
    tol = 1e-5 if {np.dtype("f4"), np.dtype("c8")} & {a.dtype, b.dtype} else 1e-9
    ones = np.ones(a.shape)
    for name, fn in FNS.items():
        ctx.close(fn(a, b), want[name], name, rtol=tol, atol=tol)
        ctx.close(fn(a, b, mask=None), want[name], f"{name}, no mask", rtol=tol, atol=tol)
        ctx.close(fn(a, b, ones), want[name], f"{name}, full mask", rtol=tol, atol=tol)
        # intensity changes that the normalisation removes
        k = float(10 ** rng.uniform(-3, 3)) * pick(rng, -1, 1)
        ctx.close(fn(np.array(a0) * k, b), want[name], f"{name}, scaled test",
                  rtol=10 * tol, atol=10 * tol)
        ctx.close(fn(a, np.array(b0) * k), want[name], f"{name}, scaled ref",
                  rtol=10 * tol, atol=10 * tol)
        if a0.dtype.kind == "c":
            ctx.close(fn(a0 * np.exp(1j * k), b), want[name], f"{name}, phase",
                      rtol=tol, atol=tol)
    ctx.check(mt.mse(a, np.array(a0)) == 0, "mse of identical images")
    ctx.check(mt.nrmse(a, np.array(a0)) == 0, "nrmse of identical images")
    ctx.check(np.isposinf(mt.snr(a, np.array(a0))), "snr of identical images")
    ctx.check(np.isposinf(mt.psnr(a, np.array(a0))), "psnr of identical images")
    ctx.close(mt.mse(a, b), mt.mse(b, a), "mse is symmetric", rtol=tol)
    x = np.array(a0) if a0.dtype.kind != "c" else np.abs(a0)
    nrm = mt.min_max_normalize(x)
    xf = x.astype(float)
    ctx.close(nrm, (xf - xf.min()) / (xf.max() - xf.min()), "min_max_normalize",
              rtol=tol, atol=tol)
    for fn in (*FNS.values(), mt.ssim):
        bad = pick(rng, [1, 0], 1, "m", True, (a0,))
        ctx.raises(ValueError, lambda: fn(a0, b0, mask=bad), f"mask {bad!r:.30}")
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input modified")
    ctx.seen(sig(a0, b0))
    ctx.sample(**{k: float(v) for k, v in want.items()})


def masks(ctx, rng, i):
    a, b = pair(rng, lo=3)
    a0, b0 = np.array(a), np.array(b)
    na, nb = norm(a0), norm(b0)
    m = rng.random(a.shape) < rng.uniform(0.2, 0.9)
    if rng.random() < 0.4:  # keep the extreme pixels of both images
        for z in (na, nb):
            m[z == z.max()] = True
            m[z == z.min()] = True
    elif rng.random() < 0.4:  # and here none of them
        for z in (na, nb):
            m[(z == z.max()) | (z == z.min())] = False
    if m.all():
        ctx.obs("full masks")
    mask = m.astype(pick(rng, bool, int, float, np.uint8, np.float32))
    if rng.random() < 0.4:
        mask = m = np.where(m, rng.uniform(0.05, 1, m.shape), 0.0)
    mk = np.array(mask)
    ctx.info(test=a0, ref=b0, mask=mk)
    tol = 1e-5 if {np.dtype("f4"), np.dtype("c8")} & {a.dtype, b.dtype} else 1e-9
    if np.allclose(na * m, nb * m) or not (na * m).any():
        return
    want = want_all(na * m, nb * m)
    for name, fn in FNS.items():
        ctx.close(fn(a, b, mask), want[name], f"masked {name}", rtol=tol, atol=tol)
        ctx.close(fn(a, b, mask=mask), want[name], f"masked {name}", rtol=tol, atol=tol)
    ctx.check(np.array_equal(mask, mk), "mask modified")
    # Pixels outside the mask, within the range of the image, do not matter.
    m = rng.random(a.shape) < rng.uniform(0.3, 0.9)
    outs = []
    for z0, nz in ((a0, na), (b0, nb)):
        z = np.array(z0)
        free = ~m & (nz < nz.max()) & (nz > nz.min())
        idx = np.flatnonzero(free)
        if idx.size:
            z.flat[idx] = z.flat[rng.permutation(idx)]
        outs.append(z)
    mask = m.astype(pick(rng, bool, int, float, np.uint8, np.float32))
    if m.any() and (na * m).max() > (na * m).min() and (nb * m).max() > (nb * m).min():
        for name, fn in FNS.items():
            x, y = fn(a0, b0, mask), fn(outs[0], outs[1], mask)
            ctx.close(y, x, f"{name}: pixels outside the mask", rtol=1e-7, atol=1e-9)
    ctx.check( np.array_equal(a, a0) and np.array_equal(b, b0),
              "input modified")
    ctx.seen("mask", sig(a0, b0, mk))


def ssim_map(x, y):
    """Structural similarity over 7x7 windows, data range 1."""
    n = 49
    ux, uy = uniform_filter(x, 7), uniform_filter(y, 7)
    cov = n / (n - 1)
    vx = cov * (uniform_filter(x * x, 7) - ux * ux)
    vy = cov * (uniform_filter(y * y, 7) - uy * uy)
    vxy = cov * (uniform_filter(x * y, 7) - ux * uy)
    c1, c2 = 0.01**2, 0.03**2
    return ((2 * ux * uy + c1) * (2 * vxy + c2)) / (
        (ux**2 + uy**2 + c1) * (vx + vy + c2))


def similarity(ctx, rng, i):
    shape = dims(rng, 7, 15, 2, 3000)
    sc = pick(rng, 1.0, 1e-4, 1e5)
    a, b = image(rng, shape, sc), image(rng, shape, sc)
    if rng.random() < 0.5:
        b = np.abs(a) + 0.3 * sc * rng.standard_normal(shape)
    a0, b0 = np.array(a), np.array(b)
    ctx.info(test=a0, ref=b0)
    full = ssim_map(norm(a0), norm(b0))
    got = mt.ssim(a, b)
    ctx.close(got, full[3:-3, 3:-3].mean(), "ssim", rtol=1e-5, scale=1.0)
    ctx.check(got <= 1 + 1e-9, "ssim above 1")
    ctx.close(mt.ssim(a, np.array(a0)), 1.0, "ssim of identical images", rtol=1e-9)
    ctx.close(mt.ssim(b, a), got, "ssim is symmetric", rtol=1e-6, scale=1.0)
    m = rng.random(shape) < rng.uniform(0.2, 0.9)
    m[0, 0] = True
    mask = m.astype(pick(rng, bool, int, float, np.uint8, np.float32))
    ctx.close(mt.ssim(a, b, mask), full[m].mean(), "masked ssim", rtol=1e-5, scale=1.0)
    wgt = rng.uniform(0, 1, shape) * m
    ctx.close(mt.ssim(a, b, wgt), np.sum(wgt * full) / wgt.sum(), "weighted ssim",
              rtol=1e-5, scale=1.0)
    ctx.close(mt.ssim(a, np.array(a0), wgt), 1.0, "weighted ssim of identical images",
              rtol=1e-9)
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input modified")
    ctx.seen("ssim", sig(a0, b0))


SECTIONS = [
    Section("values", values, 500, 6000),
    Section("masks", masks, 500, 6000),
    Section("similarity", similarity, 250, 3000),
]
