"""C24: statistics and filters give their defining formulas."""

import numpy as np
from core import Section
from gens import array, dims, layout, pick, sig
from modopt.math import stats as st
from modopt.signal import filter as fl

RULE = (
    "A case is random data (any shape, type, layout and scale) or random filter "
    "arguments; the statistic is compared to its formula evaluated independently, and "
    "to the invariances that formula has.  Non-trivial: a finite non-zero value."
)


def spread(ctx, rng, i):
    shape = dims(rng, 1, 8, int(rng.integers(1, 4)))
    if rng.random() < 0.05:
        shape = (int(rng.integers(900, 12000)),)
    x = array(rng, shape, dtype=pick(rng, float, float, np.float32, int))
    x0 = np.array(x)
    ctx.info(data=x0)
    s = np.sort(x0.astype(float).ravel())
    n = s.size

    def med(v):
        v = np.sort(v)
        return (v[(n - 1) // 2] + v[n // 2]) / 2

    want = med(np.abs(s - med(s)))
    sc = float(np.max(np.abs(s))) + 1e-300
    tol = 1e-5 if x.dtype == np.float32 else 1e-10
    ctx.close(st.mad(x), want, "mad", rtol=tol, scale=sc)
    ctx.close(st.sigma_mad(x), 1.4826 * want, "sigma_mad", rtol=tol, scale=sc)
    c = float(rng.standard_normal()) * sc
    ctx.close(st.mad(x0 + c), want, "mad of shifted data", rtol=10 * tol,
              scale=sc + abs(c))
    ctx.close(st.mad(-3.0 * x0), 3 * want, "mad of scaled data", rtol=10 * tol, scale=sc)
    ctx.close(st.mad(rng.permutation(x0.ravel())), want, "mad of reordered data",
              rtol=tol, scale=sc)
    ctx.check(np.array_equal(x, x0), "input modified")
    if want > 0:
        ctx.seen("mad", sig(x0))
    ctx.sample(mad=want)


def errors(ctx, rng, i):
    nd = pick(rng, 1, 2, 2, 3)
    shape = dims(rng, 1, 8, nd)
    sc = pick(rng, 1.0, 1e-3, 1e3, 1e-8, 1e7)
    a = array(rng, shape, dtype=pick(rng, float, float, int, np.float32), scale=sc)
    b = array(rng, shape, dtype=pick(rng, float, float, int, np.float32), scale=sc)
    eps = 1e-5 if np.float32 in (a.dtype, b.dtype) else 1e-9
    a0, b0 = np.array(a), np.array(b)
    ctx.info(first=a0, second=b0)
    af, bf = a0.astype(float), b0.astype(float)
    if eps > 1e-9:  # no judgement of cancelled digits
        gap = np.abs(af - bf)
        if np.any((gap > 0) & (gap < 1e-2 * np.maximum(np.abs(af), np.abs(bf)))):
            return
    err = sum((p - q) ** 2 for p, q in zip(af.ravel(), bf.ravel())) / af.size
    ctx.close(st.mse(a, b), err, "mse", rtol=eps)
    ctx.close(st.mse(b, a), err, "mse is symmetric", rtol=eps)
    ctx.check(st.mse(a, a0) == 0, "mse of identical data")
    rng_a = af.max() - af.min()
    if err > 0 and rng_a > 0:
        ref = 20 * np.log10(shape[0] * rng_a / np.sqrt(err * af.size))
        ctx.close(st.psnr(a, b), ref, "psnr", rtol=eps, atol=10 * eps)
        ctx.close(st.psnr(a, b, method="starck"), ref, "psnr starck", rtol=eps, atol=10 * eps)
    if err > 0:
        ref = 20 * np.log10(255) - 10 * np.log10(err)
        ctx.close(st.psnr(a, b, method="wiki"), ref, "psnr wiki", rtol=eps, atol=10 * eps)
        mp = pick(rng, int(rng.integers(1, 5000)), float(10 ** rng.uniform(-3, 5)), 1)
        ref = 20 * np.log10(mp) - 10 * np.log10(err)
        ctx.close(st.psnr(a, b, method="wiki", max_pix=mp), ref, "psnr max_pix",
                  rtol=eps, atol=10 * eps)
        ctx.seen("mse", sig(a0, b0))
    ctx.raises(ValueError, lambda: st.psnr(a0, b0, method=pick(
        rng, "other", "", None, "Wiki")), "psnr method")
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input modified")


def stacks(ctx, rng, i):
    n, h, w = dims(rng, 2, 6, 3)
    n = dims(rng, 1, 5, 1, 60)[0]
    sc = pick(rng, 1.0, 1e-6, 1e5)
    a, b = (array(rng, (n, h, w), dtype=pick(rng, float, float, int), scale=sc)
            for _ in range(2))
    if any(not np.any(p != q) or p.max() == p.min() for p, q in zip(a, b)):
        a, b = rng.standard_normal((n, h, w)), rng.standard_normal((n, h, w))
    a0, b0 = np.array(a), np.array(b)
    method = pick(rng, "starck", "wiki")
    each = []
    for p, q in zip(a0.astype(float), b0.astype(float)):
        err = np.mean((p - q) ** 2)
        each.append(
            20 * np.log10(h * (p.max() - p.min()) / np.sqrt(err * p.size))
            if method == "starck" else 20 * np.log10(255) - 10 * np.log10(err))
    kw = {} if method == "starck" and rng.random() < 0.5 else {"method": method}
    ctx.close(st.psnr_stack(a, b, **kw), np.mean(each), "psnr_stack", rtol=1e-9)
    fn = pick(rng, np.median, np.max, np.min, np.sum, lambda v: list(v))
    ctx.close(st.psnr_stack(a, b, metric=fn, **kw), fn(each), "psnr_stack metric",
              rtol=1e-9)
    # a constant image has no range and an exact one no error
    flat, exact = rng.integers(n, size=2)
    c, d = np.array(a0, dtype=float), np.array(b0, dtype=float)
    c[flat] = c[flat].flat[0]
    d[flat] = c[flat] + np.abs(d[flat]) + 1
    if rng.random() < 0.4 and exact != flat:
        d[exact] = c[exact]
    with np.errstate(all="ignore"):
        got = st.psnr_stack(c, d, metric=list)
        one = [st.psnr(p, q) for p, q in zip(c, d)]
        ctx.check(st.psnr(c[flat], d[flat]) == -np.inf, "psnr of a constant image")
        ctx.check(st.psnr(a0[0], a0[0]) == np.inf, "psnr of identical images")
        ctx.check(st.psnr(a0[0], a0[0], method="wiki") == np.inf, "psnr, identical")
        ctx.check(st.psnr_stack(a0, a0) == np.inf, "psnr_stack of identical stacks")
    ctx.check(list(got) == one, f"psnr_stack {got}, one by one {one}")
    ctx.raises(ValueError, lambda: st.psnr_stack(a[0], b), "2D first stack")
    ctx.raises(ValueError, lambda: st.psnr_stack(a, b[0]), "2D second stack")
    ctx.raises(ValueError, lambda: st.psnr_stack(a[None], b[None]), "4D stacks")
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input modified")
    ctx.seen("stack", n, h, w, float(each[0]))


def kernels(ctx, rng, i):
    h, w = (2 * v + 1 for v in dims(rng, 0, 5, 2, 400))
    s = float(rng.uniform(0.3, 6))
    if rng.random() < 0.2:
        s = int(rng.integers(1, 5))
    y, x = np.mgrid[:h, :w]
    g = np.exp(-((x - w // 2) ** 2 + (y - h // 2) ** 2) / (2 * s * s))
    shape = pick(rng, tuple, list, np.array)([h, w])
    ctx.info(shape=(h, w), sigma=s)
    k = st.gaussian_kernel(shape, s)
    ctx.close(k, g, "gaussian kernel, peak one", rtol=1e-9)
    ctx.close(st.gaussian_kernel(shape, s, norm="max"), g, "norm max", rtol=1e-9)
    ks = st.gaussian_kernel(shape, s, norm="sum")
    ctx.close(np.sum(k) / np.sum(ks) * ks, g, "norm sum: same shape", rtol=1e-9)
    # the continuous or the discrete normalisation, as astropy does it
    tot = float(np.sum(ks))
    cont = float(np.sum(g) / (2 * np.pi * s * s))
    ctx.check(abs(tot - 1) < 1e-9 or abs(tot - cont) < 1e-9 * cont,
              f"norm sum: total {tot}")
    if h > 8 * s and w > 8 * s and s > 1:
        ctx.close(tot, 1.0, "norm sum: total", rtol=1e-3)
    ctx.raises(ValueError, lambda: st.gaussian_kernel((3, 3), 1.0, norm=pick(
        rng, "none", "", None, "Sum")), "norm")
    ctx.seen("kernel", h, w, s)


def filters(ctx, rng, i):
    sigma = float(10 ** rng.uniform(-2, 2))
    if rng.random() < 0.2:
        sigma = int(rng.integers(1, 9))
    x = float(rng.standard_normal() * 2 * sigma)
    g = float(rng.standard_normal() * 2 * sigma)
    form = pick(rng, "scalar", "int", "list", "array")
    if form == "int":
        x, g = int(np.rint(x)), int(np.rint(g))
    elif form != "scalar":
        n = dims(rng, 1, 5, 1)[0]
        x = (rng.standard_normal(n) * 2 * sigma).tolist()
        g = (rng.standard_normal(n) * 2 * sigma).tolist()
        if form == "array":
            shape = dims(rng, 1, 4, int(rng.integers(1, 4)))
            dt = pick(rng, float, float, int)
            x, g = (layout(rng, np.rint(v).astype(dt) if dt is int else v) for v in (
                rng.standard_normal((2, *shape)) * 2 * sigma * (rng.random(shape) < 0.8)))
    x0, g0 = np.array(x), np.array(g)
    ctx.info(x=x, g=g, sigma=sigma)
    z = np.array(x, dtype=float) / sigma
    gauss = np.exp(-z * z / 2)
    ctx.close(fl.gaussian_filter(x, sigma, False), gauss, "gaussian", rtol=1e-10)
    ctx.close(fl.gaussian_filter(x, sigma, norm=False), gauss, "gaussian", rtol=1e-10)
    want = gauss / (np.sqrt(2 * np.pi) * sigma)
    ctx.close(fl.gaussian_filter(x, sigma), want, "normalised gaussian", rtol=1e-10)
    ctx.close(fl.gaussian_filter(x, sigma, True), want, "normalised gaussian",
              rtol=1e-10)
    amp = 2 / (np.sqrt(3 * sigma) * np.pi**0.25)
    mex = amp * (1 - z * z) * gauss
    ctx.close(fl.mex_hat(x, sigma), mex, "mexican hat", rtol=1e-10, scale=amp)
    far = float(rng.uniform(1.5, 37) * pick(rng, 1, -1))  # tails, in relative terms
    tail = np.exp(-far * far / 2)
    ctx.close(fl.gaussian_filter(far * sigma, sigma, False) / tail, 1.0, "gaussian tail",
              rtol=1e-9)
    ctx.close(fl.mex_hat(far * sigma, sigma) / (amp * (1 - far * far) * tail), 1.0,
              "tail of the mexican hat", rtol=1e-9)
    ctx.close(fl.mex_hat_dir(sigma, far * sigma, sigma) / (
        -0.5 * amp * (1 - far * far) * tail), 1.0, "directional tail", rtol=1e-9)
    zg = np.array(g, dtype=float) / sigma
    ctx.close(fl.mex_hat_dir(g, x, sigma), -0.5 * zg * zg * mex, "directional",
              rtol=1e-10, scale=amp * (1 + np.max(zg * zg)))
    for bad in ("a", None, {1: 2}):
        ctx.raises(TypeError, lambda: fl.gaussian_filter(bad, 1.0), f"data {bad!r}")
        ctx.raises(TypeError, lambda: fl.gaussian_filter(1.0, bad), f"sigma {bad!r}")
        ctx.raises(TypeError, lambda: fl.mex_hat(bad, 1.0), f"data {bad!r}")
        ctx.raises(TypeError, lambda: fl.mex_hat(1.0, bad), f"sigma {bad!r}")
        ctx.raises(TypeError, lambda: fl.mex_hat_dir(bad, 1.0, 1.0), f"data {bad!r}")
        ctx.raises(TypeError, lambda: fl.mex_hat_dir(1.0, bad, 1.0), f"data {bad!r}")
        ctx.raises(TypeError, lambda: fl.mex_hat_dir(1.0, 1.0, bad), f"sigma {bad!r}")
    ctx.check(np.array_equal(x, x0) and np.array_equal(g, g0), "input modified")
    ctx.seen("filter", form, sigma)


SECTIONS = [
    Section("spread", spread, 500, 6000),
    Section("errors", errors, 500, 6000),
    Section("stacks", stacks, 200, 3000),
    Section("kernels", kernels, 200, 2500),
    Section("filters", filters, 400, 5000),
]
