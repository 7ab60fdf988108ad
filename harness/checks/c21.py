"""C21: the power method gives the spectral radius of the operator."""

import numpy as np
from core import Section
from gens import dims, pick, span
from modopt.math.matrix import PowerMethod
from util import quiet

RULE = (
    "A case is a random symmetric or Hermitian positive semi-definite operator (or a "
    "scalar one) with a known spectrum, wrapped by a monitor that records what it is "
    "given; the estimate, its inverse, the number of operator calls, the stop test and "
    "the reproducibility with a seed are compared to the recorded run.  Non-trivial: a "
    "spectral gap and at least two operator calls."
)


class Spy:
    def __init__(self, fn):
        self.fn, self.given, self.made = fn, [], []

    def __call__(self, x):
        self.given.append(np.array(x))
        res = self.fn(x)
        self.made.append(np.array(res))
        return res


def operator(rng, shape, cplx, gap=None):
    n = int(np.prod(shape))
    q = rng.standard_normal((n, n))
    if cplx:
        q = q + 1j * rng.standard_normal((n, n))
    q, _ = np.linalg.qr(q)
    top = float(10 ** rng.uniform(-3, 3))
    gap = float(rng.uniform(0.05, 0.6)) if gap is None else gap
    lam = np.concatenate([[1.0], rng.uniform(0, gap, n - 1)]) * top
    mat = (q * lam) @ q.conj().T
    if not cplx:
        mat = (mat + mat.T) / 2
    return mat, top, (lambda x: (mat @ x.ravel()).reshape(shape)), q[:, 0]


def case_op(rng):
    shape = dims(rng, 1, 4, int(rng.integers(1, 4)), 300)
    cplx = rng.random() < 0.3
    res = operator(rng, shape, cplx)
    if rng.random() < 0.2:  # the operator always fills the same array
        mat, top, fn, vec = res
        buf = np.empty(shape, dtype=complex if cplx else float)

        def filling(x):
            buf[...] = fn(x)
            return buf

        res = mat, top, filling, vec
    return (shape, cplx, *res)


def large_op(rng):
    """A large operator: one flat dominant mode above a multiple of the identity."""
    shape = dims(rng, 8, 30, int(rng.integers(2, 4)))
    n = int(np.prod(shape))
    top, low = float(10 ** rng.uniform(-3, 3)), float(rng.uniform(0.0, 0.5))
    cplx = rng.random() < 0.5
    vec = np.ones(n, dtype=complex if cplx else float) / np.sqrt(n)
    if cplx:
        vec = vec * np.exp(2j * np.pi * rng.random(n))

    def fn(x):
        v = x.ravel()
        return (top * ((1 - low) * vec * np.vdot(vec, v) + low * v)).reshape(shape)

    return shape, cplx, None, top, fn, vec


def radius(ctx, rng, i):
    shape, cplx, mat, top, fn, vec = (large_op if rng.random() < 0.1 else case_op)(rng)
    dt = complex if cplx else float
    spy = Spy(fn)
    seed = pick(rng, int(rng.integers(1000)), None, np.random.default_rng(3))
    ctx.info(shape=shape, complex=cplx, top=top)
    pm = PowerMethod(spy, shape, data_type=dt, auto_run=False, rng=seed)
    ctx.check(not spy.given, "auto_run=False called the operator")
    kw = {"tolerance": 1e-12 * top, "max_iter": 4000}
    fac = 1.0
    if rng.random() < 0.4:
        fac = kw["extra_factor"] = pick(
            rng, float(rng.uniform(0.5, 2)), np.float64(rng.uniform(0.5, 2)), 1, 2, 3,
            float(10 ** rng.uniform(-4, 4)))
    pm.get_spec_rad(**kw)
    overlap = abs(np.vdot(vec, spy.given[0].ravel()))
    if overlap < 1e-4:
        ctx.obs("start without a component on the top vector")
        far = []
        for k in range(6):  # a random start hardly ever is orthogonal to anything
            again = Spy(fn)
            PowerMethod(again, shape, data_type=dt, auto_run=False,
                        rng=1000 + k).get_spec_rad(max_iter=1)
            far.append(abs(np.vdot(vec, again.given[0].ravel())))
        ctx.check(max(far) >= 1e-4, "every start is orthogonal to the top vector",
                  overlaps=far)
        return
    ctx.close(pm.spec_rad, top * fac, "spectral radius", rtol=1e-6)
    ctx.close(pm.inv_spec_rad, 1.0 / (top * fac), "inverse spectral radius", rtol=1e-6)
    ctx.close(pm.spec_rad * pm.inv_spec_rad, 1.0, "inverse", rtol=1e-12)
    for x in spy.given:
        ctx.check(x.shape == shape, "shape given to the operator")
        ctx.check(x.dtype == dt, f"type given to the operator: {x.dtype}")
        ctx.close(np.linalg.norm(x), 1.0, "unit norm", rtol=1e-9)
    for a, b in zip(spy.made, spy.given[1:]):
        ctx.close(b, a / np.linalg.norm(a), "next vector", rtol=1e-9)
    if len(spy.given) > 1:
        ctx.seen(shape, cplx, top)
    ctx.obs("operator calls", len(spy.given))
    ctx.sample(radius=pm.spec_rad, calls=len(spy.given))


def stopping(ctx, rng, i):
    """max_iter and tolerance are honoured; defaults are 20 and 1e-6."""
    shape, cplx, mat, top, fn, vec = case_op(rng)
    if rng.random() < 0.5:
        n = int(np.prod(shape))
        mat, top, fn, vec = operator(rng, shape, cplx, gap=0.999)
    dt = complex if cplx else float
    spy = Spy(fn)
    default = rng.random() < 0.4
    tol, mx = 1e-6, 20
    verbose = bool(rng.random() < 0.5)
    with quiet() as (out, _):
        if default:
            pm = PowerMethod(spy, shape, data_type=dt, rng=i, verbose=verbose)
        else:
            tol = float(10 ** rng.uniform(-9, -1)) * top
            mx = span(rng, 1, 29, 300)
            pm = PowerMethod(spy, shape, data_type=dt, rng=i, verbose=verbose,
                             auto_run=False)
            pm.get_spec_rad(tolerance=tol, max_iter=mx)
    ctx.info(tol=tol, max_iter=mx, default=default)
    norms = [np.linalg.norm(m) for m in spy.made]
    calls = len(norms)
    ctx.check(1 <= calls <= mx, f"{calls} operator calls, at most {mx} expected")
    ctx.close(pm.spec_rad, norms[-1], "the last norm is returned", rtol=1e-10)
    # From the second pass on the stop test compares consecutive norms.
    for k in range(1, calls - 1):
        ctx.check(abs(norms[k] - norms[k - 1]) >= tol * (1 - 1e-6),
                  f"went on after the change {abs(norms[k] - norms[k-1])} < {tol}")
    conv = calls > 1 and abs(norms[-1] - norms[-2]) < tol * (1 + 1e-6)
    if calls < mx and calls > 1:
        ctx.check(conv, "stopped before the tolerance was met")
    text = out.getvalue()
    if verbose:
        ctx.check("onverge" in text, "verbose run printed nothing")
        if "did not" in text:
            ctx.check(calls == mx, "reported non-convergence early")
        else:
            ctx.check(str(calls) in text, f"iterations reported: {text!r}, run: {calls}")
    else:
        ctx.check(text == "", f"printed {text!r}")
    if calls > 1:
        ctx.seen("stop", shape, tol, mx)
    ctx.obs("operator calls", calls)


def reproducible(ctx, rng, i):
    shape, cplx, mat, top, fn, vec = case_op(rng)
    dt = complex if cplx else float
    seed = pick(rng, 0, 1, int(rng.integers(10**6)))

    def run(r):
        spy = Spy(fn)
        return PowerMethod(spy, shape, data_type=dt, rng=r).spec_rad, spy.given

    np.random.seed(seed)
    (a, ga), (b, gb) = run(seed), run(seed)
    ctx.check(np.array_equal(ga[0], gb[0]) and a == b, "same seed, another result")
    (c, gc), (d, gd) = run(np.random.default_rng(seed)), run(np.random.default_rng(seed))
    ctx.check(np.array_equal(gc[0], gd[0]) and c == d, "same generator, another result")
    # One object, several estimates: each starts afresh (from the same seed).
    spy = Spy(fn)
    pm = PowerMethod(spy, shape, data_type=dt, rng=seed, auto_run=False)
    times = span(rng, 2, 4, 60)
    for k in range(times):
        spy.given.clear()
        pm.get_spec_rad(max_iter=int(rng.integers(1, 9)) if k < times - 1 else 20)
        ctx.check(np.array_equal(spy.given[0], ga[0]),
                  f"estimate {k} of the same object starts elsewhere")
    ctx.check(pm.spec_rad == a, "the last estimate differs from a fresh one")
    if np.prod(shape) > 1:
        spy = Spy(fn)
        pm = PowerMethod(spy, shape, data_type=dt)
        first = spy.given[0]
        spy.given.clear()
        pm.get_spec_rad()
        ctx.check(not np.array_equal(first, spy.given[0]), "unseeded estimates start alike")
        _, ge = run(seed + 1)
        ctx.check(not np.array_equal(ga[0], ge[0]), "the seed has no effect")
        _, g1 = run(None)
        _, g2 = run(None)
        ctx.check(not np.array_equal(g1[0], g2[0]), "unseeded runs start alike")
    ctx.seen("seed", shape, seed)


SECTIONS = [
    Section("radius", radius, 500, 8000),
    Section("stopping", stopping, 400, 5000),
    Section("reproducible", reproducible, 150, 1500),
]
