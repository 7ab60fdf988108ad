"""C01: convex proximity operators return the proximal point."""

import numpy as np
import refs
from core import Section
from gens import array, dims, eps_of, layout, pick, shape_nd, sig, weary
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from util import mute

RULE = (
    "A case is one operator instance (weights, thresholds, k, linear operator) and "
    "one input (1-3 dimensions, real/complex, 32/64 bit, 5 memory layouts, ties, "
    "zeros, spread magnitudes), called with and without extra_factor; non-trivial: "
    "the operator changed the input or its optimality was judged against at least "
    "one competitor point."
)
ASSUMPTIONS = [
    "regularisers as documented: l1 (soft), alpha*l2^2, elastic net, group lasso "
    "over the first axis, OWL, beta/2 * squared k-support norm, nuclear norm of the "
    "flattened cube, positivity constraint",
]
FDT = (float, float, np.float32)
CDT = (float, complex, np.complex64, np.float32)


def factor(rng):
    fac = float(pick(rng, 1.0, rng.uniform(0.05, 3), 10.0 ** rng.uniform(-2, 2), 0.5))
    if rng.random() < 0.2:
        fac = pick(rng, 0, 0.0, 1, 2, 3, np.float64(fac), np.int64(2))
    return fac


def call(op, x, fac):
    """extra_factor omitted when it is 1 (the documented default)."""
    return op(x) if fac is None else op(x, extra_factor=fac)


def better(ctx, rng, p, x, reg, tol, what):
    """No competitor has a lower objective than the returned point."""
    p, x = np.asarray(p, dtype=np.result_type(p, float)), np.asarray(x)
    x = x.astype(np.result_type(x, float))

    def obj(z):
        return 0.5 * refs.norm2(z - x) ** 2 + reg(z)

    base = obj(p)
    size = max(refs.norm2(x), 1e-300)
    # soft thresholding rounds its result to 15 decimals
    round_off = np.full(p.shape, 1e-15)
    slack = refs.norm2(round_off) * (size + refs.norm2(round_off))
    if np.isfinite(reg(round_off)):
        slack += abs(reg(round_off))
    cand = [np.zeros_like(p), x.astype(p.dtype), 0.5 * p, 0.5 * (x + p)]
    for step in (1e-1, 1e-2, 1e-3):
        d = rng.standard_normal(p.shape)
        if np.iscomplexobj(p):
            d = d + 1j * rng.standard_normal(p.shape)
        cand.append(p + step * size * d / np.sqrt(p.size))
        one = np.zeros(p.size, dtype=p.dtype)
        one[rng.integers(p.size)] = step * size
        cand.extend([p + one.reshape(p.shape), p - one.reshape(p.shape)])
    for z in cand:
        ctx.obs("competitor points")
        if not obj(z) >= base - slack - tol * max(size**2, abs(base)):
            ctx.fail(
                f"{what}: a point with a lower objective exists "
                f"({obj(z)!r} < {base!r})",
                x=x,
                p=p,
                z=z,
            )


def judge(ctx, rng, what, op, x, fac, ref, reg, atol=4e-15, rfac=1.0, rep=1e-12):
    eps = eps_of(x)
    rtol = 5e-10 * rfac if eps < 1e-10 else 2e-5 * rfac
    before = np.array(x, copy=True)
    weary(ctx, rng, lambda: call(op, np.asarray(x) * rng.uniform(-1, 1), fac))
    p = call(op, x, fac)
    ctx.info(operator=what, x=before, extra_factor=fac)
    scale = float(np.max(np.abs(before))) if before.size else 0.0
    ctx.close(p, ref(before), f"{what}: proximal point", rtol=rtol, atol=atol, scale=scale)
    ctx.check(np.array_equal(before, x), f"{what}: the input was modified")
    again = call(op, x, fac)
    ctx.close(again, p, f"{what}: second call differs", rtol=rep, atol=0, scale=scale)
    if reg is not None and eps < 1e-10:
        better(ctx, rng, p, before, reg, 1e-9, what)
    if np.any(np.asarray(p) != before):
        ctx.seen(what, fac, sig(before))
    ctx.sample(p=p)
    return p


def fe(ctx, rng, what, op, mk, atol=4e-15):
    """Firm non-expansiveness on a pair of nearby or distant inputs."""
    x = mk()
    y = x + (mk() - x) * pick(rng, 1.0, 1e-2)
    px_, py_ = op(x), op(y)
    dx, dp = (x - y).ravel(), (np.asarray(px_) - np.asarray(py_)).ravel()
    left = refs.norm2(dp) ** 2
    right = float(np.real(np.vdot(dp, dx)))
    tol = 1e-9 * max(refs.norm2(x), refs.norm2(y)) ** 2 + atol
    ctx.check(
        left <= right + tol,
        f"{what}: not firmly non-expansive ({left} > {right})",
        kind="non-expansiveness pairs",
        x=x,
        y=y,
    )


def weights_for(rng, shape, scale):
    kind = rng.integers(5)
    if kind == 4 and scale < 1e6:
        return rng.integers(0, 2 + int(3 * scale), shape)
    if kind == 0:
        return float(abs(rng.standard_normal()) * scale)
    if kind == 1:
        return np.abs(rng.standard_normal(shape)) * scale
    if kind == 2:
        return np.abs(rng.standard_normal(shape)) * scale * (rng.random(shape) < 0.6)
    return np.full(shape, float(rng.uniform(0, 2)) * scale)


def mag(x):
    m = float(np.mean(np.abs(x)))
    return m if m > 0 else 1.0


def cost_op(rng):
    """A linear operator for the cost; the proximity operator does not depend on it."""
    if rng.random() < 0.5:
        return lin.Identity()
    return lin.LinearParent(lambda v: 3.0 * np.asarray(v).ravel()[::-1],
                            lambda v: 3.0 * np.asarray(v).ravel()[::-1])


def sparse(ctx, rng, i):
    shape = shape_nd(rng, hi=9)
    x = array(rng, shape, dtype=pick(rng, *CDT, int))
    w = weights_for(rng, shape, mag(x))
    fac = pick(rng, None, factor(rng), factor(rng), np.abs(rng.standard_normal(shape)))
    f = 1.0 if fac is None else fac
    prox = px.SparseThreshold(cost_op(rng), w)
    judge(
        ctx, rng, "SparseThreshold", prox.op, x, fac,
        lambda v: refs.soft(v, w * f),
        lambda z: float(np.sum(w * f * np.abs(z))),
    )
    fe(ctx, rng, "SparseThreshold", lambda v: call(prox.op, v, fac),
       lambda: array(rng, shape, scale=mag(x)))
    # scaling the weights or passing the factor are the same thing
    two = px.SparseThreshold(lin.Identity(), w * f)
    ctx.close(two.op(x), call(prox.op, x, fac), "SparseThreshold: factor is not a "
              "scaling of the weights", rtol=1e-5 if eps_of(x) > 1e-10 else 1e-9,
              atol=4e-15, scale=mag(x) * 10)


def ridge(ctx, rng, i):
    shape = shape_nd(rng, hi=9)
    x = array(rng, shape, dtype=pick(rng, *CDT))
    w = weights_for(rng, shape, float(pick(rng, 1.0, 1.0, 1e-4, 1e3, 1e5)))
    fac = pick(rng, None, factor(rng), np.abs(rng.standard_normal(shape)))
    f = 1.0 if fac is None else fac
    prox = px.Ridge(cost_op(rng), w)
    judge(
        ctx, rng, "Ridge", prox.op, x, fac,
        lambda v: v / (1 + 2 * w * f),
        lambda z: float(np.sum(w * f * np.abs(z) ** 2)),
    )
    fe(ctx, rng, "Ridge", lambda v: call(prox.op, v, fac), lambda: array(rng, shape))


def elastic(ctx, rng, i):
    shape = shape_nd(rng, hi=9)
    x = array(rng, shape, dtype=pick(rng, *CDT))
    al = weights_for(rng, shape, 1.0)
    be = weights_for(rng, shape, mag(x))
    fac = pick(rng, None, factor(rng), np.abs(rng.standard_normal(shape)))
    f = 1.0 if fac is None else fac
    prox = px.ElasticNet(cost_op(rng), al, be)
    judge(
        ctx, rng, "ElasticNet", prox.op, x, fac,
        lambda v: refs.soft(v, be * f) / (1 + 2 * al * f),
        lambda z: float(np.sum(f * (al * np.abs(z) ** 2 + be * np.abs(z)))),
    )
    fe(ctx, rng, "ElasticNet", lambda v: call(prox.op, v, fac),
       lambda: array(rng, shape, scale=mag(x)))


def group(ctx, rng, i):
    shape = shape_nd(rng, ndim=int(rng.integers(1, 4)), hi=7)
    x = array(rng, shape, dtype=pick(rng, *CDT), scale=pick(rng, 1.0, 1e3, 1e-2, 1e-9))
    gshape = shape[1:]
    w = (
        float(rng.uniform(0, 2) * mag(x))
        if not gshape or rng.random() < 0.4
        else np.abs(rng.standard_normal(gshape)) * mag(x) * np.sqrt(shape[0])
    )
    fac = pick(rng, None, factor(rng))
    f = 1.0 if fac is None else fac
    prox = px.GroupLASSO(w)

    def ref(v):
        nrm = np.sqrt(np.sum(np.abs(v) ** 2, axis=0))
        with np.errstate(all="ignore"):
            sc = np.where(nrm > w * f, (nrm - w * f) / np.where(nrm > 0, nrm, 1), 0)
        return v * sc

    judge(
        ctx, rng, "GroupLASSO", prox.op, x, fac, ref,
        lambda z: float(np.sum(w * f * np.sqrt(np.sum(np.abs(z) ** 2, axis=0)))),
        atol=0,
    )
    fe(ctx, rng, "GroupLASSO", lambda v: call(prox.op, v, fac),
       lambda: array(rng, shape, scale=mag(x)), atol=0)


def owl(ctx, rng, i):
    n = dims(rng, 1, 13, 1, 1500)[0]
    shape = pick(rng, (n,), (n, 1), (1, n), shape_nd(rng, ndim=2, hi=4))
    n = int(np.prod(shape))
    x = array(rng, shape, dtype=pick(rng, float, float, complex, np.float32))
    w = np.sort(np.abs(rng.standard_normal(n)))[::-1] * mag(x)
    w = pick(rng, w, np.maximum(w - np.median(w), 0), np.full(n, w[0]),
             np.linspace(2, 0, n) * mag(x), np.r_[w[:1], np.zeros(n - 1)])
    fac = pick(rng, None, factor(rng))
    f = 1.0 if fac is None else fac
    prox = px.OrderedWeightedL1Norm(w.copy())
    judge(
        ctx, rng, "OrderedWeightedL1Norm", prox.op, x, fac,
        lambda v: refs.owl_prox(v, w * f),
        lambda z: refs.owl_norm(z, w * f),
        rfac=4.0,
    )
    fe(ctx, rng, "OWL", lambda v: call(prox.op, v, fac),
       lambda: array(rng, shape, scale=mag(x)))


def ksup(ctx, rng, i):
    shape = pick(rng, dims(rng, 1, 12, 1, 1200), shape_nd(rng, ndim=2, hi=5, top=300))
    n = int(np.prod(shape))
    x = array(rng, shape, dtype=pick(rng, float, float, np.float32),
              scale=pick(rng, 1.0, 1.0, 1e3, 1e-2))
    k = int(rng.integers(1, n + 1))
    beta = float(pick(rng, rng.uniform(0.05, 3), 10.0 ** rng.uniform(-2, 1.5), 1.0, 3.0))
    fac = pick(rng, None, factor(rng))
    f = 1.0 if fac is None else fac
    prox = px.KSupportNorm(beta, k)
    judge(
        ctx, rng, "KSupportNorm", prox.op, x, fac,
        lambda v: refs.ksup_prox(v, beta * f, k) if f else v,
        lambda z: 0.5 * beta * f * refs.ksup_sq(z, k),
        rfac=20.0,
    )
    fe(ctx, rng, "KSupportNorm", lambda v: call(prox.op, v, fac),
       lambda: array(rng, shape, scale=pick(rng, 1.0, 10.0)))


def lowrank(ctx, rng, i):
    shape = dims(rng, 1, 6, 3)
    x = array(rng, shape, dtype=pick(rng, float, complex, np.float32),
              scale=pick(rng, 1.0, 1e2, 1e-2))
    if rng.random() < 0.15:  # cubes of whole numbers
        x = rng.integers(-40, 41, shape)
        x.flat[0] = 41
        x = layout(rng, x)
    if rng.random() < 0.3 and shape[0] > 2:  # rank deficient stack
        x = np.array(x)
        x[1] = 2 * x[0]
    mat = np.asarray(x).reshape(shape[0], -1).T
    s0 = np.linalg.svd(mat, compute_uv=False)[0]
    t = float(s0 * rng.uniform(0, 1.1))
    fac = pick(rng, None, factor(rng))
    f = 1.0 if fac is None else fac
    init = pick(rng, None, None, int(rng.integers(1, min(mat.shape) + 1)))
    prox = px.LowRankMatrix(t, thresh_type="soft", initial_rank=init)

    def quiet_op(v, **kw):
        return mute(prox.op, v, **kw)

    def ref(v):
        m = v.reshape(shape[0], -1).T
        low = refs.svd_apply(m, lambda s: np.maximum(s - t * f, 0))
        return low.T.reshape(shape)

    ctx.info(initial_rank=init)
    judge(
        ctx, rng, "LowRankMatrix", quiet_op, x, fac, ref,
        lambda z: t * f * refs.nuclear(z.reshape(shape[0], -1)),
        rfac=200.0, atol=1e-13, rep=1e-3 if eps_of(x) > 1e-10 else 1e-7,
    )
    if init is None:
        fe(ctx, rng, "LowRankMatrix", lambda v: call(quiet_op, v, fac),
           lambda: array(rng, shape, scale=mag(x)))


def positivity(ctx, rng, i):
    shape = shape_nd(rng, hi=9)
    x = array(rng, shape, dtype=pick(rng, *FDT, int))
    fac = pick(rng, None, factor(rng))
    prox = px.Positivity()
    p = judge(ctx, rng, "Positivity", prox.op, x, fac, lambda v: np.maximum(v, 0), None)
    ctx.check(np.all(np.asarray(p) >= 0), "Positivity: a negative value is left")
    ident = px.IdentityProx()
    judge(ctx, rng, "IdentityProx", ident.op, x, None, lambda v: v, None)
    ctx.seen("identity", sig(np.asarray(x)))


def composition(ctx, rng, i):
    n = dims(rng, 2, 8, 1, 1000)[0]
    cplx = rng.random() < 0.3
    a = rng.standard_normal((n, n))
    if cplx:
        a = a + 1j * rng.standard_normal((n, n))
    q = np.linalg.qr(a)[0]
    w = np.abs(rng.standard_normal(n))
    fac = pick(rng, None, factor(rng), np.abs(rng.standard_normal(n)))
    f = 1.0 if fac is None else fac
    comp = px.LinearCompositionProx(
        lin.MatrixOperator(q), px.SparseThreshold(lin.Identity(), w)
    )
    x = array(rng, (n,), dtype=complex if cplx else float, scale=pick(rng, 1.0, 50.0))
    judge(
        ctx, rng, "LinearCompositionProx", comp.op, x, fac,
        lambda v: q.conj().T @ refs.soft(q @ v, w * f),
        lambda z: float(np.sum(w * f * np.abs(q @ z))),
        rfac=4.0, atol=1e-13,
    )
    fe(ctx, rng, "LinearCompositionProx", lambda v: call(comp.op, v, fac),
       lambda: array(rng, (n,), dtype=complex if cplx else float))


def combo(ctx, rng, i):
    n_ops = dims(rng, 1, 4, 1, 40)[0]
    shapes = [shape_nd(rng, hi=5) for _ in range(n_ops)]
    if rng.random() < 0.4:
        shapes = [shapes[0]] * n_ops
    data = [array(rng, s, scale=1.0) for s in shapes]
    ops, want = [], []
    fac = pick(rng, None, factor(rng))
    f = 1.0 if fac is None else fac
    for s, d in zip(shapes, data):
        kind = rng.integers(3)
        w = np.abs(rng.standard_normal(s))
        if kind == 0:
            ops.append(px.SparseThreshold(lin.Identity(), w))
            want.append(refs.soft(d, w * f))
        elif kind == 1:
            ops.append(px.Ridge(lin.Identity(), w))
            want.append(d / (1 + 2 * w * f))
        else:
            ops.append(px.Positivity())
            want.append(np.maximum(d, 0))
    arr = np.empty(n_ops, dtype=object)
    for j, d in enumerate(data):
        arr[j] = d
    both = px.ProximityCombo(ops)
    weary(ctx, rng, lambda: call(both.op, [d * rng.uniform(-1, 1) for d in data], fac))
    res = call(both.op, pick(rng, arr, data), fac)
    ctx.check(len(res) == n_ops, "ProximityCombo: number of results")
    for j in range(n_ops):
        ctx.close(res[j], want[j], f"ProximityCombo: element {j}", rtol=1e-9, atol=4e-15)
    ctx.seen("combo", n_ops, fac, sig(*data))


SECTIONS = [
    Section("sparse", sparse, 400, 6000),
    Section("ridge", ridge, 200, 3000),
    Section("elastic", elastic, 250, 4000),
    Section("group", group, 300, 4000),
    Section("owl", owl, 500, 8000),
    Section("ksup", ksup, 900, 15000),
    Section("lowrank", lowrank, 300, 4000),
    Section("positivity", positivity, 200, 2000),
    Section("composition", composition, 150, 2000),
    Section("combo", combo, 200, 2000),
]
