"""C06: linear operators are linear and adj_op is the adjoint of op."""

import numpy as np
from core import Section
from gens import array, dims, pick, shape_nd, sig, unlock, weary
from modopt.opt import linear as lin
from modopt.signal import validation
from util import quiet

RULE = (
    "A case is one operator (matrix, filter bank, combination, nested combination) "
    "with random probes: <A x, y> = <x, A^T y>, additivity, homogeneity, and the "
    "result itself against the definition; non-trivial: non-zero inner product."
)


def inner(a, b):
    """Inner product, also of object arrays of arrays."""
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.vdot(a, np.asarray(b))
    return sum(inner(np.asarray(p), np.asarray(q)) for p, q in zip(a, b))


def probe(rng, like, cplx):
    if isinstance(like, np.ndarray) and like.dtype != object:
        res = rng.standard_normal(like.shape)
        return res + 1j * rng.standard_normal(like.shape) if cplx else res
    out = np.empty(len(like), dtype=object)
    for j, p in enumerate(like):
        out[j] = probe(rng, np.asarray(p), cplx)
    return out


def flat(a):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a.dtype != object:
        return a.ravel()
    return np.concatenate([flat(np.asarray(p)) for p in a])


def laws(ctx, rng, what, op, shape, cplx=False, adj_factor=1.0, tol=1e-9, amp=1.0):
    """Check the laws; amp bounds the gain of the operator (sum of the entries)."""
    size = float(pick(rng, 1.0, 1.0, 1e-7, 1e6))
    mk = lambda: array(rng, shape, dtype=complex if cplx else float, scale=size)  # noqa: E731
    x, z = mk(), mk()
    x0 = np.array(x)
    ax = op.op(x)
    ysize = float(pick(rng, 1.0, 1.0, 1e-7, 1e6))
    y = probe(rng, ax, cplx) * ysize
    aty = op.adj_op(y)
    ctx.check(np.asarray(aty).shape == tuple(shape), f"{what}: shape of the adjoint",
              got=np.asarray(aty).shape)

    def use():
        op.op(z)
        op.adj_op(y)

    weary(ctx, rng, use)
    ctx.close(flat(op.op(x)), flat(ax), f"{what}: repeated call", rtol=1e-12,
              scale=amp * np.max(np.abs(x0)) + 1e-300)
    ctx.close(flat(op.adj_op(y)), flat(aty), f"{what}: repeated adjoint", rtol=1e-12,
              scale=amp * np.max(np.abs(flat(y))) + 1e-300)
    # np.vdot conjugates its first argument: <y, A x> = <A^H y, x>
    left, right = inner(y, ax), inner(np.asarray(aty) * adj_factor, x)
    scale = np.linalg.norm(flat(ax)) * np.linalg.norm(flat(y)) + np.linalg.norm(
        flat(aty)) * np.linalg.norm(x0) + amp * np.linalg.norm(x0) * np.linalg.norm(
            flat(y)) + 1e-300
    ctx.close(left, right, f"{what}: <y, A x> = <A^T y, x>", rtol=tol, scale=scale)
    a, b = float(rng.standard_normal()), float(rng.standard_normal())
    az = op.op(z)
    comb = flat(op.op(a * x + b * z))
    ctx.close(comb, a * flat(ax) + b * flat(az), f"{what}: op is linear", rtol=tol,
              scale=amp * (np.max(np.abs(x0)) * abs(a) + np.max(np.abs(z)) * abs(b))
              + 1e-300)
    y2 = probe(rng, ax, cplx) * ysize
    got = flat(op.adj_op(a * y + b * y2))
    aty2 = op.adj_op(y2)
    ctx.close(got, a * flat(aty) + b * flat(aty2), f"{what}: adj_op is linear", rtol=tol,
              scale=amp * (np.max(np.abs(flat(y))) * abs(a)
                           + np.max(np.abs(flat(y2))) * abs(b)) + 1e-300)
    ctx.check(np.array_equal(x, x0), f"{what}: op modified its input")
    ctx.close(flat(op.op(x)), flat(ax), f"{what}: repeated call", rtol=1e-12,
              scale=amp * np.max(np.abs(x0)) + 1e-300)
    if abs(left) > 0:
        ctx.seen(what, tuple(shape), sig(x0))
    ctx.sample(operator=what, left=left, right=right)
    return x, ax, y, aty


def matrix(ctx, rng, i):
    m, n = dims(rng, 1, 8, 2)
    cplx = rng.random() < 0.4
    a = array(rng, (m, n), dtype=complex if cplx else pick(rng, float, int), scale=1.0)
    if cplx and rng.random() < 0.2:
        unlock(a).imag[...] = 0
    a0 = np.array(a)
    op = lin.MatrixOperator(a)
    shape = pick(rng, (n,), (n, int(rng.integers(1, 5))))
    vc = cplx or rng.random() < 0.2
    x, ax, y, aty = laws(ctx, rng, "MatrixOperator", op, shape, vc,
                         amp=float(np.sum(np.abs(a0))))
    ctx.close(ax, a0 @ np.array(x), "matrix product", rtol=1e-9,
              scale=1e-300 + np.sum(np.abs(a0)) * np.max(np.abs(x)))
    ctx.close(aty, a0.conj().T @ y, "adjoint matrix product", rtol=1e-9,
              scale=1e-300 + np.sum(np.abs(a0)) * np.max(np.abs(y)))
    ctx.check(np.array_equal(a, a0), "the matrix was modified")
    if rng.random() < 0.4:  # the caller updates the matrix in place
        unlock(a)[...] = array(rng, (m, n), dtype=a.dtype, scale=1.0)
        laws(ctx, rng, "MatrixOperator, updated", op, shape, vc,
             amp=float(np.sum(np.abs(a)) + np.sum(np.abs(a0))))


def odd(rng, hi):
    return int(rng.integers(0, (hi + 1) // 2)) * 2 + 1


def wavelet(ctx, rng, i):
    n_f, n_im = dims(rng, 1, 3, 2, 80)
    method = pick(rng, "scipy", "scipy", "astropy")
    if method == "scipy":
        fs = (odd(rng, 5), odd(rng, 5))
        im = dims(rng, max(fs), 8, 2)
    else:
        fs = im = (odd(rng, 7), odd(rng, 7))
    filt = array(rng, (n_f, *fs), scale=1.0)
    kw = {} if method == "scipy" and rng.random() < 0.5 else {"method": method}
    op = lin.WaveletConvolve(filt, **kw)
    ctx.info(filters=filt.shape, images=(n_im, *im), method=method)
    _, ax, _, _ = laws(ctx, rng, f"WaveletConvolve/{method}", op, (n_im, *im), tol=1e-8,
                       amp=float(np.sum(np.abs(filt))))
    ctx.check(np.shape(ax) == (n_im, n_f, *im), "shape of the coefficients")


def combo(ctx, rng, i):
    n = dims(rng, 1, 5, 1, 40)[0]
    k = dims(rng, 1, 4, 1, 40)[0]
    shape = pick(rng, (n,), (n,), (n, *dims(rng, 1, 5, 1, 300)))
    cplx = rng.random() < 0.25
    mats, ops = [], []
    rows = int(rng.integers(1, 6))
    for _ in range(k):
        if rng.random() < 0.5:
            rows = int(rng.integers(1, 6))
        a = rng.standard_normal((rows, n))
        if cplx:
            a = a + 1j * rng.standard_normal(a.shape)
        mats.append(a)
        ops.append(lin.MatrixOperator(a))
    if rng.random() < 0.3:
        ops.append(lin.Identity())
        mats.append(np.eye(n))
        k += 1
    if rng.random() < 0.2:  # the same operator twice
        j = int(rng.integers(k))
        ops.append(ops[j])
        mats.append(mats[j])
        k += 1
    seq = pick(rng, list, tuple)(ops)
    gain = float(sum(np.sum(np.abs(m)) for m in mats))
    kind = rng.integers(3)
    if kind == 0:  # plain sum: the adjoint
        op = lin.LinearCombo(seq, weights=pick(rng, list, tuple, np.array)([1.0] * k))
        x, ax, y, aty = laws(ctx, rng, "LinearCombo/unit", op, shape, cplx,
                             amp=gain)
        w = np.ones(k)
    elif kind == 1:  # default: the mean
        op = lin.LinearCombo(seq)
        x, ax, y, aty = laws(ctx, rng, "LinearCombo/mean", op, shape, cplx, adj_factor=k,
                             amp=gain)
        w = np.full(k, 1.0 / k)
    else:
        w = pick(rng, rng.uniform(0.1, 2, k), rng.standard_normal(k),
                 rng.uniform(0.1, 2, k) * (rng.random(k) < 0.6),
                 10.0 ** rng.uniform(-6, 6, k))
        op = lin.LinearCombo(seq, weights=w.copy())
        x = array(rng, shape, dtype=complex if cplx else float)
        ax = op.op(x)
        y = probe(rng, ax, cplx)
        weary(ctx, rng, lambda: op.adj_op(probe(rng, ax, cplx)))
        aty = op.adj_op(y)
        some = pick(rng, list, tuple)(y)
        ctx.close(op.adj_op(some), aty, "adjoint of a sequence", rtol=0)
        ctx.seen("LinearCombo/weights", k, sig(w))
    ctx.check(len(ax) == k, "one result per operator")
    for j in range(k):
        ctx.close(ax[j], mats[j] @ np.array(x), f"element {j}", rtol=1e-9,
                  scale=1e-300 + np.sum(np.abs(mats[j])) * np.max(np.abs(x)))
    want = sum(w[j] * mats[j].conj().T @ y[j] for j in range(k))
    ctx.close(aty, want, "combined adjoint", rtol=1e-9, scale=1e-300 + sum(
        abs(w[j]) * np.sum(np.abs(mats[j])) * np.max(np.abs(y[j])) for j in range(k)))


def nested(ctx, rng, i):
    n = int(rng.integers(1, 5))
    mats = [rng.standard_normal((int(rng.integers(1, 5)), n)) for _ in range(3)]
    gain = float(sum(np.sum(np.abs(m)) for m in mats)) + 1
    inner_op = lin.LinearCombo([lin.MatrixOperator(m) for m in mats[:2]],
                              weights=[1.0, 1.0])
    op = lin.LinearCombo([inner_op, lin.MatrixOperator(mats[2]), lin.Identity()],
                         weights=[1.0, 1.0, 1.0])
    laws(ctx, rng, "LinearCombo/nested", op, (n,), amp=gain)


def basics(ctx, rng, i):
    op = lin.Identity()
    shape = shape_nd(rng, hi=6)
    x, ax, y, aty = laws(ctx, rng, "Identity", op, shape, rng.random() < 0.3)
    ctx.close(ax, np.array(x), "identity", rtol=0)
    ctx.close(aty, y, "adjoint of the identity", rtol=0)
    c = float(rng.standard_normal())
    p = lin.LinearParent(lambda v: c * v, lambda v: c * v)
    laws(ctx, rng, "LinearParent", p, shape, amp=abs(c))
    # The package's own adjointness test tells adjoint pairs from other pairs.
    n, m = dims(rng, 1, 6, 2)
    a = rng.standard_normal((m, n))
    seed = int(rng.integers(1000))

    def report(op_t, rng_):
        with quiet() as (out, _):
            validation.transpose_test(
                lambda v, b: b @ v, op_t, (n,), x_args=a, y_shape=(m,), y_args=a,
                rng=rng_,
            )
        return float(out.getvalue().split("=")[-1])

    # the arguments of each operator reach that operator, after its input
    seen = []
    x_args, y_args = {"mat": a}, {"mat": a.T}
    y_kw = pick(rng, {}, {"y_args": None}, {"y_args": y_args})

    def note(key):
        def fn(v, args):
            seen.append((key, args))
            return args["mat"] @ v if key == "op" or y_kw.get("y_args") else (
                args["mat"].T @ v)
        return fn

    with quiet() as (out, _):
        validation.transpose_test(note("op"), note("op_t"), (n,), x_args, (m,),
                                  rng=seed, **y_kw)
    ctx.check([k for k, _ in seen] in (["op", "op_t"], ["op_t", "op"]),
              f"operators called: {[k for k, _ in seen]}")
    ctx.check(dict(seen)["op"] is x_args, "arguments of the operator")
    ctx.check(dict(seen)["op_t"] is (y_kw.get("y_args") or x_args),
              "arguments of the transpose operator", given=sorted(y_kw))
    same = float(out.getvalue().split("=")[-1])
    ctx.check(same <= 1e-12 * (1 + np.abs(a).sum()), f"transpose test of a pair: {same}")
    good = report(lambda v, b: b.T @ v, pick(rng, seed, np.random.default_rng(seed)))
    bad = report(lambda v, b: 1.5 * (b.T @ v), seed)
    g = np.random.default_rng(seed)
    xs, ys = g.random((n,)), g.random((m,))
    g = np.random.default_rng(seed)
    ys2, xs2 = g.random((m,)), g.random((n,))  # whichever is drawn first
    want = abs(0.5 * np.sum((a @ xs) * ys))
    want2 = abs(0.5 * np.sum((a @ xs2) * ys2))
    if abs(want2 - bad) < abs(want - bad):
        want = want2
    ctx.check(good <= 1e-12 * (1 + np.abs(a).sum()), f"transpose test on a pair: {good}")
    ctx.close(bad, want, "transpose test on a wrong pair", rtol=1e-6, atol=1e-12)


SECTIONS = [
    Section("matrix", matrix, 700, 8000),
    Section("wavelet", wavelet, 500, 5000),
    Section("combo", combo, 600, 6000),
    Section("nested", nested, 100, 1000),
    Section("basics", basics, 200, 2000),
]
