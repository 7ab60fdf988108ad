"""C05: gradients are H^T(Hx - y), the derivative of the fidelity, never stale."""

import numpy as np
import refs
from core import Section
from gens import array, eps_of, pick, shape_nd, sig, unlock, weary
from modopt.opt.gradient import GradBasic, GradParent
from util import quiet

RULE = (
    "A case is a history on one gradient object: evaluations at changing points, "
    "changes of the observed data and of the operators, with matrix, mask and "
    "convolution-like operators, real/complex; every gradient and cost is compared "
    "to the formula and to a finite difference.  Non-trivial: non-zero gradient."
)


def operators(rng, shape, cplx):
    kind = rng.integers(4)
    if kind == 0:
        c = rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if cplx else 0)
        return (lambda v: c * v), (lambda v: np.conj(c) * v), shape
    if kind == 1:  # circular shift
        s = int(rng.integers(0, 5))
        return (lambda v: np.roll(v, s, axis=0)), (lambda v: np.roll(v, -s, axis=0)), shape
    if kind == 2:
        return (lambda v: v), (lambda v: v), shape
    m = int(rng.integers(1, 7))
    a = rng.standard_normal((m, shape[0]))
    if cplx:
        a = a + 1j * rng.standard_normal(a.shape)
    return (
        lambda v: np.tensordot(a, v, axes=1),
        lambda v: np.tensordot(a.conj().T, v, axes=1),
        (m, *shape[1:]),
    )


def history(ctx, rng, i):
    cplx = rng.random() < 0.3
    shape = shape_nd(rng, hi=6)
    op, adj, oshape = operators(rng, shape, cplx)
    dt = complex if cplx else pick(rng, float, float, np.float32, int)
    new = lambda s: array(rng, s, dtype=dt, scale=pick(rng, 1.0, 1e3, 1e-3, 1e-9))  # noqa: E731
    y = new(oshape)
    kw = {}
    if dt in (float, int):
        kw["data_type"] = pick(rng, None, float, np.floating) if dt is float else pick(
            rng, None, float)
    wr = pick(rng, None, False, True)
    if wr is not None:
        kw["input_data_writeable"] = wr
    keep = np.array(y)
    with quiet():
        g = GradBasic(y, op, adj, verbose=pick(rng, True, False), **kw)
    ctx.info(shape=shape, dtype=str(np.dtype(dt)), **kw)

    def use():
        v = new(shape)
        g.get_grad(v)
        g.cost(v)
        g.trans_op_op(v)

    weary(ctx, rng, use)
    for step in range(int(rng.integers(2, 6))):
        if step and rng.random() < 0.4:
            if dt is float and rng.random() < 0.4:  # a slight change
                y = keep * (1 + 1e-6 * rng.standard_normal(oshape))
            else:
                y = new(oshape)
            keep = np.array(y)
            with quiet():
                g.obs_data = y
            ctx.obs("observed data changes")
        if step and rng.random() < 0.25:
            op, adj, osh2 = operators(rng, shape, cplx)
            if osh2 != oshape:
                oshape = osh2
                y = new(oshape)
                keep = np.array(y)
                with quiet():
                    g.obs_data = y
            g.op, g.trans_op = op, adj
            ctx.obs("operator changes")
        if step and rng.random() < 0.4:  # the same array with other values
            unlock(x)[...] = new(shape)
            ctx.obs("points changed in place")
        else:
            x = new(shape)
        if step and wr and rng.random() < 0.3:
            g.obs_data[...] = new(oshape)
            keep = np.array(g.obs_data)
            ctx.obs("observed data changed in place")
        x0 = np.array(x)
        ret = g.get_grad(x)
        eps = eps_of(x0)
        tol = 1e-9 if eps < 1e-10 else 1e-4
        xa = x0.astype(np.result_type(x0, float))
        ya = keep.astype(np.result_type(keep, float))
        res = op(xa) - ya
        want = adj(res)
        sc = float(np.max(np.abs(adj(np.abs(op(xa)) + np.abs(ya))))) + float(
            np.max(np.abs(want))) + 1e-300
        sc = max(sc, float(np.max(np.abs(xa))), float(np.max(np.abs(ya))))
        ctx.close(g.grad, want, f"gradient at step {step}", rtol=tol, scale=sc)
        cost = 0.5 * refs.norm2(res) ** 2
        ctx.close(g.cost(x), cost, f"cost at step {step}", rtol=tol * 10,
                  scale=cost + refs.norm2(op(xa)) ** 2 + refs.norm2(ya) ** 2 + 1e-300)
        ctx.close(g.trans_op_op(xa), adj(op(xa)), "H^T H x", rtol=tol, scale=sc)
        flag = x.flags.writeable, xa.flags.writeable
        g.trans_op_op(x)
        ctx.check((x.flags.writeable, xa.flags.writeable) == flag,
                  "the argument was write-protected")
        ctx.check(np.array_equal(x, x0), "get_grad modified its argument")
        ctx.check(np.array_equal(np.asarray(g.obs_data), keep),
                  "the observed data changed")
        if dt is not np.float32:
            # exact second order expansion of the cost along a direction
            d = rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if cplx else 0)
            d = d * max(float(np.max(np.abs(xa))), 1e-3)
            c0, c1 = float(g.cost(xa)), float(g.cost(xa + d))
            lin_ = float(np.real(np.vdot(np.asarray(g.grad), d)))
            quad = 0.5 * refs.norm2(op(d)) ** 2
            ctx.close(c1 - c0, lin_ + quad, "the gradient is the derivative of the cost",
                      rtol=1e-8, scale=abs(c0) + abs(c1) + abs(lin_) + quad)
        if np.any(want):
            ctx.seen("grad", shape, str(dt), step, sig(x0))
        del ret
    ctx.sample(grad=np.asarray(g.grad))


def protection(ctx, rng, i):
    """The observed data are immutable unless asked otherwise."""
    y = rng.standard_normal(shape_nd(rng, hi=5))
    wr = bool(rng.integers(2))
    cls = pick(rng, GradBasic, GradParent)
    with quiet():
        g = cls(y, lambda v: v, lambda v: v, input_data_writeable=wr,
                verbose=pick(rng, True, False))
    ctx.check(g.obs_data.flags.writeable == wr, "writeable flag of the observed data")

    def write():
        g.obs_data[...] = 0

    if not wr:
        ctx.raises(ValueError, write, "writing protected observed data")
    else:
        write()
    with quiet():
        g.obs_data = rng.standard_normal(3)
    ctx.check(g.obs_data.flags.writeable == wr, "flag after the data were replaced")
    ctx.seen("protect", wr, cls.__name__, y.shape)


def mixed(ctx, rng, i):
    """Real data with a complex operator or point, and the reverse."""
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    which = pick(rng, (1, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 0))

    def rnd(cplx, *s):
        v = rng.standard_normal(s)
        return v + 1j * rng.standard_normal(s) if cplx else v

    h, y = rnd(which[0], m, n), rnd(which[1], m)
    with quiet():
        g = GradBasic(y.copy(), lambda v: h @ v, lambda v: h.conj().T @ v,
                      verbose=bool(rng.integers(2)))
    for _ in range(3):
        x = rnd(which[2], n)
        res = h @ x - y
        g.get_grad(x)
        sc = 1 + float(np.abs(h).sum()) * (float(np.abs(h @ x).max()) +
                                           float(np.abs(y).max()))
        ctx.close(g.grad, h.conj().T @ res, f"gradient, complex: {which}", scale=sc)
        ctx.close(g.cost(x), 0.5 * refs.norm2(res) ** 2, f"cost, complex: {which}",
                  scale=sc ** 2)
    ctx.seen("mixed", which, n, m, sig(y))
    ctx.sample(complex=which)


def custom(ctx, rng, i):
    """User-supplied gradient and cost are what is used."""
    y = rng.standard_normal(4)
    a = float(rng.standard_normal())
    calls = []
    g = GradParent(
        y, lambda v: a * v, lambda v: a * v, verbose=False,
        get_grad=lambda v: calls.append(v) or "grad", cost=lambda *p, **k: ("cost", p),
    )
    x = rng.standard_normal(4)
    ctx.check(g.get_grad(x) == "grad" and calls[-1] is x, "custom gradient")
    ctx.check(g.cost(x)[1][0] is x, "custom cost")
    ctx.close(g.op(x), a * x, "op")
    ctx.close(g.trans_op(x), a * x, "trans_op")
    ctx.close(g.trans_op_op(x), a * a * x, "trans_op_op")
    # the two operators may exchange anything
    mid = pick(rng, lambda v: [v, 2 * v], lambda v: {"v": v}, lambda v: (v, None),
               lambda v: "text")(x)
    g.op, g.trans_op = lambda v: mid, lambda u: (u, 1)
    ctx.check(g.trans_op_op(x)[0] is mid, "trans_op_op of other results")
    g.grad = x
    ctx.close(g.grad, x, "grad value", rtol=0)
    ctx.seen("custom", a)


SECTIONS = [
    Section("history", history, 900, 12000),
    Section("protection", protection, 200, 1500),
    Section("mixed", mixed, 150, 1500),
    Section("custom", custom, 50, 200),
]
