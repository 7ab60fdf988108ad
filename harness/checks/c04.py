"""C04: the cost of every operator is its documented functional; totals add up."""

import zlib

import numpy as np
import refs
from core import Section
from gens import array, dims, eps_of, pick, shape_nd, sig
from modopt.opt import cost as mcost
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.algorithms.admm import ADMMcostObj
from modopt.opt.gradient import GradBasic
from util import quiet

RULE = (
    "A case is one operator with random weights and linear operator and one input, "
    "whose cost is compared to the documented formula evaluated independently, or a "
    "random set of operators whose costs must add up; non-trivial: non-zero cost."
)
DT = (float, float, complex, np.float32)


def val(ctx, fn, *args, verbose=None):
    mark = zlib.crc32(repr(args).encode())
    with quiet() as (out, _):
        if mark % 40 == 0:  # a long use before what is looked at
            for _ in range(8 + mark // 40 % 140):
                fn(*args) if verbose is None else fn(*args, verbose=verbose)
        res = fn(*args) if verbose is None else fn(*args, verbose=verbose)
    ctx.check(np.ndim(res) == 0, "a cost must be a scalar", res=res)
    ctx.check(
        verbose or not out.getvalue(), "a silent cost printed", out=out.getvalue()
    )
    return float(np.real(res))


def same(ctx, got, want, what, x):
    tol = 1e-10 if eps_of(np.asarray(x)) < 1e-10 else 3e-5
    ctx.close(got, want, what, rtol=tol, atol=1e-300)


def linop(rng, n, cplx=False):
    kind = rng.integers(4)
    if kind == 0:
        return lin.Identity(), np.eye(n)
    m = int(rng.integers(1, 8))
    a = rng.standard_normal((m, n))
    if kind == 3:
        a = a + 1j * rng.standard_normal((m, n))
    if kind == 1:
        return lin.LinearParent(lambda v: a @ v, lambda v: a.T @ v), a
    return lin.MatrixOperator(a), a


def regularisers(ctx, rng, i):
    n = dims(rng, 1, 8, 1)[0]
    x = array(rng, (n,), dtype=pick(rng, *DT))
    op, a = linop(rng, n)
    ax = a @ np.array(x)
    w = pick(rng, float(rng.uniform(0, 3)), np.abs(rng.standard_normal(a.shape[0])))
    w2 = pick(rng, float(rng.uniform(0, 3)), np.abs(rng.standard_normal(a.shape[0])))
    vb = pick(rng, None, False, True)
    ctx.info(x=np.array(x), weights=w, verbose=vb)
    typ = pick(rng, "soft", "hard")
    same(ctx, val(ctx, px.SparseThreshold(op, w, thresh_type=typ).cost, x, verbose=vb),
         np.sum(w * np.abs(ax)), "SparseThreshold cost", x)
    same(ctx, val(ctx, px.Ridge(op, w).cost, x, verbose=vb),
         np.sum(w * np.abs(ax) ** 2), "Ridge cost", x)
    same(ctx, val(ctx, px.ElasticNet(op, w, w2).cost, x, verbose=vb),
         np.sum(w * np.abs(ax) ** 2 + w2 * np.abs(ax)), "ElasticNet cost", x)
    ctx.check(val(ctx, px.Positivity().cost, x, verbose=vb) == 0, "Positivity cost")
    ctx.check(val(ctx, px.IdentityProx().cost, x, verbose=vb) == 0, "IdentityProx cost")
    inner = px.SparseThreshold(lin.Identity(), w)
    comp = px.LinearCompositionProx(op, inner)
    same(ctx, val(ctx, comp.cost, x), np.sum(w * np.abs(ax)), "composition cost", x)
    if np.any(ax):
        ctx.seen("reg", sig(np.array(x), a))
    ctx.sample()


def stacks(ctx, rng, i):
    shape = (int(rng.integers(1, 6)), *shape_nd(rng, ndim=2, hi=5))
    x = array(rng, shape, dtype=pick(rng, *DT))
    t = float(rng.uniform(0, 3))
    vb = pick(rng, None, True)
    rank = pick(rng, None, 2)
    low = px.LowRankMatrix(t, thresh_type=pick(rng, "soft", "hard"), initial_rank=rank)
    same(ctx, val(ctx, low.cost, x, verbose=vb),
         t * refs.nuclear(np.array(x).reshape(shape[0], -1)), "LowRankMatrix cost", x)
    w = pick(rng, t, np.abs(rng.standard_normal(shape[1:])))
    nrm = np.sqrt(np.sum(np.abs(np.array(x)) ** 2, axis=0))
    same(ctx, val(ctx, px.GroupLASSO(w).cost, x), np.sum(w * nrm), "GroupLASSO cost", x)
    parts = [array(rng, shape_nd(rng, hi=4), scale=1.0) for _ in range(dims(rng, 1, 4, 1, 60)[0])]
    ops, tot = [], 0.0
    shared = px.SparseThreshold(lin.Identity(), t) if rng.random() < 0.3 else None
    for p in parts:
        w = np.abs(rng.standard_normal(p.shape))
        if shared is not None and rng.random() < 0.6:  # one operator for several parts
            ops.append(shared)
            tot += np.sum(t * np.abs(p))
        elif rng.random() < 0.5:
            ops.append(px.SparseThreshold(lin.Identity(), w))
            tot += np.sum(w * np.abs(p))
        else:
            ops.append(px.Ridge(lin.Identity(), w))
            tot += np.sum(w * p**2)
    same(ctx, val(ctx, px.ProximityCombo(ops).cost, parts), tot, "combined cost", 1.0)
    ctx.seen("stack", sig(np.array(x)))


def owl(ctx, rng, i):
    n = dims(rng, 1, 11, 1, 1200)[0]
    shape = pick(rng, (n,), (n,), (1, n), (n, 2))
    n = int(np.prod(shape))
    x = array(rng, shape, dtype=pick(rng, float, complex))
    w = np.sort(np.abs(rng.standard_normal(n)))[::-1].copy()
    got = val(ctx, px.OrderedWeightedL1Norm(w).cost, x, verbose=pick(rng, None, True))
    want = refs.owl_norm(x, w)
    ctx.obs("value comparisons")
    if abs(got - want) <= 1e-10 * max(want, 1e-300):
        ctx.seen("owl", sig(np.array(x)))
        return
    rev = float(np.sum(np.sort(np.abs(np.ravel(x))) * w))
    ctx.info(x=np.array(x), weights=w)
    if abs(got - rev) <= 1e-10 * max(rev, 1e-300):
        ctx.finding(
            "owl-cost-ascending",
            f"OWL cost pairs the largest weight with the smallest entry "
            f"({got} instead of {want})",
        )
        ctx.seen("owl", sig(np.array(x)))
        return
    ctx.fail(f"OWL cost: {got} instead of {want}")


def _listed_ksup(z, k, beta):
    """Value given by the defect recorded as known finding (see DESIGN.md)."""
    first, last, found, cnt = 0, k - 1, False, 0
    q = (first + last) // 2
    if z.sum() / k >= z[0]:
        found, q = True, 0
    elif z[k - 1 :].sum() <= z[k - 1]:
        found, q = True, k - 1
    while not found and cnt != k and first <= last < k:
        q = (first + last) // 2
        cnt += 1
        mean = z[q:].sum() / (k - q)
        if z[q + 1] <= mean <= z[q]:
            found = True
        else:
            if z[q] <= mean:
                last = q
            if mean <= z[q + 1]:
                first = q
    return (np.sum(z[:q] ** 2) * 0.5 + np.sum(z[q:]) ** 2 / (k - q)) * beta


def ksup(ctx, rng, i):
    n = dims(rng, 1, 11, 1, 1200)[0]
    shape = pick(rng, (n,), shape_nd(rng, ndim=2, hi=4))
    x = array(rng, shape)
    k = int(rng.integers(1, int(np.prod(shape)) + 1))
    beta = float(rng.uniform(0.1, 4))
    ctx.info(x=np.array(x), k=k, beta=beta)
    got = val(ctx, px.KSupportNorm(beta, k).cost, x, verbose=pick(rng, None, True))
    sq = refs.ksup_sq(x, k)
    ctx.obs("value comparisons")
    ctx.seen("ksup", k, sig(np.array(x)))
    # The documentation leaves the factor 1/2 open: both are accepted.
    if any(abs(got - c) <= 1e-10 * max(c, 1e-300) for c in (beta * sq, beta * sq / 2)):
        return
    listed = _listed_ksup(np.sort(np.abs(np.ravel(x)))[::-1], k, beta)
    if abs(got - listed) <= 1e-10 * max(listed, 1e-300):
        ctx.finding(
            "ksupport-cost",
            f"k-support cost is {got}, beta/2 * norm^2 is {beta * sq / 2}",
        )
        return
    ctx.fail(f"k-support cost: {got}; beta/2 * norm^2 is {beta * sq / 2}")


class Part:
    """Operator with a recorded cost."""

    def __init__(self, value):
        self.value, self.calls = value, []

    def cost(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.value


def fidelity(ctx, rng, i):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    cplx = rng.random() < 0.3
    h = rng.standard_normal((m, n)) + (1j * rng.standard_normal((m, n)) if cplx else 0)
    y = array(rng, (m,), dtype=complex if cplx else float, scale=pick(rng, 1.0, 1e3))
    x = array(rng, (n,), dtype=complex if cplx else float, scale=pick(rng, 1.0, 1e3))
    y0 = np.array(y)
    g = GradBasic(y, lambda v: h @ v, lambda v: h.conj().T @ v, verbose=False)
    want = 0.5 * refs.norm2(h @ np.array(x) - y0) ** 2
    same(ctx, val(ctx, g.cost, x, verbose=pick(rng, None, True)), want, "data fidelity", x)
    # 2D data as well
    y2 = rng.standard_normal((m, 3))
    g2 = GradBasic(y2, lambda v: 2.0 * v, lambda v: 2.0 * v, verbose=False)
    x2 = rng.standard_normal((m, 3))
    same(ctx, val(ctx, g2.cost, x2), 0.5 * np.sum((2 * x2 - y2) ** 2), "2D fidelity", x2)
    w = np.abs(rng.standard_normal(n))
    sp = px.SparseThreshold(lin.Identity(), w)
    co = mcost.costObj([g, sp], verbose=False)
    co.get_cost(x)
    same(ctx, co.cost, want + np.sum(w * np.abs(np.array(x))), "total cost", x)
    ctx.seen("fid", sig(h, y0))


def totals(ctx, rng, i):
    n_ops = dims(rng, 1, 6, 1, 60)[0]
    parts = [Part(float(rng.standard_normal() * 10.0 ** rng.integers(-3, 4)))
             for _ in range(n_ops)]
    twice = rng.random() < 0.3
    if twice:  # the same operator may appear several times
        parts = [parts[j] for j in rng.integers(0, n_ops, n_ops + 1)]
        n_ops += 1
    seq = pick(rng, list, tuple, lambda p: np.array(p, dtype=object))(parts)
    co = mcost.costObj(seq, verbose=False)
    args = tuple(rng.standard_normal(3) for _ in range(rng.integers(1, 3)))
    for step in range(3):
        for p in parts:
            p.value = float(rng.standard_normal())
            p.calls.clear()
        extra = pick(rng, {}, {}, {"level": step, "weights": args[0]})
        with quiet():
            co.get_cost(*args, **extra)
        want = sum(p.value for p in parts)
        ctx.close(co.cost, want, "total cost is the sum of the parts", rtol=1e-9,
                  scale=max(abs(p.value) for p in parts) * n_ops)
        for p in parts:
            ctx.check(len(p.calls) == parts.count(p), "each part is evaluated exactly once")
            ctx.check(
                all(a is b for a, b in zip(p.calls[0][0], args))
                and len(p.calls[0][0]) == len(args),
                "each part sees the variables it is given",
            )
            ctx.check(all(p.calls[0][1].get(k) is extra[k] for k in extra),
                      "each part sees the keyword arguments it is given",
                      given=sorted(extra), seen=sorted(p.calls[0][1]))
    ident = lin.Identity()
    x = array(rng, shape_nd(rng))
    ctx.check(ident.cost(x) == 0 and ident.cost(x, verbose=False) == 0,
              "the identity operator costs nothing")
    base_cost = float(rng.standard_normal())
    both = mcost.costObj([Part(base_cost), lin.Identity()], verbose=False)
    with quiet():
        both.get_cost(x)
    ctx.close(both.cost, base_cost, "total cost with the identity operator", rtol=1e-12)
    ctx.seen("tot", n_ops, len(args), round(want, 9))


def admm(ctx, rng, i):
    n, m, k = dims(rng, 1, 5, 3, 4000)
    a, b_ = rng.standard_normal((k, n)), rng.standard_normal((k, m))
    b = rng.standard_normal(k)
    tau = float(rng.uniform(0.1, 5))
    size = float(pick(rng, 1.0, 1.0, 1e9, 1e-9))
    f = lambda u: size * float(np.sum(np.abs(u)))  # noqa: E731
    g = lambda v: size * float(np.sum(v**2))  # noqa: E731
    tau = tau * pick(rng, 1.0, size)
    co = ADMMcostObj((f, g), lin.MatrixOperator(a), lin.MatrixOperator(b_), b, tau,
                     verbose=False, tolerance=float(rng.uniform(0, 1)))
    u, v = rng.standard_normal(n), rng.standard_normal(m)
    with quiet() as (out, _):
        co.get_cost(u, v)
    ctx.check(not out.getvalue(), "verbose=False is honoured by the ADMM cost")
    want = f(u) + g(v) + tau * refs.norm2(a @ u + b_ @ v - b) ** 2
    same(ctx, co.cost, want, "ADMM cost", u)
    ctx.seen("admm", sig(a, b))


SECTIONS = [
    Section("regularisers", regularisers, 800, 10000),
    Section("stacks", stacks, 400, 5000),
    Section("owl", owl, 300, 3000),
    Section("ksup", ksup, 600, 8000),
    Section("fidelity", fidelity, 300, 3000),
    Section("totals", totals, 300, 3000),
    Section("admm", admm, 200, 2000),
]
