"""C11: ADMM alternates the two sub-problems as documented."""

import numpy as np
import refs
from core import Section
from gens import pick, shape_nd, span
from modopt.opt import linear as lin
from modopt.opt.algorithms import ADMM, FastADMM
from optkit import Recorder
from util import frozen, quiet

RULE = (
    "A case is one (fast) ADMM run with random operators, constraint, coupling and "
    "recording optimisers; every call of an optimiser (order, starting point, "
    "observation), every metric row, the costs and the stopping iteration are checked "
    "against the algorithm.  Non-trivial: two or more iterations."
)
ASSUMPTIONS = [
    "observations handed to the optimisers: B v + mu - b and A u + mu - b (the known "
    "findings replace mu by the previous u, and affect the acceleration)",
]


def linear_op(rng, n, cplx):
    kind = rng.integers(3)
    if kind == 0:
        return lin.Identity(), np.eye(n)
    if kind == 1:
        mat = np.diag(rng.uniform(-1.2, 1.2, n))
    else:
        mat = rng.standard_normal((n, n)) / np.sqrt(n)
        if cplx:
            mat = mat + 1j * rng.standard_normal((n, n)) / np.sqrt(n)
    return (
        lin.LinearParent(lambda v: np.tensordot(mat, v, axes=1),
                         lambda v: np.tensordot(mat.conj().T, v, axes=1)),
        mat,
    )


class Optimiser:
    """u = a * obs + c * init + d, recording every call.

    An optimiser may build its result in one buffer that it keeps between calls.
    """

    def __init__(self, rng, rnd, shape, tag, log, in_place):
        self.a, self.c = rng.uniform(-0.4, 0.4, 2)
        self.d = rnd(*shape)
        self.tag, self.log = tag, log
        self.buffer = np.zeros_like(self.d) if in_place else None
        self.clobbered = False

    def __call__(self, init, obs):
        init0, obs0 = np.array(init), np.array(obs)
        want = self.a * obs0 + self.c * init0 + self.d
        if self.buffer is None:
            res = want
        else:
            res = self.buffer
            res[...] = self.d
            self.clobbered |= not (
                np.array_equal(init, init0) and np.array_equal(obs, obs0))
            res += want - self.d
        self.log.append((self.tag, init0, obs0, res.copy()))
        return res


def near(a, b, size):
    return np.shape(a) == np.shape(b) and bool(
        np.max(np.abs(np.asarray(a) - b), initial=0.0) <= 1e-8 * size)


def run(ctx, rng, i):
    fast = i % 2 == 1
    cls = FastADMM if fast else ADMM
    cplx = rng.random() < 0.2
    shape = shape_nd(rng, ndim=int(pick(rng, 1, 1, 2, 3)), lo=1, hi=6, top=400)

    def rnd(*s):
        v = rng.standard_normal(s)
        return v + 1j * rng.standard_normal(s) if cplx else v

    a_op, a_mat = linear_op(rng, shape[0], cplx)
    b_op, b_mat = linear_op(rng, shape[0], cplx)
    mul_a = lambda v: np.tensordot(a_mat, v, axes=1)  # noqa: E731
    mul_b = lambda v: np.tensordot(b_mat, v, axes=1)  # noqa: E731
    u0, v0, mu0, b = rnd(*shape), rnd(*shape), rnd(*shape), rnd(*shape)
    log, costs = [], []
    reuse = bool(rng.random() < 0.35)
    opts = (Optimiser(rng, rnd, shape, "u", log, reuse),
            Optimiser(rng, rnd, shape, "v", log, reuse))
    n = span(rng, 1, 12, 200)
    kw = {}
    tau = 1.0
    if rng.random() < 0.6:
        tau = float(rng.uniform(0.1, 3))
        kw["tau"] = tau
    alpha = 1.0
    if fast and rng.random() < 0.4:
        alpha = float(rng.uniform(0.5, 2))
        kw["alpha"] = alpha
    with_cost = rng.random() < 0.5
    pu, pv = float(rng.uniform(0.1, 2)), float(rng.uniform(0.1, 2))
    if with_cost:
        const = float(pick(rng, 0.0, 0.0, 1e7))

        def f(u):
            costs.append(["u", np.array(u)])
            return pu * refs.norm2(u) ** 2 + const

        def g(v):
            costs.append(["v", np.array(v)])
            return pv * float(np.sum(np.abs(v)))

        kw["cost_funcs"] = (f, g)
    rec = Recorder("x_new", "v_new", "idx")
    ctx.info(cls=cls.__name__, shape=shape, n_iter=n, tau=tau, alpha=alpha,
             cost=with_cost)
    with quiet():
        solver = cls(frozen(u0), frozen(v0), frozen(mu0), a_op, b_op, frozen(b),
                     opts, metrics=rec.metrics(), metric_call_period=1,
                     progress=False, **kw)
        solver.iterate(max_iter=n)
    ctx.check(not any(o.clobbered for o in opts),
              "the starting point handed to an optimiser is its own earlier result array")
    # -- the recorded trace against the algorithm
    u, v, mu = u0, v0, mu0
    v_hat, mu_hat = v0, mu0  # documented (Goldstein alg. 8)
    k_hat = v0  # as in the known finding
    al, c_old = alpha, np.inf
    total, stop = [], n
    k = 0
    ambiguous = False
    while 2 * k + 1 < len(log) + 1 and 2 * k < len(log):
        size = 1 + max(float(np.max(np.abs(e[2]))) for e in log[2 * k:2 * k + 2])
        size += float(np.max(np.abs(k_hat)))
        tag, init, obs, u_new = log[2 * k]
        ctx.check(tag == "u", f"iteration {k} does not start with the first optimiser")
        ctx.check(near(init, u, size), f"first optimiser not started from u, it. {k}")
        good = mul_b(v_hat if fast else v) + (mu_hat if fast else mu) - b
        known = mul_b(k_hat if fast else v) + u - b
        if near(obs, good, size):
            ctx.obs("observations as documented")
        elif near(obs, known, size):
            ctx.finding("admm-multiplier", f"obs of u at iteration {k} uses u, not mu")
        else:
            ctx.fail(f"observation of the first optimiser at iteration {k}", got=obs,
                     documented=good, known=known)
        ctx.check(2 * k + 1 < len(log), f"second optimiser not called at iteration {k}")
        tag, init, obs, v_new = log[2 * k + 1]
        ctx.check(tag == "v", f"iteration {k} calls the first optimiser twice")
        starts = (v, v_hat, k_hat) if fast else (v,)
        ctx.check(any(near(init, s, size) for s in starts),
                  f"second optimiser not started from v, iteration {k}")
        good = mul_a(u_new) + (mu_hat if fast else mu) - b
        known = mul_a(u_new) + u - b
        if near(obs, good, size):
            ctx.obs("observations as documented")
        elif near(obs, known, size):
            ctx.finding("admm-multiplier", f"obs of v at iteration {k} uses u, not mu")
        else:
            ctx.fail(f"observation of the second optimiser at iteration {k}", got=obs,
                     documented=good, known=known)
        # multiplier, acceleration
        gap = mul_a(u_new) + mul_b(v_new) - b
        if fast:
            mu_new = mu_hat + gap
            c_new = refs.norm2(mu_new - mu_hat) + tau * refs.norm2(mul_b(v_new - v_hat))
            if c_new < 0.999 * c_old:
                al_new = (1 + np.sqrt(1 + 4 * al**2)) / 2
                w = (al - 1) / al_new
                v_hat = v_new + w * (v_new - v)
                mu_hat = mu_new + w * (mu_new - mu)
                al, c_old = al_new, c_new
            else:
                al, v_hat, mu_hat, c_old = 1.0, v, mu, c_old / 0.999
            k_hat = v_new + (v_new - v) * np.sqrt(1 + 4 * alpha**2) / alpha
        else:
            mu_new = mu + gap
        u, v, mu = u_new, v_new, mu_new
        row = rec.rows[k]
        ctx.check(int(row["idx"]) == k, "idx of the metric")
        ctx.close(row["x_new"], u, f"metric x_new, iteration {k}", rtol=1e-12)
        ctx.close(row["v_new"], v, f"metric v_new, iteration {k}", rtol=1e-12)
        if with_cost:
            total.append(pu * refs.norm2(u) ** 2 + const + pv * float(np.sum(np.abs(v)))
                         + tau * refs.norm2(gap) ** 2)
            ctx.check(len(costs) >= 2 * k + 2, "cost not evaluated at every iteration")
            if len(total) % 4 == 0:
                t1, t2 = np.mean(total[-2:]), np.mean(total[-4:-2])
                diff = abs(t1 - t2) / abs(t1)
                if abs(diff - 1e-4) < 1e-9:
                    ambiguous = True
                if diff <= 1e-4 and stop == n:
                    stop = k + 1
        k += 1
        ctx.obs("iterations compared")
    if not ambiguous:
        ctx.check(k == stop, f"{k} iterations, expected {stop}")
        ctx.check(len(log) == 2 * stop, f"{len(log)} optimiser calls in {stop} iterations")
    ctx.close(solver.u_final, u, "u_final", rtol=1e-12)
    ctx.close(solver.x_final, u, "x_final", rtol=1e-12)
    ctx.close(solver.v_final, v, "v_final", rtol=1e-12)
    if k >= 2:
        ctx.seen(cls.__name__, i, shape, tau, with_cost)
    ctx.sample(iterations=k, stop=stop)


def acceleration(ctx, rng, i):
    """Fast ADMM: the extrapolated v used as starting point of the second problem."""
    n = int(rng.integers(2, 6))
    starts = []
    d = rng.standard_normal(n)

    def opt_u(init, obs):
        return 0.1 * obs + d

    def opt_v(init, obs):
        starts.append(np.array(init))
        vs.append(0.2 * obs - d)
        return vs[-1]

    v0 = rng.standard_normal(n)
    vs = [v0]
    with quiet():
        s = FastADMM(rng.standard_normal(n), v0, np.zeros(n), lin.Identity(),
                     lin.Identity(), rng.standard_normal(n), (opt_u, opt_v),
                     progress=False)
        s.iterate(max_iter=2)
    ctx.close(starts[0], v0, "first starting point", rtol=1e-12)
    good = vs[1]  # first weight is (alpha - 1) / alpha_1 = 0
    known = vs[1] + np.sqrt(5) * (vs[1] - v0)
    size = 1 + np.max(np.abs(known))
    if near(starts[1], good, size):
        ctx.obs("accelerations as documented")
    elif near(starts[1], known, size):
        ctx.finding("fastadmm-acceleration",
                    "weight sqrt(1+4a^2)/a instead of (a_k - 1)/a_{k+1}")
    else:
        ctx.fail("extrapolated v", got=starts[1], documented=good, known=known)
    ctx.seen("acc", i)


SECTIONS = [
    Section("run", run, 800, 10000),
    Section("acceleration", acceleration, 60, 300),
]
