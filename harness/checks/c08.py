"""C08: the proximal solvers reach the minimiser of the stated problem."""

import numpy as np
import refs
from checks.c09 import fista_options
from core import Section
from gens import pick, shape_nd
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt.cost import costObj
from optkit import Problem, Reg, converge_ref, regulariser
from util import mute

RULE = (
    "A case is one strongly convex problem with admissible step sizes, solved by one "
    "of the solvers from a random start and judged, at the end, against the optimality "
    "conditions (fixed point of an independent proximal-gradient step; for primal-dual "
    "the saddle-point conditions; for several regularisers the residual of their sum) "
    "and against a reference minimiser.  Non-trivial: start and minimiser differ."
)
ASSUMPTIONS = [
    "steps within the convergence range of the cited papers; Lipschitz constant known",
    "condition number below 20; 'converged' is judged at 1e-5 relative",
    "solvers without a linear rate get up to 200000 iterations before a verdict",
]
BUDGETS = (2500, 25000, 200000)


def problem(rng, cplx=None):
    shape = shape_nd(rng, ndim=int(pick(rng, 1, 1, 2)), lo=2, hi=7, top=100)
    cplx = rng.random() < 0.2 if cplx is None else cplx
    hi = float(rng.uniform(0.7, 2))
    return Problem(rng, shape, cplx, lo=0.3 * hi, hi=hi, extra=int(rng.integers(0, 4)))


def optimal(ctx, prob, reg, x, what, tol=1e-5):
    """x is a fixed point of the reference proximal-gradient step."""
    step = 1.0 / prob.lip
    res = reg.prox(x - step * prob.ref_grad(x), step) - x
    size = 1.0 + refs.norm2(x)
    ctx.check(refs.norm2(res) <= tol * size,
              f"{what}: optimality residual {refs.norm2(res) / size:.2e}", x=x)
    best = converge_ref(prob, reg)
    ctx.close(x, best, f"{what}: minimiser", rtol=30 * tol, scale=size)


def forward_backward(ctx, rng, i):
    prob = problem(rng)
    reg = regulariser(rng, prob.shape, prob.cplx)
    kw = {}
    kind = pick(rng, "fista", "fista", "plain", "relaxed")
    if kind == "fista":
        kw = fista_options(rng, prob.lip)
        beta = 1.0 / prob.lip
        if kw.get("restart_strategy") == "greedy":
            kw["min_beta"] = 1.0 / prob.lip
            beta = float(rng.uniform(1.0, 1.3)) / prob.lip
        else:
            beta *= float(rng.uniform(0.6, 1))
    elif kind == "plain":
        beta = float(rng.uniform(0.4, 1.8)) / prob.lip
        kw["lambda_update"] = None
    else:
        beta = float(rng.uniform(0.5, 1.0)) / prob.lip
        lam = float(rng.uniform(0.5, 1.3))
        kw.update(lambda_update=lambda v: lam, lambda_param=lam)
    x0 = prob.x0() * 3
    grad = prob.grad()
    ctx.info(shape=prob.shape, reg=reg.name, kind=kind, beta=beta * prob.lip, **kw)
    log = []

    class Watch(costObj):
        """Cost of every iterate, without any influence on the run."""

        def get_cost(self, x):
            log.append(prob.value(x) + reg.val(x))
            return False

    solver = mute(alg.ForwardBackward, x0.copy(), grad, reg.obj, beta_param=beta,
                  cost=Watch([grad], verbose=False), auto_iterate=False,
                  progress=False, **kw)
    mute(solver.iterate, max_iter=1200)
    if kind == "plain" and beta * prob.lip <= 1 and reg.name not in ("pos", "box"):
        drop = np.diff(log)
        ctx.check(np.all(drop <= 1e-9 * (1 + np.abs(log[0]))),
                  f"the objective increased by {drop.max():.2e} without acceleration")
        ctx.obs("descent steps judged", len(drop))
    optimal(ctx, prob, reg, solver.x_final, f"forward-backward ({kind})")
    ctx.seen("fb", i, kind, reg.name, prob.shape)
    ctx.sample(final_cost=log[-1], first_cost=log[0])


def default_cost(ctx, rng, i):
    """With the automatic cost the run stops early, close to the minimum."""
    prob = problem(rng, cplx=False)
    reg = regulariser(rng, prob.shape, False, kinds=("l1", "l1w", "ridge"))
    grad = prob.grad()
    beta = 1.0 / prob.lip
    x0 = prob.x0()
    best = converge_ref(prob, reg)
    f_best = prob.value(best) + reg.val(best)
    name = pick(rng, "fb", "gfb", "pogm")
    ctx.info(name=name, reg=reg.name, shape=prob.shape)
    if name == "fb":
        s = mute(alg.ForwardBackward, x0, grad, reg.obj, beta_param=beta, progress=False)
    elif name == "gfb":
        s = mute(alg.GenForwardBackward, x0, grad, [reg.obj], gamma_param=beta,
                 progress=False)
    else:
        s = mute(alg.POGM, x0.copy(), x0.copy(), x0.copy(), x0.copy(), grad, reg.obj,
                 beta_param=beta, progress=False)
    f_end = prob.value(s.x_final) + reg.val(s.x_final)
    f_0 = prob.value(x0) + reg.val(x0)
    ctx.check(f_end - f_best <= 0.02 * (f_0 - f_best) + 1e-2 * abs(f_best) + 1e-9,
              f"{name} stopped at {f_end}, minimum {f_best}, start {f_0}")
    ctx.check(f_end >= f_best - 1e-6 * (1 + abs(f_best)), "below the minimum")
    ctx.seen("auto", i, name, reg.name)


def generalised(ctx, rng, i):
    prob = problem(rng)
    # sums whose exact prox is known, given as separate regularisers
    kind = pick(rng, "l1+ridge", "l1+pos", "ridge+ridge", "three")
    if prob.cplx:
        kind = pick(rng, "l1+ridge", "ridge+ridge")
    mk = lambda k: regulariser(rng, prob.shape, prob.cplx, kinds=(k,))  # noqa: E731
    regs = [mk(k) for k in {"l1+ridge": ("l1w", "ridge"), "l1+pos": ("l1", "pos"),
                            "ridge+ridge": ("ridge", "ridge"),
                            "three": ("l1", "ridge", "pos")}[kind]]

    def sum_prox(v, t):  # valid compositions for these separable pairs
        for r in sorted(regs, key=lambda r: {"l1": 0, "l1w": 0, "pos": 1, "ridge": 2}[
                r.name]):
            if r.name != "ridge":
                v = r.prox(v, t)
        den = 1.0
        for r in regs:
            if r.name == "ridge":
                den += 1.0 / float(np.real(r.prox(np.ones(1), t)[0])) - 1.0
        return v / den

    total = Reg(None, sum_prox, lambda v: sum(r.val(v) for r in regs), kind)
    if kind == "l1+pos":
        w = float(np.real(-regs[0].prox(np.array([10.0]), 1.0)[0]) + 10)
        total.prox = lambda v, t: np.maximum(v - w * t, 0)
    if kind == "three":
        w = float(10 - regs[0].prox(np.array([10.0]), 1.0)[0])
        a = float(1 / regs[1].prox(np.ones(1), 1.0)[0] - 1)
        total.prox = lambda v, t: np.maximum(v - w * t, 0) / (1 + a * t)
    gamma = float(rng.uniform(0.6, 1.5)) / prob.lip
    lam = float(rng.uniform(0.6, 1.0))
    kw = {}
    if rng.random() < 0.5:
        w_ = rng.uniform(0.5, 1, len(regs))
        kw["weights"] = (w_ / w_.sum()).tolist()
    grad = prob.grad()
    ctx.info(shape=prob.shape, kind=kind, gamma=gamma * prob.lip, lam=lam, **kw)
    x0 = prob.x0() * 2
    step = 1.0 / prob.lip
    left = np.inf
    for budget in BUDGETS:
        solver = mute(alg.GenForwardBackward, x0.copy(), grad, [r.obj for r in regs],
                      cost=None, gamma_param=gamma, lambda_param=lam,
                      auto_iterate=False, progress=False, **kw)
        mute(solver.iterate, max_iter=budget)
        x = solver.x_final
        res = total.prox(x - step * prob.ref_grad(x), step) - x
        last, left = left, refs.norm2(res)
        if left <= 1e-6 * (1 + refs.norm2(x)) or left > 0.9 * last:
            break  # arrived, or going nowhere
        ctx.obs("slow runs given more iterations")
    optimal(ctx, prob, total, solver.x_final, "generalised forward-backward")
    ctx.seen("gfb", i, kind, prob.shape)
    ctx.sample()


def pogm(ctx, rng, i):
    prob = problem(rng)
    reg = regulariser(rng, prob.shape, prob.cplx)
    x0 = prob.x0() * 2
    sbar = float(pick(rng, 1.0, 0.96, 0.5))
    beta = float(rng.uniform(0.6, 1.0)) / prob.lip
    grad = prob.grad()
    ctx.info(shape=prob.shape, reg=reg.name, sigma_bar=sbar, beta=beta * prob.lip)
    solver = mute(alg.POGM, x0.copy(), x0.copy(), x0.copy(), x0.copy(), grad, reg.obj,
                  cost=None, beta_param=beta, sigma_bar=sbar, auto_iterate=False,
                  progress=False)
    mute(solver.iterate, max_iter=800)
    optimal(ctx, prob, reg, solver.x_final, "POGM")
    ctx.seen("pogm", i, reg.name, prob.shape)
    ctx.sample()


def condat(ctx, rng, i):
    prob = problem(rng)
    cplx = prob.cplx
    p = int(rng.integers(1, 8))
    lmat = prob.rnd(p, prob.shape[0])
    nl = float(np.linalg.norm(lmat, 2))
    lmat = lmat / nl
    lop = lin.LinearParent(lambda v: np.tensordot(lmat, v, axes=1),
                           lambda v: np.tensordot(lmat.conj().T, v, axes=1))
    yshape = (p, *prob.shape[1:])
    kinds = ("none", "l1", "l1w", "ridge", "elastic")
    rp = regulariser(rng, prob.shape, cplx, kinds=kinds if cplx else (*kinds, "pos", "pos"))
    rd = regulariser(rng, yshape, cplx, kinds=("l1", "l1w", "elastic", "ridge"))
    sigma = float(rng.uniform(0.4, 1.5))
    tau = float(rng.uniform(0.7, 1.0)) / (prob.lip / 2 + sigma)
    rho = float(rng.uniform(0.5, 1.0))
    grad = prob.grad()
    ctx.info(shape=prob.shape, prox=rp.name, dual=rd.name, sigma=sigma, tau=tau, rho=rho)
    x0, y0 = prob.x0(), prob.rnd(*yshape)
    left = np.inf
    for budget in BUDGETS:
        solver = mute(alg.Condat, x0.copy(), y0.copy(), grad, rp.obj, rd.obj,
                      linear=lop, cost=None, rho=rho, sigma=sigma, tau=tau,
                      max_iter=budget, progress=False)
        x, y = solver.x_final, solver.y_final
        size = 1 + refs.norm2(x) + refs.norm2(y)
        r1 = rp.prox(x - prob.ref_grad(x) - np.tensordot(lmat.conj().T, y, axes=1),
                     1.0) - x
        lx = np.tensordot(lmat, x, axes=1)
        r2 = rd.prox(lx + y, 1.0) - lx
        last, left = left, max(refs.norm2(r1), refs.norm2(r2))
        if left <= 1e-5 * size or left > 0.9 * last:
            break  # arrived, or going nowhere
        ctx.obs("slow runs given more iterations")
    ctx.check(refs.norm2(r1) <= 1e-5 * size,
              f"Condat: primal optimality residual {refs.norm2(r1) / size:.2e}", x=x)
    ctx.check(refs.norm2(r2) <= 1e-5 * size,
              f"Condat: dual optimality residual {refs.norm2(r2) / size:.2e}", y=y)
    ctx.seen("condat", i, rp.name, rd.name, prob.shape)
    ctx.sample(primal=refs.norm2(r1), dual=refs.norm2(r2))


def descent(ctx, rng, i):
    """Plain gradient descent with a prox at each epoch of one iteration."""
    prob = problem(rng)
    reg = regulariser(rng, prob.shape, prob.cplx)
    eta = float(rng.uniform(0.5, 1.5)) / prob.lip
    cls = pick(rng, alg.VanillaGenericGradOpt, alg.MomentumGradOpt)
    grad = prob.grad()
    ctx.info(shape=prob.shape, reg=reg.name, eta=eta * prob.lip, cls=cls.__name__)
    solver = mute(cls, prob.x0(), grad, reg.obj, None, eta=eta, progress=False)
    mute(solver.iterate, max_iter=1500)
    optimal(ctx, prob, reg, solver.x_final, cls.__name__)
    ctx.seen("gd", i, reg.name, cls.__name__)


SECTIONS = [
    Section("forward-backward", forward_backward, 80, 1500),
    Section("default-cost", default_cost, 40, 500),
    Section("generalised", generalised, 40, 600),
    Section("pogm", pogm, 60, 800),
    Section("condat", condat, 40, 600),
    Section("descent", descent, 40, 400),
]
