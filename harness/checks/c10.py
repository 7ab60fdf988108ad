"""C10: gradient-descent iterates follow their documented update rules."""

import numpy as np
from core import Section
from gens import pick, shape_nd, span
from modopt.opt import algorithms as alg
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradParent
from optkit import Problem, Recorder, any_scale, regulariser, scaled_regulariser
from util import mute

RULE = (
    "A case is one run of one descent scheme (plain, vanilla, AdaGrad, RMSprop, "
    "momentum, ADAM, SAGA) with random rates, epoch size, step schedule and "
    "regulariser, on fixed or per-iteration (stochastic) data; estimate, direction "
    "and speed seen by a metric after every iteration are compared to the update "
    "rule.  Non-trivial: 3 or more iterations and a moving estimate."
)
ASSUMPTIONS = [
    "step = eta / (sqrt(s) + epsilon); the proximal step and the reset of the "
    "momentum happen at iterations whose index is a multiple of the epoch size",
]
NAMES = ("generic", "vanilla", "ada", "rms", "momentum", "adam", "saga")
CLS = {
    "generic": "GenericGradOpt", "vanilla": "VanillaGenericGradOpt",
    "ada": "AdaGenericGradOpt", "rms": "RMSpropGradOpt",
    "momentum": "MomentumGradOpt", "adam": "ADAMGradOpt", "saga": "SAGAOptGradOpt",
}


class Batches:
    """A gradient whose data change at every evaluation (as SAGA expects)."""

    def __init__(self, prob, rng, n):
        self.ys = [prob.rnd(*prob.y.shape) * prob.scale for _ in range(n)] if n > 1 else [prob.y]
        self.prob, self.calls = prob, 0

    def at(self, k, x):
        mat = self.prob.mat
        res = np.tensordot(mat, x, axes=1) - self.ys[k % len(self.ys)]
        return np.tensordot(mat.conj().T, res, axes=1)

    def op(self, x):
        res = self.at(self.calls, x)
        self.calls += 1
        return res

    def obj(self):
        ident = lambda v: v  # noqa: E731
        return GradParent(self.prob.y, ident, ident, get_grad=None,
                          cost=lambda *a, **k: 0.0, verbose=False)


def run(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    shape = shape_nd(rng, ndim=int(pick(rng, 1, 1, 2, 3)), lo=1, hi=6, top=200)
    cplx = rng.random() < 0.25
    prob = Problem(rng, shape, cplx, lo=0.3, hi=float(rng.uniform(0.7, 1.5)),
                   extra=int(rng.integers(0, 3)), scale=any_scale(rng))
    reg = scaled_regulariser(rng, prob)
    epoch = int(pick(rng, 1, 1, 2, 3, 5))
    n = span(rng, 1, 30, 250)
    if rng.random() < 0.06:  # long epochs
        epoch = int(rng.integers(6, 70))
        n = int(rng.integers(epoch, 3 * epoch + 2))
    n_batch = int(pick(rng, 1, 1, epoch, 3))
    stoch = Batches(prob, rng, n_batch)
    grad = stoch.obj()

    def get_grad(x):
        grad.grad = stoch.op(x)

    grad.get_grad = get_grad
    eps = 1e-6
    kw = {}
    eta = float(rng.uniform(0.05, 0.6)) / prob.lip
    if name in ("generic", "saga"):
        eps = float(pick(rng, 1.0, 0.5, 2.0))
        kw["epsilon"] = eps
        eta *= eps
    elif rng.random() < 0.4:
        eps = float(10.0 ** rng.uniform(-8, -1)) * min(prob.scale, 1.0)
        kw["epsilon"] = eps
    gamma = beta = None
    if name in ("rms", "adam") and rng.random() < 0.8:
        gamma = float(rng.uniform(0.05, 0.98))
        kw["gamma"] = gamma
    if name in ("momentum", "adam") and rng.random() < 0.8:
        beta = float(rng.uniform(0.05, 0.95))
        kw["beta"] = beta
    gamma = gamma if gamma is not None else {"rms": 0.5}.get(name, 0.9)
    beta = beta if beta is not None else 0.9
    up = pick(rng, None, lambda e, k: e / (1 + 0.1 * k), lambda e, k: 0.97 * e)
    parts = [n]
    if n > 1 and epoch == 1 and rng.random() < 0.6:  # several runs of one solver
        cut = int(rng.integers(1, n))
        parts = [cut, n - cut]
        up = pick(rng, None, lambda e, k: 0.97 * e)
    x0 = prob.x0()
    rec = Recorder("x_new", "dir_grad", "speed_grad", "idx")
    cost = None if rng.random() < 0.6 else costObj([grad], tolerance=-1.0, verbose=False)
    ctx.info(scheme=name, shape=shape, reg=reg.name, epoch=epoch, n_iter=n, eta=eta,
             eta_update=up is not None, batches=n_batch, runs=parts, **kw)
    solver = mute(getattr(alg, CLS[name]), x0.copy(), grad, reg.obj, cost, eta=eta,
                  eta_update=up, epoch_size=epoch, metric_call_period=1,
                  metrics=rec.metrics(), progress=False, **kw)
    stoch.calls = 0
    for part in parts:
        mute(solver.iterate, max_iter=part)
    ctx.check(len(rec.rows) == n, f"{len(rec.rows)} iterations instead of {n}")
    ctx.check(stoch.calls == n, f"{stoch.calls} gradients for {n} iterations")

    x = x0.copy()
    m, s = np.zeros_like(x), np.zeros(shape)
    mem = [np.zeros_like(x) for _ in range(epoch)]
    bp = gp = 1.0
    e = eta
    for k in range(n):
        g = stoch.at(k, x)
        if name == "momentum":
            m = beta * m + g
        elif name == "adam":
            bp *= beta
            m = (beta * m + (1 - beta) * g) / (1 - bp)
        elif name == "saga":
            m = m - mem[k % epoch] + g
            mem[k % epoch] = g
        else:
            m = g
        if name == "ada":
            s = s + np.abs(g) ** 2
        elif name == "rms":
            s = gamma * s + (1 - gamma) * np.abs(g) ** 2
        elif name == "adam":
            gp *= gamma
            s = (gamma * s + (1 - gamma) * np.abs(g) ** 2) / (1 - gp)
        step = e if name in ("vanilla", "momentum") else e / (np.sqrt(s) + eps)
        x = x - step * m
        if k % epoch == 0:
            if name == "momentum":
                m = np.zeros_like(x)
            x = reg.prox(x, step)
        e = up(e, k) if up else e
        row = rec.rows[k]
        size = max(prob.scale, float(np.max(np.abs(x))))
        if size > 1e8 * prob.scale:
            break
        ctx.close(row["x_new"], x, f"{name}: estimate after iteration {k}", rtol=1e-9,
                  scale=size)
        ctx.close(row["dir_grad"], m, f"{name}: direction after iteration {k}",
                  rtol=1e-9, scale=max(size, float(np.max(np.abs(m)))))
        want = 1.0 if name in ("vanilla", "momentum") else s
        ctx.close(row["speed_grad"], want, f"{name}: speed after iteration {k}",
                  rtol=1e-9, scale=max(prob.scale**2, float(np.max(np.abs(want)))))
        ctx.check(len(parts) > 1 or int(row["idx"]) == k, f"{name}: idx after iteration {k}")
        ctx.obs("iterations compared")
        # go on from the recorded state: rounding errors may grow in long runs
        x, m = np.array(row["x_new"]), np.array(row["dir_grad"])
        if name not in ("vanilla", "momentum"):
            s = np.array(row["speed_grad"])
    ctx.close(solver.x_final, rec.rows[-1]["x_new"], "x_final", rtol=1e-12)
    if n >= 3 and np.any(x != x0):
        ctx.seen(name, i, shape, reg.name, epoch, n_batch)
    if len(parts) > 1:
        ctx.obs("solvers run twice")
    ctx.sample()


def schedule(ctx, rng, i):
    """The step follows its schedule through long runs, at every epoch size."""
    name = NAMES[i % len(NAMES)]
    n, epoch = int(rng.integers(700, 3000)), int(pick(rng, 1, 2, 7, 40, 500))
    told = []

    def up(e, k):
        told.append((e, k))
        return e * 0.999

    x0 = rng.standard_normal(int(rng.integers(1, 3)))
    ident = lambda v: v  # noqa: E731
    grad = GradParent(x0, ident, ident, get_grad=None, verbose=False)

    def get_grad(x):
        grad.grad = 0.01 * np.asarray(x)

    grad.get_grad = get_grad
    ctx.info(scheme=name, n=n, epoch=epoch)
    reg = regulariser(rng, x0.shape, kinds=("none",))
    solver = mute(getattr(alg, CLS[name]), x0.copy(), grad, reg.obj, None, eta=0.02,
                  eta_update=up, epoch_size=epoch, progress=False)
    mute(solver.iterate, max_iter=n)
    ctx.check([k for _, k in told] == list(range(n)), f"{name}: iterations told to the "
              f"schedule", told=told[-3:])
    ctx.close([e for e, _ in told], 0.02 * 0.999 ** np.arange(n),
              f"{name}: steps told to the schedule", rtol=1e-9)
    ctx.seen(name, n, epoch, x0.tobytes())
    ctx.obs("scheduled steps", n)
    ctx.sample()


def rejects(ctx, rng, i):
    prob = Problem(rng, (3,))
    reg = regulariser(rng, (3,), kinds=("l1",))
    g = prob.grad()
    x = prob.x0()
    bad = float(pick(rng, -0.1, 1.5, -3.0, 1.0001))
    ctx.raises(ValueError, lambda: alg.RMSpropGradOpt(x, g, reg.obj, None, gamma=bad),
               f"RMSprop with gamma={bad}")
    ctx.raises(ValueError, lambda: alg.ADAMGradOpt(x, g, reg.obj, None, gamma=bad),
               f"ADAM with gamma={bad}")
    ctx.raises(ValueError, lambda: alg.ADAMGradOpt(x, g, reg.obj, None, beta=bad),
               f"ADAM with beta={bad}")
    ctx.raises(TypeError, lambda: alg.VanillaGenericGradOpt(x, g, reg.obj, None, eta=1),
               "integer eta")
    ctx.raises(TypeError, lambda: alg.VanillaGenericGradOpt(x, g, reg.obj, None,
               eta_update=3), "eta_update that is not callable")
    ctx.seen("rejects", bad)


SECTIONS = [
    Section("run", run, 1400, 20000),
    Section("schedule", schedule, 28, 280),
    Section("rejects", rejects, 6, 20),
]
