"""C26: reweighting of sparsity weights, alone and inside the primal-dual solver."""

import io

import numpy as np
import refs
from core import Section
from gens import array, dims, layout, pick, sig, span, unlock
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt import reweight as rw
from modopt.opt.cost import costObj
from optkit import Problem, Recorder, regulariser
from tqdm.auto import tqdm
from util import mute, quiet

RULE = (
    "A case is a history of reweightings of random positive weights, or a primal-dual "
    "run with reweightings whose every iterate, reweighting argument and weight is "
    "recorded and compared to a model.  Non-trivial: at least one reweighting with "
    "non-zero data."
)


def direct(ctx, rng, i):
    shape = dims(rng, 1, 5, int(rng.integers(1, 4)))
    w = rng.uniform(0.05, 3, shape) * pick(rng, 1.0, 1e-4, 1e4)
    if rng.random() < 0.2:
        w = np.ceil(w)
    huge = rng.random() < 0.15
    if huge:
        w = w * pick(rng, 1e-200, 1e200)
    fac = pick(rng, None, float(rng.uniform(0.2, 4)), int(rng.integers(1, 5)))
    form = "array" if huge else pick(rng, "array", "array", "list", "int", "single")
    if form == "single":
        w = w.astype(np.float32).astype(float)
    eps = 1e-5 if form == "single" else 1e-9
    arg = {"single": unlock(layout(rng, w.astype(np.float32))), "array": unlock(layout(rng, w.copy())), "list": w.tolist(), "int": np.ceil(w).astype(int)}[form]
    if form == "int":
        w = np.ceil(w)
    verbose = bool(rng.random() < 0.3)
    kw = {"verbose": True} if verbose else {}
    if fac is not None:
        kw["thresh_factor"] = fac
    r = rw.cwbReweight(arg, **kw)
    ctx.info(weights=w, factor=fac, form=form)
    ctx.close(r.weights, w, "initial weights", rtol=0)
    want = w.copy()
    moved = False
    for step in range(dims(rng, 1, 5, 1, 80)[0]):
        x = array(rng, shape, dtype=pick(rng, float, float, int))
        if huge:
            x = rng.standard_normal(shape) * w * 10.0 ** rng.integers(-2, 3)
        x0 = np.array(x)
        given = x.tolist() if rng.random() < 0.2 else x
        with quiet() as (out, _):
            r.reweight(given)
        text = out.getvalue()
        ctx.check(bool(text) == verbose, f"printed {text!r}")
        want = want / (1 + np.abs(x0) / ((fac or 1.0) * w))
        if np.min(want) < (1e-30 if form == "single" else 1e-280):  # out of range soon
            break
        ctx.close(r.weights / want, np.ones(shape), f"weights, step {step}", rtol=eps,
                  data=x0)
        ctx.check(np.array_equal(x, x0), "data modified")
        bad = (*shape, 2) if rng.random() < 0.5 else (shape[0] + 1, *shape[1:])
        ctx.raises(ValueError, lambda: mute(r.reweight, np.ones(bad)), "shape of the data")
        ctx.close(r.weights / want, np.ones(shape), "weights after a refusal", rtol=eps)
        ctx.obs("reweightings")
        moved = moved or bool(np.any(x0))
    if form in {"array", "single"}:
        # Shared with the operator that owns them: that is how reweighting acts.
        ctx.check(np.array_equal(r.weights, arg), "the weights given are not updated")
    if moved:
        ctx.seen("direct", form, fac, sig(w))
    ctx.sample(final=want)


class Spy:
    def __init__(self, inner, events):
        self.inner, self.events = inner, events

    def reweight(self, data):
        self.events.append(("reweight", np.array(data)))
        self.inner.reweight(data)


def condat(ctx, rng, i):
    n = int(rng.integers(2, 7))
    prob = Problem(rng, (n,), False, lo=0.4, hi=1.2)
    m = span(rng, 1, 6, 60)
    mat = rng.standard_normal((m, n))
    mat /= np.linalg.norm(mat, 2)
    use_lin = rng.random() < 0.7
    if not use_lin:
        mat, m = np.eye(n), n
    lop = lin.LinearParent(lambda v: mat @ v, lambda v: mat.T @ v)
    w = rng.uniform(0.05, 0.6, m)
    w_lib = w.copy()
    dual = px.SparseThreshold(lin.Identity(), w_lib)
    inner = rw.cwbReweight(w_lib, thresh_factor=float(rng.uniform(0.5, 3)))
    events = []
    spy = Spy(inner, events)
    rec = Recorder("x_new", "y_new")
    orig = rec.__call__

    def note(**kwargs):
        res = orig(**kwargs)
        events.append(("iter", rec.rows[-1]["x_new"], w_lib.copy()))
        return res

    metrics = {"r": {"metric": note, "mapping": {"x_new": "x_new", "y_new": "y_new"},
                     "cst_kwargs": {}, "early_stopping": False}}
    prim = regulariser(rng, (n,), kinds=("pos", "none", "box"))
    tau, sigma = 0.4 / prob.lip, 0.5
    rho = float(rng.uniform(0.4, 1.0))
    x0, y0 = prob.x0(), rng.standard_normal(m)
    iters = span(rng, 1, 11, 150)
    reps = pick(rng, None, 0, 1, 2, 3)
    if iters < 8 and rng.random() < 0.1:
        reps = int(rng.integers(4, 25))
    auto = rng.random() < 0.4
    ctx.info(iterations=iters, reweightings=reps, weights=w, linear=use_lin, auto=auto)
    kw = {} if reps is None else {"n_rewightings": reps}
    akw = {"max_iter": iters, **kw} if auto else {"auto_iterate": False}
    s = mute(alg.Condat, x0.copy(), y0.copy(), prob.grad(), prim.obj, dual,
             linear=lop if use_lin else None, cost=None, reweight=spy, rho=rho,
             sigma=sigma, tau=tau, metrics=metrics, metric_call_period=1,
             progress=False, **akw)
    if not auto:
        mute(s.iterate, max_iter=iters, **kw)
    n_rw = 1 if reps is None else reps
    kinds = [e[0] for e in events]
    want_kinds = (["iter"] * iters + ["reweight"]) * n_rw + ["iter"] * iters
    ctx.check(kinds == want_kinds, f"events {kinds}")
    # the model
    x, y, cur = x0.copy(), y0.copy(), w.copy()
    for ev in events:
        if ev[0] == "iter":
            xp = prim.prox(x - tau * prob.ref_grad(x) - tau * (mat.T @ y), tau)
            yt = y + sigma * mat @ (2 * xp - x)
            yp = yt - sigma * refs.soft(yt / sigma, cur / sigma)
            x = rho * xp + (1 - rho) * x
            y = rho * yp + (1 - rho) * y
            ctx.close(ev[1], x, "iterate", rtol=1e-8, scale=np.max(np.abs(x0)) + 1)
            ctx.close(ev[2], cur, "weights in use", rtol=1e-8)
            ctx.obs("iterations")
        else:
            ctx.close(ev[1], mat @ x, "data given to the reweighting", rtol=1e-8,
                      scale=np.max(np.abs(x0)) + 1)
            cur = cur / (1 + np.abs(mat @ x) / (inner.thresh_factor * w))
            ctx.obs("reweightings")
    ctx.close(s.x_final, x, "solution", rtol=1e-8, scale=np.max(np.abs(x0)) + 1)
    ctx.close(s.y_final, y, "dual solution", rtol=1e-8, scale=np.max(np.abs(y0)) + 1)
    ctx.close(w_lib, cur, "final weights", rtol=1e-8)
    if n_rw:
        ctx.seen("condat", i, iters, n_rw)


def converging(ctx, rng, i):
    """Runs that stop before their last iteration are reweighted all the same."""
    n = int(rng.integers(2, 6))
    prob = Problem(rng, (n,), False, lo=0.5, hi=1.1)
    w_lib = rng.uniform(0.05, 0.5, n)
    first, w = w_lib.copy(), w_lib.copy()
    events = []
    spy = Spy(rw.cwbReweight(w_lib), events)
    early = rng.random() < 0.3
    # stop by the cost, or by a metric
    cost = None if early else costObj(
        [prob.grad()], tolerance=float(10.0 ** rng.uniform(-5, -1)), verbose=False)
    steps = []

    def note(x_new, y_new):
        steps.append(len(events))
        return 1.0 + 0.5 ** len(steps)

    metrics = {"r": {"metric": note, "mapping": {"x_new": "x_new", "y_new": "y_new"},
                     "cst_kwargs": {}, "early_stopping": early}}
    reps, iters = int(rng.integers(0, 4)), int(rng.integers(30, 200))
    s = mute(alg.Condat, prob.x0(), rng.standard_normal(n), prob.grad(),
             px.IdentityProx(), px.SparseThreshold(lin.Identity(), w_lib), cost=cost,
             reweight=spy, sigma=0.5, tau=0.4 / prob.lip, metrics=metrics,
             metric_call_period=1, progress=False, auto_iterate=False)
    mute(s.iterate, max_iter=iters, n_rewightings=reps)
    ctx.info(iterations=iters, reweightings=reps, early=early, steps=steps)
    ctx.check(len(events) == reps, f"{len(events)} reweightings, {reps} asked for")
    runs = [steps.count(k) for k in range(reps + 1)]
    ctx.check(all(r > 0 for r in runs), f"iterations of each run: {runs}")
    for _, data in events:
        w = w / (1 + np.abs(data) / first)
    ctx.close(w_lib, w, "final weights", rtol=1e-8)
    ctx.obs("runs that converged", sum(r < iters for r in runs))
    if any(r < iters for r in runs) and reps:
        ctx.seen("converging", i, reps)
    ctx.sample(runs=runs)


class Planned(costObj):
    """A cost that declares convergence at chosen evaluations."""

    def __init__(self, stops):
        super().__init__([px.IdentityProx()], verbose=False)
        self.stops, self.n = stops, 0

    def get_cost(self, *args, **kwargs):
        self.n += 1
        return self.n in self.stops


def lengths(ctx, rng, i):
    """Each run lasts until its own convergence or the number of iterations asked for."""
    n = int(rng.integers(1, 5))
    prob = Problem(rng, (n,), False, lo=0.5, hi=1.1)
    reps, iters = int(rng.integers(1, 6)), span(rng, 1, 25, 250)
    total = (reps + 1) * iters
    stops = set(np.flatnonzero(rng.random(total) < 1.2 / iters) + 1)
    w_lib = rng.uniform(0.05, 0.5, n)
    events = []
    cost = Planned(stops)
    spy = Spy(rw.cwbReweight(w_lib), events)
    marks = []
    inner = spy.reweight
    spy.reweight = lambda data: (marks.append(cost.n), inner(data))[1]
    auto = rng.random() < 0.5
    kw = {"max_iter": iters, "n_rewightings": reps}
    s = mute(alg.Condat, prob.x0(), rng.standard_normal(n), prob.grad(),
             px.IdentityProx(), px.SparseThreshold(lin.Identity(), w_lib), cost=cost,
             reweight=spy, sigma=0.5, tau=0.4 / prob.lip, progress=False,
             **(kw if auto else {"auto_iterate": False}))
    if not auto:
        bar = tqdm(total=iters, file=io.StringIO()) if rng.random() < 0.4 else None
        mute(s.iterate, progbar=bar, **kw)
    ctx.info(iterations=iters, reweightings=reps, stops=sorted(stops), marks=marks)
    done, want = 0, []
    for _ in range(reps + 1):
        for k in range(iters):
            done += 1
            if done in stops:
                break
        want.append(done)
    ctx.check([*marks, cost.n] == want,
              f"runs end after {[*marks, cost.n]} iterations, expected {want}")
    ctx.check(s.idx == k, f"index {s.idx} of the last run, expected {k}")
    ctx.obs("runs", reps + 1)
    if stops:
        ctx.seen("lengths", i, tuple(want))


SECTIONS = [
    Section("lengths", lengths, 200, 2500),
    Section("converging", converging, 150, 2000),
    Section("direct", direct, 600, 8000),
    Section("condat", condat, 300, 4000),
]
