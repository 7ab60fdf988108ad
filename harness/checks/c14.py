"""C14: the cost-based convergence test: when it is made and what it decides."""

import numpy as np
from core import Section
from gens import pick, span
from modopt.opt import algorithms as alg
from modopt.opt import proximity as px
from modopt.opt.cost import CostParent, costObj
from optkit import Problem, regulariser
from util import mute, quiet

RULE = (
    "A case is a sequence of cost values fed to one cost object (random interval, "
    "window, tolerance, scale, sign, NaN/inf values) through its operators or through "
    "a solver; each answer, the published cost, the evaluations made and the printed "
    "text are compared to a model.  Non-trivial: at least one full window was tested."
)
ASSUMPTIONS = ["comparisons within 1e-9 (relative) of the tolerance are not judged"]


def sequence(rng, n):
    kind = rng.integers(7)
    scale = float(pick(rng, 1.0, 1e-6, 1e8, -1.0, 1e-12, -1e5, 1e120))
    if kind == 0:
        v = rng.uniform(0.5, 2, n)
    elif kind == 1:
        v = 1 + np.exp(-np.arange(n) * rng.uniform(0.05, 1))
    elif kind == 2:
        v = np.full(n, rng.uniform(1, 2))
    elif kind == 3:
        v = np.where(np.arange(n) < rng.integers(1, n + 1), rng.uniform(1, 3, n), 1.7)
    elif kind == 4:
        v = np.zeros(n)
    elif kind == 5:  # zero only in some windows
        v = np.where((np.arange(n) // int(rng.integers(1, 6))) % 2 == 0, 0.0, 1.0)
    else:
        v = rng.uniform(1, 2, n)
        v[int(rng.integers(n))] = pick(rng, np.nan, np.inf)
    return v * scale


class Model:
    """The documented test, over the values taken every ``interval`` calls."""

    def __init__(self, tol, interval, window):
        self.tol, self.interval, self.window = tol, interval, window
        self.calls, self.buf, self.taken = 0, [], []
        self.tests = 0

    def step(self, value):
        """(taken, answer) with answer None when too close to call."""
        self.calls += 1
        if self.interval is None or self.calls % self.interval:
            return False, False
        self.buf.append(value)
        self.taken.append(value)
        if len(self.buf) < self.window:
            return True, False
        half = self.window // 2
        old, new = np.mean(self.buf[:half]), np.mean(self.buf[half:])
        self.buf = []
        self.tests += 1
        if abs(new) < 4e-17:
            return True, self.tol >= 0
        if abs(new) < 6e-17:
            return True, None
        diff = abs(new - old) / abs(new)
        if np.isnan(diff):
            return True, False
        exact = diff == 0 and {half, self.window - half} <= {1, 2, 4}
        if abs(diff - self.tol) <= 1e-9 * self.tol + 1e-15 and not exact:
            return True, None
        return True, bool(diff <= self.tol)


class Term:
    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def cost(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.fn(*args)


def direct(ctx, rng, i):
    kw = {}
    tol, interval, window = 1e-4, 1, 4
    if rng.random() < 0.7:
        tol = float(pick(rng, 0.0, 10.0 ** rng.uniform(-6, 0), -1.0, 1e-4, 1, 1e-13))
        kw["tolerance"] = pick(rng, tol, tol, int(tol) if tol % 1 == 0 else tol)
    if rng.random() < 0.6:
        interval = pick(rng, 1, 2, 3, 5, None)
        kw["cost_interval"] = interval
    if rng.random() < 0.6:
        window = int(rng.integers(2, 9))
        kw["test_range"] = window
    verbose = bool(rng.random() < 0.5)
    if not verbose or rng.random() < 0.5:
        kw["verbose"] = verbose
    init = float(rng.uniform(1, 9))
    if rng.random() < 0.4:
        init = pick(rng, init, init, int(init), 0, -init)
        kw["initial_cost"] = init
    else:
        init = 1e6
    n = span(rng, 1, 59, 400)
    vals = sequence(rng, n)
    parts = int(rng.integers(1, 4))
    terms = [Term(lambda x, j=j: vals[x] / parts) for j in range(parts)]
    kind = pick(rng, list, tuple, np.array)
    if rng.random() < 0.3:  # a user-defined cost class
        class Mine(CostParent):
            def _calc_cost(self, x, **kwargs):
                return sum(t.cost(x) for t in terms)
        obj = Mine(**kw)
    else:
        obj = costObj(kind(terms), **kw)
    ctx.info(n=n, values=vals, **kw)
    model = Model(tol, interval, window)
    ctx.check(obj.cost == init, f"initial cost {obj.cost} instead of {init}")
    last = init
    for k in range(n):
        with quiet() as (out, _):
            got = obj.get_cost(k)
        total = sum(vals[k] / parts for _ in range(parts))
        taken, want = model.step(total)
        if want is None:
            ctx.obs("answers too close to call")
        else:
            ctx.check(bool(got) == want,
                      f"call {k + 1}: converged is {got}, expected {want}")
        last = total if taken else last
        ctx.close(obj.cost, last, f"published cost after call {k + 1}", rtol=1e-12)
        ctx.check(all(len(t.calls) == len(model.taken) for t in terms),
                  f"evaluations after call {k + 1}: {[len(t.calls) for t in terms]}, "
                  f"expected {len(model.taken)}")
        text = out.getvalue()
        ctx.check(bool(text) == (verbose and taken), "printed text", text=text)
        if verbose and taken:
            ctx.check(f"ITERATION: {k + 1}" in text, "iteration number printed", text=text)
            ctx.check("COST" in text, "cost printed", text=text)
            ctx.check(("CONVERGENCE TEST" in text) == (len(model.buf) == 0),
                      "convergence test announced", text=text)
    if model.tests:
        ctx.seen(repr(sorted(kw.items())), vals.tobytes()[:64])
    ctx.sample(tests=model.tests)


def long(ctx, rng, i):
    """Tens of thousands of calls: the interval neither slips nor ends."""
    interval, window = int(pick(rng, 1, 3, 7, 11, 13)), int(rng.integers(2, 12))
    n = int(rng.integers(11_000, 40_000))
    taken, ats, calls = [], [], [0]
    term = Term(lambda x: taken.append(calls[0]) or float(calls[0]))
    obj = costObj([term], cost_interval=interval, test_range=window, tolerance=0.51234567,
                  verbose=False)
    ctx.info(interval=interval, window=window, n=n)
    want, buf = [], []
    for k in range(1, n + 1):
        calls[0] = k
        if obj.get_cost(k):
            ats.append(k)
        if k % interval == 0:
            buf.append(k)
            if len(buf) == window:
                h = window // 2
                if abs(np.mean(buf[h:]) - np.mean(buf[:h])) <= 0.51234567 * np.mean(buf[h:]):
                    want.append(k)
                buf = []
    ctx.check(taken == list(range(interval, n + 1, interval)), "calls evaluated",
              last=taken[-3:])
    ctx.check(ats == want, "calls with convergence", first=[ats[:3], want[:3]],
              last=[ats[-3:], want[-3:]])
    ctx.seen("long", interval, window, n)
    ctx.obs("calls of long runs", n)


def solver(ctx, rng, i):
    """A solver stops exactly where the test says so."""
    kind = pick(rng, "fb", "gfb", "pogm", "condat", "gd")
    prob = Problem(rng, (int(rng.integers(2, 5)),), lo=0.5, hi=1.2)
    reg = regulariser(rng, prob.shape, kinds=("l1w", "ridge"))
    tol = float(10.0 ** rng.uniform(-9, -1))
    interval = int(pick(rng, 1, 1, 2, 3))
    window = int(pick(rng, 4, 2, 3, 6))
    n = span(rng, 5, 79, 300)
    log, given = [], []
    prox = px.ProximityParent(reg.obj.op, lambda x, *a, **k: reg.val(x))
    dual = px.ProximityParent(reg.obj.op, lambda x, y=None, **k: 0.25 * float(
        np.sum(np.abs(y))) if kind == "condat" else 0.0)
    prim = px.IdentityProx()

    class Watch:
        """User-visible iterates: a cost term that records what it is given."""

        def cost(self, x, *args, **kwargs):
            given.append([np.array(x)] + [np.array(a) for a in args])
            return 0.0

    g = prob.grad()
    g.cost = lambda x, *a, **k: prob.value(x)
    ops = [g, prim, dual, Watch()] if kind == "condat" else [g, prox, Watch()]
    obj = costObj(ops, tolerance=tol, cost_interval=interval, test_range=window,
                  verbose=False)
    x0 = prob.x0()
    kw = {"cost": obj, "progress": False}
    if kind == "fb":
        s = mute(alg.ForwardBackward, x0, g, prox, beta_param=0.5, auto_iterate=False,
                 **kw)
    elif kind == "gfb":
        s = mute(alg.GenForwardBackward, x0, g, [prox], gamma_param=0.5,
                 auto_iterate=False, **kw)
    elif kind == "pogm":
        s = mute(alg.POGM, x0.copy(), x0.copy(), x0.copy(), x0.copy(), g, prox,
                 beta_param=0.5, auto_iterate=False, **kw)
    elif kind == "condat":
        s = mute(alg.Condat, x0, x0.copy(), g, prim, dual, tau=0.3, sigma=0.5,
                 auto_iterate=False, **kw)
    else:
        s = mute(alg.VanillaGenericGradOpt, x0, g, prox, eta=0.4, **kw)
    ctx.info(kind=kind, tol=tol, interval=interval, window=window, n_iter=n)
    mute(s.iterate, max_iter=n)
    n_it = s.idx + 1
    model = Model(tol, interval, window)
    j = 0
    for k in range(n_it):
        taken = (k + 1) % interval == 0
        val = 0.0
        if taken:
            ctx.check(j < len(given), f"{kind}: no cost taken at iteration {k}")
            x = given[j][0]
            val = prob.value(x) + (0.25 * float(np.sum(np.abs(given[j][1])))
                                   if kind == "condat" else reg.val(x))
            j += 1
            log.append(val)
        _, want = model.step(val)
        if want is None:
            ctx.obs("runs too close to call")
            return
        if want:
            ctx.check(k == n_it - 1, f"{kind}: went on to {n_it} after the test held at "
                      f"iteration {k + 1}")
            ctx.check(bool(s.converge), f"{kind}: converge flag not set")
            break
    else:
        ctx.check(n_it == n, f"{kind}: stopped at {n_it} of {n} without convergence")
        ctx.check(not s.converge, f"{kind}: converge flag set")
    ctx.check(j == len(given), f"{kind}: {len(given)} costs taken, expected {j}")
    if log:
        ctx.close(obj.cost, log[-1], f"{kind}: published cost", rtol=1e-9)
    ctx.obs("solver iterations judged", n_it)
    if model.tests:
        ctx.seen("solver", kind, tol, interval, window, n)
    ctx.sample(iterations=n_it)


def rejects(ctx, rng, i):
    ctx.raises(TypeError, lambda: costObj(Term(abs)), "operators not in a list")
    ctx.raises(ValueError, lambda: costObj([Term(abs), object()]), "no cost method")

    class Bad:
        cost = 3

    ctx.raises(TypeError, lambda: costObj([Bad()]), "cost that cannot be called")
    ctx.raises(TypeError, lambda: CostParent(), "the parent class is abstract")
    ctx.seen("rejects")


SECTIONS = [
    Section("direct", direct, 900, 12000),
    Section("solver", solver, 400, 5000),
    Section("long", long, 24, 120),
    Section("rejects", rejects, 1, 1),
]
