"""C12: iteration control: how many, in which order, with which parameters."""

import numpy as np
from checks.c26 import lengths
from core import Section
from gens import pick, span
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.gradient import GradBasic
from optkit import Problem, regulariser
from util import mute, quiet

RULE = (
    "A case is a history of iterate() calls on one solver of any kind, with "
    "recording gradient, proximity, cost and parameter-update callbacks and a cost "
    "that declares convergence at a chosen evaluation (or never); counts, order and "
    "arguments of the callbacks and the split-run equivalence are judged.  "
    "Non-trivial: at least one iteration was run."
)
KINDS = ("fb", "fb-nofista", "gfb", "pogm", "condat", "vanilla", "ada", "rms",
         "momentum", "adam", "saga", "generic", "admm", "fastadmm")
GD = {"vanilla": "VanillaGenericGradOpt", "ada": "AdaGenericGradOpt",
      "rms": "RMSpropGradOpt", "momentum": "MomentumGradOpt", "adam": "ADAMGradOpt",
      "saga": "SAGAOptGradOpt", "generic": "GenericGradOpt"}


class StopAt:
    """A user-written cost: converged at its ``at``-th evaluation."""

    def __init__(self, at, events):
        self.at, self.n, self.events = at, 0, events
        self.args = []

    def get_cost(self, *args):
        self.n += 1
        self.events.append("cost")
        self.args.append([np.array(a) for a in args])
        return self.at is not None and self.n >= self.at


class SpyGrad(GradBasic):
    def __init__(self, events, *args, **kwargs):
        super().__init__(*args, **kwargs)
        inner = self.get_grad

        def get_grad(x):
            events.append("grad")
            inner(x)

        self.get_grad = get_grad


class SpyProx(px.ProximityParent):
    def __init__(self, events, tag, reg):
        def op(v, extra_factor=1.0):
            events.append(tag)
            self.factors.append(extra_factor)
            return reg.prox(v, extra_factor)

        self.factors = []
        super().__init__(op, lambda *a, **k: 0.0)


def build(rng, kind, events, cost, n_regs=2, metrics=None, **extra):
    """A solver of the given kind; returns (solver, info)."""
    shape = (int(rng.integers(2, 6)),)
    prob = Problem(rng, shape, False, lo=0.5, hi=1.2)
    grad = SpyGrad(events, prob.y, prob.op, prob.adj, verbose=False)
    reg = regulariser(rng, shape, kinds=("l1w", "ridge", "custom"))
    prox = SpyProx(events, "prox", reg)
    x0 = prob.x0()
    common = {"progress": False, "metrics": metrics, "metric_call_period": 1}
    common.update(extra)
    if common["metric_call_period"] == "default":
        del common["metric_call_period"]
    info = {"prob": prob, "reg": reg, "x0": x0, "prox": prox, "n_prox": 1}
    step = 0.7 / prob.lip
    if kind in ("fb", "fb-nofista"):
        kw = {"lambda_update": None} if kind != "fb" else {}
        s = mute(alg.ForwardBackward, x0, grad, prox, cost=cost, beta_param=step,
                 linear=lin.Identity(), auto_iterate=False, **{**common, **kw})
    elif kind == "gfb":
        regs = [reg] + [regulariser(rng, shape, kinds=("l1w", "ridge"))
                        for _ in range(n_regs - 1)]
        ps = [SpyProx(events, f"prox{j}", r) for j, r in enumerate(regs)]
        info.update(n_prox=n_regs, prox=ps[0])
        s = mute(alg.GenForwardBackward, x0, grad, ps, cost=cost, gamma_param=step,
                 linear=lin.Identity(), auto_iterate=False, **common)
    elif kind == "pogm":
        s = mute(alg.POGM, x0.copy(), x0.copy(), x0.copy(), x0.copy(), grad, prox,
                 cost=cost, beta_param=step, linear=lin.Identity(), auto_iterate=False,
                 **common)
    elif kind == "condat":
        dual = SpyProx(events, "dual", regulariser(rng, shape, kinds=("l1w",)))
        s = mute(alg.Condat, x0, x0.copy(), grad, prox, dual, cost=cost, tau=0.4 * step,
                 sigma=0.5, auto_iterate=False, **common)
    elif kind in GD:
        eps = {"epsilon": 1.0} if kind in ("saga", "generic") else {}
        s = mute(getattr(alg, GD[kind]), x0, grad, prox, cost, eta=0.3 * step,
                 **eps, **common)
    else:
        cls = alg.ADMM if kind == "admm" else alg.FastADMM

        def opt(tag, d):
            def run(init, obs):
                events.append(tag)
                return 0.2 * obs + 0.1 * init + d
            return run

        d = rng.standard_normal(shape)
        common.pop("step_size", None)
        s = mute(cls, x0, x0.copy(), np.zeros(shape), lin.Identity(), lin.Identity(),
                 rng.standard_normal(shape), (opt("u", d), opt("v", -d)), **common)
    return s, info


def expected(kind, n_prox, epoch_hit, cost):
    if kind in ("admm", "fastadmm"):
        ev = ["u", "v"]
    elif kind == "gfb":
        ev = ["grad"] + [f"prox{j}" for j in range(n_prox)]
    elif kind == "condat":
        ev = ["grad", "prox", "dual"]
    elif kind in GD:
        ev = ["grad"] + (["prox"] if epoch_hit else [])
    else:
        ev = ["grad", "prox"]
    return ev + (["cost"] if cost else [])


def count(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    at = pick(rng, None, None, int(rng.integers(1, 12)))
    events = []
    if "admm" in kind:  # its stopping on cost is followed in C11
        at = None
    cost = StopAt(at, events) if at is not None or rng.random() < 0.6 else None
    cost = None if "admm" in kind else cost
    kw = {}
    epoch = 1
    if kind in GD:
        epoch = int(pick(rng, 1, 1, 2, 4))
        kw["epoch_size"] = epoch
    if rng.random() < 0.5:
        kw["verbose"] = True
    s, info = build(rng, kind, events, cost, n_regs=int(rng.integers(1, 4)), **kw)
    plan = [span(rng, 1, 11, 200) for _ in range(int(rng.integers(1, 4)))]
    ctx.info(kind=kind, plan=plan, converge_at=at, epoch=epoch)
    del events[:]
    left = at
    for n in plan:
        want_n = n if left is None else min(n, max(left, 1))
        with quiet() as (out, _):
            s.iterate(max_iter=n)
        want, got = [], []
        for k in range(want_n):
            part = expected(kind, info["n_prox"], k % epoch == 0, cost is not None)
            # within an iteration only the multiset of calls matters
            got += sorted(events[len(want):len(want) + len(part)])
            want += sorted(part)
        got += events[len(want):]
        ctx.check(got == want,
                  f"{kind}: events {events[:12]}.. ({len(events)}), expected "
                  f"{want[:12]}.. ({len(want)}) for {want_n} iterations")
        ctx.check(s.idx == want_n - 1, f"{kind}: idx is {s.idx} after {want_n}")
        done = left is not None and left <= n
        ctx.check(bool(s.converge) == done, f"{kind}: converge is {s.converge}")
        ctx.check(("Converged" in out.getvalue()) == (done and "verbose" in kw),
                  f"{kind}: message about convergence", out=out.getvalue())
        if left is not None:
            left = max(left - want_n, 0)
        ctx.obs("iterations counted", want_n)
        del events[:]
    if cost is not None and kind not in ("fb", "fb-nofista") :
        ctx.close(cost.args[-1][0], s.x_final, f"{kind}: cost of the final iterate",
                  rtol=1e-12)
    ctx.seen(kind, tuple(plan), at, epoch)
    ctx.sample()


def split(ctx, rng, i):
    """iterate(a); iterate(b) gives what iterate(a + b) gives."""
    kind = KINDS[i % len(KINDS)]
    seed = int(rng.integers(2**31))
    plan = [span(rng, 1, 14, 120) for _ in range(int(rng.integers(2, 5)))]
    extra = {}
    if kind == "fb":
        extra = pick(rng, {}, {"a_cd": 5.0}, {"p_lazy": 0.5},
                     {"restart_strategy": "adaptive-ii", "xi_restart": 0.9},
                     {"restart_strategy": "greedy", "xi_restart": 0.9, "min_beta": 0.1,
                      "s_greedy": 1.1})
    if kind in GD and rng.random() < 0.5:  # whole epochs: each run begins one
        extra = {"epoch_size": int(rng.integers(2, 5))}
        plan = [extra["epoch_size"] * int(v) for v in rng.integers(1, 6, len(plan))]
    two, _ = build(np.random.default_rng(seed), kind, [], None, **extra)
    one, _ = build(np.random.default_rng(seed), kind, [], None, **extra)
    ctx.info(kind=kind, plan=plan, **extra)
    names = [v for v in ("x_final", "y_final", "u_final", "v_final")
             if v in ("x_final",) or (kind, v) in (("condat", "y_final"),)
             or ("admm" in kind and v != "y_final")]
    held = []
    for n in plan:
        mute(two.iterate, max_iter=n)
        held += [(v, getattr(two, v), np.array(getattr(two, v))) for v in names]
    mute(one.iterate, max_iter=sum(plan))
    for v in names:
        ctx.close(getattr(two, v), getattr(one, v), f"{kind}: {v} of the split run",
                  rtol=1e-12)
    ctx.check(all(np.array_equal(ref, first) for _, ref, first in held),
              f"{kind}: an earlier result was overwritten by a later run")
    ctx.seen("split", kind, tuple(plan), seed)


def long(ctx, rng, i):
    """A request for very many iterations is honoured."""
    kind = KINDS[i % len(KINDS)]
    events = []
    n = int(rng.integers(10_001, 12_000))
    if i == 0:
        kind = pick(rng, "vanilla", "momentum", "ada", "fb-nofista")
        n = int(rng.integers(66_000, 70_000))
    s, _ = build(rng, kind, events, None, metric_call_period=5000)
    ctx.info(kind=kind, n=n)
    mute(s.iterate, max_iter=n)
    ctx.check(s.idx == n - 1, f"{kind}: {s.idx + 1} iterations of {n}")
    done = events.count("u" if "admm" in kind else "grad")
    ctx.check(n <= done <= n + 1, f"{kind}: {done} evaluations in {n} iterations")
    ctx.obs("iterations of long runs", n)
    ctx.seen("long", kind, n)
    ctx.sample(kind=kind, n=n)


def auto(ctx, rng, i):
    """auto_iterate runs on construction: 150 iterations, or Condat's max_iter."""
    kind = pick(rng, "fb", "gfb", "pogm", "condat")
    prob = Problem(rng, (3,), lo=0.5, hi=1.2)
    events = []
    grad = SpyGrad(events, prob.y, prob.op, prob.adj, verbose=False)
    reg = regulariser(rng, (3,), kinds=("l1w",))
    prox = SpyProx(events, "prox", reg)
    x0 = prob.x0()
    at = pick(rng, None, 7)
    cost = StopAt(at, events)
    kw = {"cost": cost, "progress": False}
    want = at or 150
    if kind == "fb":
        s = mute(alg.ForwardBackward, x0, grad, prox, beta_param=0.5, **kw)
    elif kind == "gfb":
        s = mute(alg.GenForwardBackward, x0, grad, [prox], gamma_param=0.5, **kw)
    elif kind == "pogm":
        s = mute(alg.POGM, x0.copy(), x0.copy(), x0.copy(), x0.copy(), grad, prox,
                 beta_param=0.5, **kw)
        events.remove("grad") if events.count("grad") > events.count("prox") else None
    else:
        n = int(rng.integers(1, 30))
        s = mute(alg.Condat, x0, x0.copy(), grad, prox, SpyProx([], "d", reg), tau=0.2,
                 sigma=0.5, max_iter=n, **kw)
        want = min(at or n, n)
    ctx.info(kind=kind, at=at)
    ctx.check(events.count("prox") == want and events.count("grad") == want,
              f"{kind}: {events.count('prox')} iterations at construction, not {want}")
    ctx.check(hasattr(s, "x_final"), "no x_final")
    ctx.seen("auto", kind, at, i)


def default(ctx, rng, i):
    """iterate() without a number, and Condat without max_iter, mean 150 iterations."""
    kind = KINDS[i % len(KINDS)]
    events = []
    s, info = build(rng, kind, events, None, epoch_size=1) if kind in GD else build(
        rng, kind, events, None)
    ctx.info(kind=kind)
    del events[:]
    mute(s.iterate)
    want = 150 * len(expected(kind, info["n_prox"], True, False))
    ctx.check(len(events) == want, f"{kind}: {len(events)} calls in a default run, "
              f"not {want}")
    if kind == "condat":
        prob = info["prob"]
        del events[:]
        prox = SpyProx(events, "prox", info["reg"])
        mute(alg.Condat, info["x0"], info["x0"].copy(), prob.grad(), prox,
             SpyProx([], "dual", info["reg"]), cost=None, tau=0.2 / prob.lip, sigma=0.5,
             progress=False)
        ctx.check(len(events) == 150, f"Condat: {len(events)} iterations at construction")
    ctx.seen("default", kind, i)


def params(ctx, rng, i):
    """Parameter callbacks: once per iteration, each on the previous value."""
    kind = pick(rng, "fb-nofista", "gfb", "condat", "vanilla")
    n = int(rng.integers(1, 15))
    prob = Problem(rng, (3,), lo=0.5, hi=1.2)
    reg = regulariser(rng, (3,), kinds=("l1w",))
    prox = SpyProx([], "prox", reg)
    dual = SpyProx([], "dual", reg)
    grad = prob.grad()
    x0 = prob.x0()
    calls = {}

    def spy(name, c):
        calls[name] = []

        def up(v, *args):
            calls[name].append((v, args))
            return v * c
        return up

    override = rng.random() < 0.4
    base = float(rng.uniform(0.1, 0.5))
    step = {"step_size": base} if override else {}
    first = 9.0 if override else base
    common = {"progress": False, **step}
    if kind == "fb-nofista":
        s = mute(alg.ForwardBackward, x0, grad, prox, cost=None, beta_param=first,
                 lambda_param=0.8, beta_update=spy("beta", 0.9),
                 lambda_update=spy("lambda", 0.95), auto_iterate=False, **common)
        start = {"beta": (base, 0.9), "lambda": (0.8, 0.95)}
        factor = [base * 0.9**k for k in range(n)]
    elif kind == "gfb":
        s = mute(alg.GenForwardBackward, x0, grad, [prox], cost=None, gamma_param=first,
                 lambda_param=0.8, gamma_update=spy("gamma", 0.9),
                 lambda_update=spy("lambda", 0.95), auto_iterate=False, **common)
        start = {"gamma": (base, 0.9), "lambda": (0.8, 0.95)}
        factor = [base * 0.9**k for k in range(n)]
    elif kind == "condat":
        s = mute(alg.Condat, x0, x0.copy(), grad, prox, dual, cost=None, tau=first,
                 sigma=0.5, rho=0.7, tau_update=spy("tau", 0.9),
                 sigma_update=spy("sigma", 0.97), rho_update=spy("rho", 0.99),
                 auto_iterate=False, **common)
        start = {"tau": (base, 0.9), "sigma": (0.5, 0.97), "rho": (0.7, 0.99)}
        factor = [base * 0.9**k for k in range(n)]
        dual_factor = [1 / (0.5 * 0.97**k) for k in range(n)]
    else:
        s = mute(alg.VanillaGenericGradOpt, x0, grad, prox, None, eta=base,
                 eta_update=spy("eta", 0.9), progress=False)
        start = {"eta": (base, 0.9)}
        factor = [base * 0.9**k for k in range(n)]
    ctx.info(kind=kind, n_iter=n, override=override)
    mute(s.iterate, max_iter=n)
    for name, (v0, c) in start.items():
        got = calls[name]
        ctx.check(len(got) == n, f"{kind}: {name} updated {len(got)} times in {n}")
        for k, (v, args) in enumerate(got):
            ctx.check(abs(v - v0 * c**k) <= 1e-12 * v0, f"{kind}: {name} at call {k}: {v}")
            if name == "eta":
                ctx.check(args == (k,), f"eta_update got {args} at iteration {k}")
    ctx.close(prox.factors, factor, f"{kind}: factors given to the prox", rtol=1e-12)
    if kind == "condat":
        ctx.close(dual.factors, dual_factor, "factors given to the dual prox", rtol=1e-12)
    ctx.seen("params", kind, n, override, i)


def progress(ctx, rng, i):
    """The progress bar (own or given) advances once per unconverged iteration."""
    kind = pick(rng, "fb", "gfb", "pogm", "condat")
    at = pick(rng, None, 3)
    n = span(rng, 4, 12, 200)
    s, _ = build(rng, kind, [], StopAt(at, []), progress=True)

    class Bar:
        n_up = 0

        def update(self, k=1):
            self.n_up += k

        def reset(self, total=None):
            pass

        def __bool__(self):
            return True

    bar = Bar()
    mute(s.iterate, max_iter=n, progbar=bar)
    want = n if at is None else at - 1
    ctx.check(bar.n_up == want, f"{kind}: progress bar moved {bar.n_up}, not {want}")
    s, _ = build(rng, kind, [], None, progress=False)
    with quiet() as (_, err):
        s.iterate(max_iter=3)
    ctx.check("it/s" not in err.getvalue() and "%" not in err.getvalue(),
              "a bar was shown with progress=False")
    ctx.seen("bar", kind, at, n)


SECTIONS = [
    Section("reweighted", lengths, 150, 1500),
    Section("count", count, 700, 8000),
    Section("split", split, 420, 4200),
    Section("long", long, len(KINDS), 10 * len(KINDS)),
    Section("auto", auto, 60, 400),
    Section("default", default, 28, 140),
    Section("params", params, 160, 1500),
    Section("progress", progress, 40, 200),
]
