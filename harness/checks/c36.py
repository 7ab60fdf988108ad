"""C36: a failing call reports its error and leaves everything usable."""

import gc
import os
import threading

import numpy as np
import refs
from catalog import OPERATORS
from checks.c12 import GD, KINDS
from core import Section
from gens import pick
from modopt.base.observable import MetricObserver, Observable
from modopt.math.matrix import PowerMethod
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.cost import CostParent, costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.reweight import cwbReweight
from optkit import Problem
from tqdm.auto import tqdm
from util import mute, quiet

RULE = (
    "A case makes one callback of the caller (operator, adjoint, proximity operator, "
    "cost, parameter update, metric, observer) raise at a chosen call, or hands bad data "
    "to an operator, and then uses the same objects again: the exception must be the one "
    "raised, and later results those of twins that never saw the failing call.  "
    "Non-trivial: the fault was reached."
)
ASSUMPTIONS = [
    "a solver run again after a failure is judged by where it converges and by its "
    "metric histories, not by its first iterates (the interrupted one may be repeated "
    "or skipped)",
]


class Boom(Exception):
    """An exception of the caller's own."""


class Quit(BaseException):
    """One that is no Exception, like KeyboardInterrupt."""


class Fault:
    """Wraps callbacks; the armed one raises at its n-th call from then on, once."""

    def __init__(self):
        self.role = self.exc = None
        self.left = 0

    def arm(self, role, n, exc):
        self.role, self.left, self.exc = role, n, exc

    def off(self):
        self.role = None

    @property
    def fired(self):
        return self.role is not None and self.left == 0

    def __call__(self, role, fn):
        def run(*args, **kwargs):
            if role == self.role and self.left:
                self.left -= 1
                if not self.left:
                    raise self.exc
            return fn(*args, **kwargs)

        return run


def new_exc(rng):
    return pick(rng, Boom("b"), ValueError("v"), TypeError("t"), KeyError("k"),
                RuntimeError("r"), ArithmeticError("s"), AttributeError("a"),
                ImportError("i"), IndexError("x"), OSError(5, "o"), Quit("q"),
                KeyboardInterrupt(), FloatingPointError("f"), MemoryError("m"))


def world():
    return {"files": len(os.listdir("/proc/self/fd")), "threads": sum(
                type(t).__name__ != "TMonitor" for t in threading.enumerate()),
            "bars": len(getattr(tqdm, "_instances", ())), "dir": os.getcwd(),
            "errors": tuple(np.geterr().items())}


def attempt(ctx, fn, fault, who):
    """Run fn under an armed fault; True if the fault was reached and reported."""
    before = world()
    try:
        with quiet():
            fn()
    except BaseException as err:  # noqa: BLE001
        if err is not fault.exc:
            if isinstance(err, (Boom, Quit)) or not fault.fired:
                raise
            ctx.fail(f"{who}: {fault.exc!r} of the caller came out as {err!r}")
        # the caller may keep the exception, and with it the frames of the call
        bars = len(getattr(tqdm, "_instances", ()))
        err.__traceback__ = None
        ctx.check(bars == before["bars"],
                  f"{who}: {bars} progress bars open after it raised")
    else:
        if fault.fired:
            ctx.fail(f"{who}: {fault.exc!r} of the caller was swallowed")
        fault.off()
        return False
    fault.exc.__traceback__ = fault.exc.__context__ = None
    after = world()
    if after != before:
        gc.collect()
        after = world()
    ctx.check(after == before, f"{who}: left behind {after}, before {before}")
    fault.off()
    ctx.obs("failures injected")
    return True


# -- solvers ----------------------------------------------------------------
class Setup:
    """The ingredients of a solver, every callback through the fault injector."""

    def __init__(self, rng, kind, fault):
        self.kind = kind
        shape = (int(rng.integers(2, 5)),)
        self.prob = prob = Problem(rng, shape, False, lo=0.6, hi=1.2)
        self.fault = fault
        self.grad = GradBasic(prob.y, fault("op", prob.op), fault("adj", prob.adj),
                              verbose=False)
        self.w = w = rng.uniform(0.05, 0.3, shape)

        def prox(tag, scale):
            return px.ProximityParent(
                fault(tag, lambda v, extra_factor=1.0:
                      refs.soft(v, scale * w * extra_factor)),
                fault("term", lambda v, *a, **k:
                      float(np.sum(np.abs(scale * w * v)))))

        self.prox, self.prox2 = prox("prox", 1.0), prox("prox2", 0.5)
        self.linear = lin.LinearParent(fault("lin", lambda v: v),
                                       fault("linadj", lambda v: v))
        self.x0 = [prob.x0() for _ in range(4)]
        self.d = rng.standard_normal(shape)
        self.calls = []

        def metric(test, it):
            self.calls.append((int(it), float(np.sum(test))))
            return float(np.sum(test))

        self.metrics = {"m": {
            "metric": fault("metric", metric), "mapping": {"x_new": "test", "idx": "it"},
            "cst_kwargs": {}, "early_stopping": False}}
        self.period = int(rng.integers(1, 4))
        self.interval = int(pick(rng, 1, 1, 2))

    def roles(self):
        k = self.kind
        if "admm" in k:
            return ["u", "v", "metric"]
        res = ["op", "adj", "prox", "term", "metric"]
        if k in ("fb", "fb-nofista", "gfb", "pogm", "condat"):
            res += ["linadj", "update"]
        if k == "condat":
            res += ["lin", "prox2"]
        if k == "gfb":
            res += ["prox2"]
        if k == "pogm":
            res.remove("update")
        return res

    def solver(self, progress, **kw):
        k, f, x0 = self.kind, self.fault, self.x0
        step = 0.7 / self.prob.lip
        common = {"progress": progress, "metrics": self.metrics,
                  "metric_call_period": self.period, **kw}
        upd = f("update", lambda v: v)
        if "admm" in k:
            cls = alg.ADMM if k == "admm" else alg.FastADMM
            return cls(x0[0], x0[1], np.zeros_like(self.d), lin.Identity(),
                       lin.Identity(), self.d,
                       (f("u", lambda init, obs: 0.2 * obs + 0.1 * init + self.d),
                        f("v", lambda init, obs: 0.2 * obs + 0.1 * init - self.d)),
                       **{n: v for n, v in common.items() if n != "auto_iterate"})
        cost = costObj([self.grad, self.prox] if k != "gfb"
                       else [self.grad, self.prox, self.prox2],
                       verbose=False, tolerance=0.0, cost_interval=self.interval)
        if k in GD:
            common.pop("auto_iterate", None)
            eps = {"epsilon": 1.0} if k in ("saga", "generic") else {}
            return getattr(alg, GD[k])(x0[0], self.grad, self.prox, cost,
                                       eta=0.3 * step, **eps, **common)
        if k == "fb":
            return alg.ForwardBackward(x0[0], self.grad, self.prox, cost=cost,
                                       beta_param=step, linear=self.linear,
                                       beta_update=upd, **common)
        if k == "fb-nofista":
            return alg.ForwardBackward(x0[0], self.grad, self.prox, cost=cost,
                                       beta_param=step, linear=self.linear,
                                       lambda_update=None, beta_update=upd, **common)
        if k == "gfb":
            return alg.GenForwardBackward(
                x0[0], self.grad, [self.prox, self.prox2], cost=cost, gamma_param=step,
                linear=self.linear, gamma_update=upd, **common)
        if k == "pogm":
            return alg.POGM(*x0, self.grad, self.prox, cost=cost, beta_param=step,
                            linear=self.linear, **common)
        return alg.Condat(x0[0], x0[1], self.grad, self.prox, self.prox2, cost=cost,
                          linear=self.linear, tau=0.4 * step, sigma=0.5,
                          tau_update=upd, **common)

    def names(self):
        return (["u_final", "v_final"] if "admm" in self.kind else
                ["x_final", "y_final"] if self.kind == "condat" else ["x_final"])


def results(solver, setup):
    return [np.array(getattr(solver, n)) for n in setup.names()]


def settled(setup):
    """Reference solution of the problem."""
    prob, w = setup.prob, setup.w
    scale = 1.5 if setup.kind in ("gfb", "condat") else 1.0
    x = np.zeros(prob.shape)
    for _ in range(4000):
        x = refs.soft(x - prob.ref_grad(x) / prob.lip, scale * w / prob.lip)
    return x


def history_ok(ctx, solver, setup, who):
    got = solver.metrics["m"]
    idx, vals = list(got["index"]), list(got["values"])
    ctx.check(len(idx) == len(vals) == len(np.asarray(got["time"])),
              f"{who}: {len(idx)} indices, {len(vals)} values in the metric history")
    ctx.check(list(zip(idx, vals)) == setup.calls,
              f"{who}: history {list(zip(idx, vals))[:6]}, evaluated {setup.calls[:6]}")


def solvers(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    seed = int(rng.integers(2**31))
    fault = Fault()
    setup = Setup(np.random.default_rng(seed), kind, fault)
    role = setup.roles()[(i // len(KINDS)) % len(setup.roles())]
    n, m = int(rng.integers(2, 12)), int(rng.integers(1, 8))
    at = int(rng.integers(1, n + 1))
    progress = bool(rng.random() < 0.3)
    in_init = bool(rng.random() < 0.2) and kind in (
        "fb", "fb-nofista", "gfb", "pogm", "condat")
    ctx.info(kind=kind, role=role, at=at, n=n, progress=progress, in_init=in_init)
    who = f"{kind}, {role} failing at call {at}"
    keep = [a.tobytes() for a in setup.x0 + [setup.prob.y, setup.w, setup.d]]
    solver = None
    if in_init:
        fault.arm(role, at, new_exc(rng))
        reached = attempt(ctx, lambda: setup.solver(progress, auto_iterate=True), fault,
                          who)
    else:
        solver = mute(setup.solver, progress, auto_iterate=False)
        pre = int(rng.integers(0, 4))
        if pre:
            mute(solver.iterate, max_iter=pre)
        fault.arm(role, at, new_exc(rng))
        reached = attempt(ctx, lambda: solver.iterate(max_iter=n), fault, who)
    if not reached:
        return
    now = [a.tobytes() for a in setup.x0 + [setup.prob.y, setup.w, setup.d]]
    ctx.check(now == keep, f"{who}: arrays of the caller changed")
    if solver is not None:  # the interrupted solver can go on
        more = 600 if kind in ("fb", "fb-nofista", "gfb", "condat", "pogm") else m
        mute(solver.iterate, max_iter=more)
        out = results(solver, setup)
        ctx.check(all(np.all(np.isfinite(v)) for v in out), f"{who}: result {out}")
        history_ok(ctx, solver, setup, who)
        if more == 600:
            ctx.close(out[0], settled(setup), f"{who}: where it converges afterwards",
                      rtol=1e-6, atol=1e-6)
    # the ingredients in another solver
    setup.calls = []
    again = mute(setup.solver, False, auto_iterate=False)
    mute(again.iterate, max_iter=m)
    clean = Setup(np.random.default_rng(seed), kind, Fault())
    twin = mute(clean.solver, False, auto_iterate=False)
    mute(twin.iterate, max_iter=m)
    for a, b in zip(results(again, setup), results(twin, clean)):
        ctx.check(a.tobytes() == b.tobytes(),
                  f"{who}: its ingredients give {a} in another solver, {b} otherwise")
    history_ok(ctx, again, setup, who)
    ctx.check(setup.calls == clean.calls, f"{who}: metrics in another solver")
    ctx.seen(kind, role, at, n, seed)
    ctx.sample()


# -- operators, costs, observers --------------------------------------------
class Term:
    def __init__(self, fn):
        self.cost = fn


class MyCost(CostParent):
    def __init__(self, fn, **kw):
        super().__init__(**kw)
        self._fn = fn

    def _calc_cost(self, *args, **kwargs):
        return self._fn(*args)


def curve(cost):
    """The points that ``plot_cost`` draws."""
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure

    drawn, plot, save = [], Axes.plot, Figure.savefig

    def spy(self, *args, **kwargs):
        lines = plot(self, *args, **kwargs)
        drawn.extend(np.array(line.get_ydata()) for line in lines)
        return lines

    Axes.plot, Figure.savefig = spy, lambda *args, **kwargs: None
    try:
        with quiet():
            cost.plot_cost()
    finally:
        Axes.plot, Figure.savefig = plot, save
    return drawn


def thing(rng, kind, fault):
    """(callback roles, step(k) -> comparable results) of one object."""
    n = int(rng.integers(2, 5))
    mat = rng.standard_normal((n, n))
    pos = mat @ mat.T + np.eye(n)
    xs = [rng.standard_normal(n) for _ in range(12)]
    y = rng.standard_normal(n)
    w = rng.uniform(0.1, 0.5, n)
    op, adj = fault("a", lambda v: mat @ v), fault("b", lambda v: mat.T @ v)
    lop = lin.LinearParent(op, adj)
    if kind == "grad":
        g = GradBasic(y.copy(), op, adj, verbose=False)

        def step(k):
            if k % 3 == 2:
                return g.cost(xs[k])
            if k % 3 == 1:
                g.obs_data = xs[-1 - k].copy()
                return g.obs_data
            g.get_grad(xs[k])
            return g.grad

        return ["a", "b"], step, lambda: [getattr(g, "grad", None), g.obs_data]
    if kind == "combo":
        c = lin.LinearCombo([lop, lin.Identity()], [0.25, 0.5])
        return ["a", "b"], lambda k: (c.op(xs[k]) if k % 2 else
                                      c.adj_op([xs[k], xs[k - 1]])), list
    if kind == "proxcombo":
        ps = [px.ProximityParent(fault(t, lambda v, extra_factor=1.0: v * extra_factor),
                                 fault("c" + t, lambda v, *a, **k: float(v @ v)))
              for t in "ab"]
        c = px.ProximityCombo(ps)
        return ["a", "b", "ca", "cb"], lambda k: (
            c.op([xs[k], xs[k - 1]], extra_factor=0.5) if k % 2
            else c.cost([xs[k], xs[k - 1]])), list
    if kind == "compo":
        c = px.LinearCompositionProx(lop, px.SparseThreshold(lin.Identity(), w))
        return ["a", "b"], lambda k: c.op(xs[k]) if k % 2 else c.cost(xs[k]), list
    if kind == "sparse":
        cls = pick(rng, px.SparseThreshold, px.Ridge)
        c = cls(lop, w)
        return ["a"], lambda k: c.cost(xs[k]) if k % 2 else c.op(xs[k]), list
    if kind == "elastic":
        c = px.ElasticNet(lop, w, w)
        return ["a"], lambda k: c.cost(xs[k]) if k % 2 else c.op(xs[k]), list
    if kind == "cost":
        interval, rnge = int(pick(rng, 1, 1, 2)), int(pick(rng, 2, 4))
        tol = float(pick(rng, 1e-4, 0.5))
        if rng.random() < 0.5:
            c = costObj([Term(fault("a", lambda v, **k: float(v @ v))),
                         Term(fault("b", lambda v, **k: float(np.sum(np.abs(v)))))],
                        verbose=False, cost_interval=interval, test_range=rnge,
                        tolerance=tol)
            roles = ["a", "b"]
        else:
            c = MyCost(fault("a", lambda v: float(v @ v)), verbose=False,
                       cost_interval=interval, test_range=rnge, tolerance=tol)
            roles = ["a"]
        return (roles, lambda k: [c.get_cost(xs[k]), c.cost],
                lambda: [c.cost, *curve(c)])
    if kind == "power":
        pm = PowerMethod(fault("a", lambda v: pos @ v), (n,), auto_run=False,
                         rng=int(rng.integers(99)))

        def step(k):
            pm.get_spec_rad(max_iter=3 + k % 3, extra_factor=1.0 + k % 2)
            return [pm.spec_rad, pm.inv_spec_rad]

        return ["a"], step, lambda: [getattr(pm, "spec_rad", None),
                                     getattr(pm, "inv_spec_rad", None)]
    if kind == "observable":
        log = []
        o = Observable(["s", "t"])
        obs = [fault(t, lambda sig, t=t: log.append((t, sig.signal, sig.k)))
               for t in "abc"]
        for f in obs:
            o.add_observer("s", f)
        o.add_observer("t", obs[1])

        def step(k):
            del log[:]
            return [o.notify_observers("st"[k % 2], k=k)] + [repr(e) for e in log]

        return ["a", "b", "c"], step, list
    if kind == "metric":
        early = bool(rng.random() < 0.5)
        o = MetricObserver("m", fault("a", lambda v: float(np.sum(v))), {"x": "v"}, {},
                           early_stopping=early, wind=4, eps=0.5)

        class Sig:
            pass

        def hist():
            got = o.retrieve_metrics()
            return [got["index"], got["values"], len(got["time"]), o.converge_flag]

        def step(k):
            s = Sig()
            s.x, s.idx = xs[k], k
            o(s)
            return hist()

        return ["a"], step, hist
    raise KeyError(kind)


THINGS = ("grad", "combo", "proxcombo", "compo", "sparse", "elastic", "cost", "power",
          "observable", "metric")


def flat(res):
    if isinstance(res, (list, tuple)) or (
            isinstance(res, np.ndarray) and res.dtype == object):
        return [v for r in res for v in flat(r)]
    return [res]


def equal(ctx, a, b, msg):
    a, b = flat(a), flat(b)
    ok = len(a) == len(b) and all(
        np.array_equal(u, v) if not isinstance(u, str) and u is not None else u == v
        for u, v in zip(a, b))
    ctx.check(ok, msg, got=a, want=b)


def objects(ctx, rng, i):
    kind = THINGS[i % len(THINGS)]
    seed = int(rng.integers(2**31))
    fault = Fault()
    roles, step, state = thing(np.random.default_rng(seed), kind, fault)
    _, twin, _ = thing(np.random.default_rng(seed), kind, Fault())
    plan = [int(v) for v in rng.integers(0, 12, int(rng.integers(3, 10)))]
    fails = set(int(v) for v in rng.integers(0, len(plan), int(rng.integers(1, 4))))
    ctx.info(kind=kind, plan=plan, fails=sorted(fails))
    n = 0
    for j, k in enumerate(plan):
        if j in fails:
            role = pick(rng, *roles)
            fault.arm(role, int(rng.integers(1, 3)), new_exc(rng))
            before = [np.array(v, copy=True) for v in flat(state())
                      if v is not None]
            if not attempt(ctx, lambda: step(k), fault, f"{kind}, {role} failing"):
                twin(k)
                continue
            n += 1
            after = [v for v in flat(state()) if v is not None]
            equal(ctx, after, before, f"{kind}: state changed by a failing call of {role}")
        equal(ctx, step(k), twin(k), f"{kind}: result {j} after a failing call")
    if n:
        ctx.seen(kind, tuple(plan), tuple(sorted(fails)), seed)
        ctx.sample(failures=n)


def reweight(ctx, rng, i):
    """Refused data leave the weights and the printed count alone."""
    n = int(rng.integers(2, 5))
    w = rng.uniform(0.5, 2, n)
    rw, twin = cwbReweight(w.copy(), verbose=True), cwbReweight(w.copy(), verbose=True)
    done = 0
    for _ in range(int(rng.integers(2, 8))):
        x = rng.standard_normal(n)
        if rng.random() < 0.5:
            bad = pick(rng, x[:-1], np.ones((n, n)), [x], "abc", None, np.ones((1, n)))
            before = np.array(rw.weights, copy=True)
            try:
                mute(rw.reweight, bad)
            except (ValueError, TypeError):
                pass
            else:
                ctx.fail(f"data {bad!r} accepted for weights of shape {(n,)}")
            ctx.check(np.array_equal(rw.weights, before), "refused data changed weights")
            done += 1
            continue
        with quiet() as (a, _):
            rw.reweight(x)
        with quiet() as (b, _):
            twin.reweight(x)
        ctx.check(np.array_equal(rw.weights, twin.weights),
                  "weights differ after refused data")
        ctx.check(a.getvalue() == b.getvalue(),
                  f"printed {a.getvalue()!r}, not {b.getvalue()!r}")
    if done:
        ctx.obs("refused calls", done)
        ctx.seen("reweight", n, i)


# -- bad data ---------------------------------------------------------------
O_NAMES = sorted(OPERATORS)


def bad_data(rng, args):
    arr = next((a for a in args if isinstance(a, np.ndarray)), np.ones(3))
    return pick(rng, None, "text", object(), np.ones((2,) * (arr.ndim + 3)),
                np.ones(7919), np.full(arr.shape, "a"), {})


def bad_calls(ctx, rng, i):
    """Operators called with unusable data between good calls."""
    name = O_NAMES[i % len(O_NAMES)]
    seed = int(rng.integers(2**31))
    made = []
    for _ in range(2):
        r = np.random.default_rng(seed)
        arrays, build, inputs = OPERATORS[name](r)
        made.append((mute(build, *arrays), inputs))
    (ops, inputs), (twin, inputs2) = made
    if "lowrank" in name or "low_rank" in name:  # its estimate is documented memory
        return
    fails = 0
    for j in range(int(rng.integers(2, 6))):
        call_seed = int(rng.integers(2**31))
        given = inputs(np.random.default_rng(call_seed))
        given2 = inputs2(np.random.default_rng(call_seed))
        for meth in ops:
            args, args2 = given[meth], given2[meth]
            if not isinstance(args, (list, tuple)):
                args, args2 = (args,), (args2,)
            if rng.random() < 0.5 and args:
                wrong = [bad_data(rng, args)] + list(args[1:])
                before = world()
                try:
                    mute(ops[meth], *wrong)
                except Exception:  # noqa: BLE001
                    fails += 1
                else:
                    return  # accepted: not this monitor's business
                after = world()  # pools of threads come and go: see C35
                ctx.check(all(after[k] == before[k] for k in ("bars", "dir", "errors")),
                          f"{name}.{meth}: left {after}, before {before}")
            got = mute(ops[meth], *args)
            want = mute(twin[meth], *args2)
            equal(ctx, got, want, f"{name}.{meth}: result after refused data")
    if fails:
        ctx.obs("refused calls", fails)
        ctx.seen(name, seed)


SECTIONS = [
    Section("solvers", solvers, 24 * len(KINDS), 300 * len(KINDS)),
    Section("objects", objects, 40 * len(THINGS), 500 * len(THINGS)),
    Section("reweight", reweight, 40, 400),
    Section("bad calls", bad_calls, 6 * len(O_NAMES), 60 * len(O_NAMES)),
]
