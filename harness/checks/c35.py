"""C35: using the library for a long time accumulates nothing."""

import contextlib
import gc
import logging
import os
import tempfile
import threading
import tracemalloc
import warnings
import weakref

import numpy as np
from catalog import FUNCTIONS, OPERATORS
from core import Section
from gens import pick
from modopt.base.observable import MetricObserver, Observable
from modopt.interface import log as mlog
from modopt.math.matrix import PowerMethod
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.reweight import cwbReweight
from modopt.plot.cost_plot import plotCost
from modopt.signal.svd import svd_thresh_coef_fast

RULE = (
    "A case repeats one use of the library (a function, the methods of an operator, "
    "the iterations of a solver, logs, plots, notifications) in rounds and counts "
    "live memory, open files, threads, log handlers and temporary files after each; "
    "or drops an object and asks whether its data went with it.  Non-trivial: at least "
    "one call was made."
)
ASSUMPTIONS = [
    "growth is reported when it continues through five rounds, each twice as long, after the warm-up; less "
    "than 160 bytes per call (a recorded number) is not",
]


gc.collect()
gc.freeze()  # what was imported stays, and need not be looked at again


class Null:
    """A stream that keeps nothing."""

    def write(self, text):
        return len(text)

    def flush(self):
        pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(Null()), contextlib.redirect_stderr(Null()):
        yield


def resources():
    return {
        "open files": len(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(),
        "log handlers": sum(len(getattr(v, "handlers", ())) for v in
                            logging.Logger.manager.loggerDict.values()),
        "temporary files": len(os.listdir(tempfile.gettempdir())),
        "warning filters": len(warnings.filters),
    }


def settle(*args, **kwargs):
    """As ``watch``, with a folder of its own for temporary files."""
    old = tempfile.tempdir
    with tempfile.TemporaryDirectory() as root:
        tempfile.tempdir = root
        try:
            return watch(*args, **kwargs)
        finally:
            tempfile.tempdir = old


def watch(ctx, what, step, calls, per_call=160, rounds=5):
    """Run rounds of ``calls`` steps, each twice as long; complain of growth in all."""
    for _ in range(calls // 2 + 2):
        step()
    gc.collect()
    tracemalloc.start()
    try:
        for _ in range(3):
            step()
        gc.collect()
        size, left = tracemalloc.get_traced_memory()[0], resources()
        grown, more = [], {k: [] for k in left}
        for k in range(rounds):
            if k:
                calls *= 2
            for _ in range(calls):
                step()
            gc.collect()
            now, res = tracemalloc.get_traced_memory()[0], resources()
            grown.append((now - size) / calls)
            for k, old in left.items():
                more[k].append(res[k] - old)
            size, left = now, res
            ctx.obs("rounds")
            ctx.obs("calls", calls)
            if grown[-1] < per_call and not any(v[-1] > 0 for v in more.values()):
                break
    finally:
        tracemalloc.stop()
    ctx.check(min(grown) < per_call, f"{what}: memory grows by "
              f"{min(grown):.0f} bytes per call in every round", growth=grown)
    for k, v in more.items():
        ctx.check(min(v) <= 0, f"{what}: {k} grow in every round: {v}")
    return grown


def calls(ctx, rng, i):
    names = [*FUNCTIONS, *OPERATORS]
    name = names[i % len(names)]
    ctx.info(name=name)
    n = 12
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        if name in FUNCTIONS:
            arrays, call = FUNCTIONS[name](rng)
            other = rng.random() < 0.5

            def step():
                if other:  # other shapes and options each time
                    new, fn = FUNCTIONS[name](rng)
                    fn(*new)
                else:
                    call(*arrays)
        else:
            arrays, build, inputs = OPERATORS[name](rng)
            methods = build(*arrays)
            other = rng.random() < 0.5

            def step():
                nonlocal methods, inputs
                if other:
                    new, make_op, inputs = OPERATORS[name](rng)
                    methods = make_op(*new)
                for key, args in inputs(rng).items():
                    methods[key](*args)
        grown = settle(ctx, name, step, n)
    ctx.seen("calls", name, i)
    ctx.sample(name=name, growth=grown)


def problem(rng, n=400):
    d = rng.uniform(0.5, 1.0, n)
    y = rng.standard_normal(n)
    return y, GradBasic(y, lambda x: d * x, lambda x: d * x, verbose=False)


def make(kind, rng, grad, n=400, **kw):
    x0 = rng.standard_normal(n)
    prox = px.SparseThreshold(lin.Identity(), np.full(n, 0.1))
    if kind == "fb":
        return alg.ForwardBackward(x0, grad, prox, beta_param=0.5, auto_iterate=False,
                                   **kw)
    if kind == "gfb":
        return alg.GenForwardBackward(x0, grad, [prox, px.Positivity()], gamma_param=0.5,
                                      auto_iterate=False, **kw)
    if kind == "pogm":
        return alg.POGM(x0, x0.copy(), x0.copy(), x0.copy(), grad, prox, beta_param=0.5,
                        auto_iterate=False, **kw)
    if kind == "condat":
        return alg.Condat(x0, x0.copy(), grad, px.Positivity(), prox, tau=0.3, sigma=0.5,
                          auto_iterate=False, **kw)
    if kind == "admm":
        y = rng.standard_normal(n)
        return alg.ADMM(x0, x0.copy(), x0.copy(), lin.Identity(), lin.Identity(), y,
                        (lambda init, obs: obs, lambda init, obs: 0.5 * obs), **kw)
    cls = pick(rng, alg.VanillaGenericGradOpt, alg.AdaGenericGradOpt,
               alg.RMSpropGradOpt, alg.MomentumGradOpt, alg.ADAMGradOpt, alg.SAGAOptGradOpt)
    return cls(x0, grad, prox, eta=0.01, **kw)


def solvers(ctx, rng, i):
    """Iterating keeps no history but the recorded numbers."""
    kinds = ("fb", "gfb", "pogm", "condat", "admm", "gd")
    kind = kinds[i % len(kinds)]
    _, grad = problem(rng)
    kw = {"progress": False, "verbose": False}
    metrics = bool(rng.integers(2)) and kind != "admm"
    if metrics:
        kw["metrics"] = {"m": {"metric": lambda x: float(np.sum(x)), "mapping":
                               {"x_new": "x"}, "cst_kwargs": {}, "early_stopping": False}}
        kw["metric_call_period"] = 1
        if kind in ("fb", "gfb", "pogm"):
            kw["linear"] = lin.Identity()
    if kind != "admm":
        cost = bool(rng.integers(2))
        kw["cost"] = costObj([grad], tolerance=-1.0, verbose=False) if cost else None
    with quiet():
        s = make(kind, rng, grad, **kw)
        ctx.info(kind=kind, solver=type(s).__name__, metrics=metrics)
        grown = settle(ctx, type(s).__name__, lambda: s.iterate(max_iter=12), 6,
                       per_call=12 * 400)
    ctx.seen("solvers", type(s).__name__, i)
    ctx.sample(growth=grown)


def others(ctx, rng, i):
    kind = ("power", "log", "plot", "observers", "svd", "reweight", "rebuild",
            "observer_objects")[i % 8]
    n = 12
    ctx.info(kind=kind)
    with tempfile.TemporaryDirectory() as root, quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "power":
            m = rng.standard_normal((20, 20))
            pm = PowerMethod(lambda x: m @ x, (20,), auto_run=False, verbose=False)
            step = pm.get_spec_rad
        elif kind == "log":
            def step():
                lg = mlog.set_up_log(os.path.join(root, "run"), verbose=False)
                lg.info("x")
                mlog.close_log(lg, verbose=False)
        elif kind == "plot":
            n = 3

            def step():
                plotCost([3.0, 2.0, 1.0], os.path.join(root, "p"))
        elif kind == "observers":
            sub = Observable(["a", "b"])

            def step():
                obs = [lambda s, **k: None for _ in range(3)]
                for o in obs:
                    sub.add_observer("a", o)
                sub.notify_observers("a", v=np.ones(100))
                for o in obs:
                    sub.remove_observer("a", o)
        elif kind == "observer_objects":
            ob = MetricObserver("m", lambda x: float(x[0]), {"x_new": "x"}, {}, False)

            class Alg:
                x_new, idx = None, 1

            a = Alg()

            def step():
                a.x_new = np.ones(200)
                a.idx += 1
                ob(a)
        elif kind == "svd":
            mat = rng.standard_normal((30, 20))
            low = px.LowRankMatrix(0.1, initial_rank=2)

            def step():
                svd_thresh_coef_fast(mat, 1.0, n_vals=3)
                low.op(rng.standard_normal((4, 6, 6)))
                px.LowRankMatrix(0.1).op(rng.standard_normal((4, 6, 6)))
        elif kind == "reweight":
            rw = cwbReweight(np.ones(200))

            def step():
                rw.reweight(rng.standard_normal(200))
        else:
            n = 5

            def step():
                _, grad = problem(rng)
                s = make(pick(rng, "fb", "gfb", "pogm", "condat", "gd"), rng, grad,
                         cost=None, progress=False)
                s.iterate(max_iter=3)
        grown = settle(ctx, kind, step, n, per_call=5e4 if kind == "plot" else 260)
    ctx.seen("others", kind, i)
    ctx.sample(kind=kind, growth=grown)


def released(ctx, rng, i):
    """What the user drops is freed: no hidden references to objects or data."""
    refs = {}
    if i % 2:
        names = [*FUNCTIONS, *OPERATORS]
        name = names[i // 2 % len(names)]
        with warnings.catch_warnings(), quiet():
            warnings.simplefilter("ignore")
            if name in FUNCTIONS:
                arrays, call = FUNCTIONS[name](rng)
                arrays = [np.array(a) for a in arrays]
                res = call(*arrays)
            else:
                arrays, build, inputs = OPERATORS[name](rng)
                arrays = [np.array(a) for a in arrays]
                call = build(*arrays)
                for key, args in inputs(rng).items():
                    args = [np.array(a) for a in args]
                    res = call[key](*args)
                    for k, a in enumerate(args):
                        refs[f"argument {k} of {key}"] = weakref.ref(a)
                    if isinstance(res, np.ndarray):
                        refs[f"result of {key}"] = weakref.ref(res)
                key = args = a = None
            for k, a in enumerate(arrays):
                refs[f"array {k}"] = weakref.ref(a)
            if isinstance(res, np.ndarray):
                refs["result"] = weakref.ref(res)
            a = res = call = arrays = build = inputs = None
    else:
        name = ("fb", "gfb", "pogm", "condat", "gd")[i // 2 % 5]
        y, grad = problem(rng)
        cost = costObj([grad], verbose=False) if rng.random() < 0.5 else None

        def metric(x):
            return float(np.sum(x))

        with quiet():
            kw = {"linear": lin.Identity()} if name in ("fb", "gfb", "pogm") else {}
            s = make(name, rng, grad, cost=cost, **kw, progress=False, metric_call_period=1,
                     metrics={"m": {"metric": metric, "mapping": {"x_new": "x"},
                                    "cst_kwargs": {}, "early_stopping": False}})
            s.iterate(max_iter=int(rng.integers(1, 9)))
        x = s.x_final
        refs = {"solver": weakref.ref(s), "gradient": weakref.ref(grad),
                "observed data": weakref.ref(y), "solution": weakref.ref(x)}
        if cost is not None:
            refs["cost"] = weakref.ref(cost)
        s = grad = y = x = cost = metric = None
    for _ in range(4):  # object arrays hide a cycle from one collection
        gc.collect()
    ctx.info(name=name)
    for key, ref in refs.items():
        ctx.check(ref() is None, f"{name}: {key} is still alive after it was dropped")
    ctx.seen("released", name, i)


SECTIONS = [
    Section("calls", calls, 90, 800),
    Section("solvers", solvers, 8, 80),
    Section("others", others, 8, 80),
    Section("released", released, 120, 1200),
]
