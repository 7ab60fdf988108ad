"""C13: metrics are taken when, on what and as often as asked; early stopping."""

import time

import numpy as np
from checks.c12 import KINDS, StopAt, build
from core import Section
from gens import pick, span
from modopt.base.observable import MetricObserver
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from optkit import Problem, regulariser
from util import mute, quiet

RULE = (
    "A case is a history of iterate() calls on a solver of any kind with 1-3 metrics "
    "(random values, period, early stopping), whose calls, arguments, recorded "
    "indices/values and stopping iteration are compared to a model of the contract.  "
    "Non-trivial: at least two metric evaluations."
)
ASSUMPTIONS = ["early stopping: window 6, relative change of the two half means < 1e-3; "
               "it ends the run at the iteration that follows"]


def window_flag(values, wind=6, eps=1e-3):
    """None: not enough values."""
    if len(values) < wind:
        return None
    old = np.mean(values[-wind:-(wind // 2)])
    cur = np.mean(values[-(wind // 2):])
    with np.errstate(all="ignore"):
        return bool(np.abs(old - cur) / np.abs(old) < eps)


def series(rng, n):
    kind = rng.integers(5)
    if kind == 0:
        return rng.standard_normal(n) + 5
    if kind == 1:  # settles
        k = int(rng.integers(1, 20))
        return 3 + np.where(np.arange(n) < k, rng.standard_normal(n), 0)
    if kind == 2:  # settles smoothly
        return 2 + np.exp(-np.arange(n) * rng.uniform(0.2, 1.5))
    if kind == 3:  # settles, then moves again
        return np.where((np.arange(n) // int(rng.integers(5, 9))) % 2 == 0, 1.0,
                        rng.uniform(1, 9, n))
    return np.zeros(n) + float(pick(rng, 0.0, 4.0))


class AdmmCost:
    """A cost function of ADMM that stays at its value from ``at - 3`` on."""

    def __init__(self, at):
        self.at, self.n = at, 0

    def __call__(self, u):
        self.n += 1
        k = self.n if self.at is None else min(self.n, self.at - 3)
        return 1e6 * (1 + 0.1 * k)


def history(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    period = pick(rng, 1, 1, 1, 2, 3, 5, 7, None)
    n_met = int(rng.integers(1, 4))
    log = {}
    mets, table = {}, {}
    for j in range(n_met):
        name = f"m{j}"
        table[name] = series(rng, 500)
        log[name] = []

        def fn(var, ref, name=name):
            log[name].append((np.array(var, copy=True), ref))
            return float(table[name][len(log[name]) - 1])

        mets[name] = {"metric": fn, "mapping": {"x_new": "var", "idx": None},
                      "cst_kwargs": {"ref": f"ref{j}"},
                      "early_stopping": bool(rng.random() < 0.5)}
    early = {k: m["early_stopping"] for k, m in mets.items()}
    at = pick(rng, None, None, int(rng.integers(1, 20)))
    cost = StopAt(at, []) if at is not None or rng.random() < 0.4 else None
    kw = {"metric_call_period": period}
    if "admm" in kind:  # costs of its own, tested every four evaluations
        cost, at = None, pick(rng, None, 4, 8, 16)
        if at is not None or rng.random() < 0.4:
            cost = AdmmCost(at)
            kw.update(cost_funcs=(cost, lambda v: 1.0), tau=0.0)
    if period == 5 and rng.random() < 0.7:
        kw["metric_call_period"] = "default"
    events = []
    seed = int(rng.integers(2**31))
    s, _ = build(np.random.default_rng(seed), kind, events,
                 None if "admm" in kind else cost, metrics=mets, **kw)
    plan = [span(rng, 1, 21, 150) for _ in range(int(rng.integers(1, 4)))]
    ctx.info(kind=kind, period=period, plan=plan, early=early, converge_at=at)
    model = {k: {"index": [], "values": []} for k in mets}
    flag = {k: False for k in mets}
    n_cost, total = 0, 0
    held, began = [], time.time()
    for n in plan:
        stop = None
        for k in range(n):
            conv = any(flag.values())
            if cost is not None and not conv:
                n_cost += 1
                conv = at is not None and n_cost >= at and (
                    "admm" not in kind or n_cost % 4 == 0)
            if period is not None and (k % period == 0 or k == n - 1 or conv):
                for name, m in model.items():
                    m["index"].append(k)
                    m["values"].append(float(table[name][len(m["values"])]))
                    if early[name]:
                        f = window_flag(m["values"])
                        flag[name] = flag[name] if f is None else f
            total += 1
            if conv:
                stop = k
                break
        last = n - 1 if stop is None else stop
        mute(s.iterate, max_iter=n)
        if cost is not None:
            # whether the cost is also taken in the iteration that stops is open
            ctx.check(cost.n - n_cost in (0, 1), f"{kind}: {cost.n} costs, not {n_cost}")
            n_cost = cost.n
        ctx.check(s.idx == last, f"{kind}: run ended at iteration {s.idx}, not {last}")
        ctx.check(bool(s.converge) == (stop is not None), f"{kind}: converge flag")
        ctx.check(set(s.metrics) == set(mets), f"metrics returned: {set(s.metrics)}")
        for name, m in model.items():
            got = s.metrics[name]
            ctx.check(list(got["index"]) == m["index"],
                      f"{kind}: {name} taken at {got['index']}, not {m['index']}")
            ctx.check(list(got["values"]) == m["values"],
                      f"{kind}: values of {name} {got['values']} != {m['values']}")
            times = np.asarray(got["time"])
            ctx.check(times.shape == (len(m["index"]),), "one date per evaluation")
            ctx.check(times.size == 0 or times[0] == 0.0, "dates start from 0")
            # (a clock set back or forward by less than an hour is not our business)
            ctx.check(np.all(np.abs(times) < time.time() - began + 3600),
                      f"{kind}: dates of {name}", times=times)
            ctx.check(all(r == "ref" + name[1:] for _, r in log[name]),
                      "constant arguments of another metric")
            ctx.obs("metric evaluations", len(m["index"]))
            held.append((got, list(m["index"]), list(m["values"]), times.copy()))
    for got, index, vals, times in held:  # of earlier runs too
        ctx.check(list(got["index"]) == index and list(got["values"]) == vals
                  and np.array_equal(got["time"], times),
                  f"{kind}: a history handed out earlier changed afterwards")
    ctx.seen(kind, period, tuple(plan), tuple(early.items()), at, i)
    ctx.sample(index=model["m0"]["index"])


def values(ctx, rng, i):
    """The variables shown are those of the iteration, through the linear operator."""
    kind = pick(rng, "fb", "gfb", "pogm", "condat", "gd")
    prob = Problem(rng, (int(rng.integers(2, 6)),), bool(rng.random() < 0.3),
                   lo=0.4, hi=1.3)
    reg = regulariser(rng, prob.shape, prob.cplx, kinds=("l1w", "ridge"))
    mat = prob.rnd(prob.shape[0], int(rng.integers(1, 6)))
    lop = lin.LinearParent(lambda v: mat @ v, lambda v: mat.conj().T @ v)
    rows, seen = [], []

    class Watch:
        def get_cost(self, x, *args):
            seen.append([np.array(x)] + [np.array(a) for a in args])
            return False

    def met(**kwargs):
        rows.append({k: np.array(v, copy=True) for k, v in kwargs.items()})
        return 0.0

    rename = {"x_new": "first", "idx": "it"}
    if kind == "condat":
        rename["y_new"] = "second"
    rename["z_new" if kind != "condat" else "nothing"] = None
    if kind == "gd":
        rename = {"x_new": "first", "idx": "it", "dir_grad": None}
    mets = {"m": {"metric": met, "mapping": rename, "cst_kwargs": {"k": 3},
                  "early_stopping": False}}
    x0 = prob.x0()
    g = prob.grad()
    period = int(rng.integers(1, 5))
    n = span(rng, 1, 15, 150)
    kw = {"metrics": mets, "metric_call_period": period, "progress": False,
          "cost": Watch()}
    adj = lop.adj_op
    if kind == "fb":
        s = mute(alg.ForwardBackward, x0, g, reg.obj, linear=lop, beta_param=0.4,
                 auto_iterate=False, **kw)
    elif kind == "gfb":
        s = mute(alg.GenForwardBackward, x0, g, [reg.obj, reg.obj], linear=lop,
                 gamma_param=0.4, auto_iterate=False, **kw)
    elif kind == "pogm":
        if rng.random() < 0.5:  # without operator, the variable itself
            lop, adj = None, lambda v: v
        s = mute(alg.POGM, x0.copy(), x0.copy(), x0.copy(), x0.copy(), g, reg.obj,
                 linear=lop, beta_param=0.4, auto_iterate=False, **kw)
    elif kind == "condat":
        q = prob.rnd(3, prob.shape[0]) * 0.3
        lop = lin.LinearParent(lambda v: q @ v, lambda v: q.conj().T @ v)
        rd = regulariser(rng, (3,), prob.cplx, kinds=("l1w",))
        prim = regulariser(rng, prob.shape, prob.cplx, kinds=("none",))
        s = mute(alg.Condat, x0, prob.rnd(3), g, prim.obj, rd.obj, linear=lop, tau=0.2,
                 sigma=0.5, auto_iterate=False, **kw)
        adj = lambda v: v  # noqa: E731
    else:
        s = mute(alg.VanillaGenericGradOpt, x0, g, reg.obj, eta=0.2, **kw)
        adj = lambda v: v  # noqa: E731
    mute(s.iterate, max_iter=n)
    want = [k for k in range(n) if k % period == 0 or k == n - 1]
    ctx.info(kind=kind, period=period, n_iter=n, rows=len(rows))
    ctx.check([int(r["it"]) for r in rows] == want, f"{kind}: taken at the wrong times")
    ctx.check(len(seen) == n, "cost not evaluated at every iteration")
    for r in rows:
        k = int(r["it"])
        ctx.close(r["first"], adj(seen[k][0]), f"{kind}: x_new shown at {k}", rtol=1e-12)
        if kind == "condat":
            ctx.close(r["second"], seen[k][1], f"{kind}: y_new shown at {k}", rtol=1e-12)
        ctx.check(int(r["k"]) == 3, "constant argument lost")
        ctx.check(set(r) == {v for v in rename.values() if v} | {"k"},
                  f"arguments of the metric: {sorted(r)}")
    ctx.seen("values", kind, period, n, i)
    ctx.sample()


def observer(ctx, rng, i):
    """The stand-alone metric observer with any window and level."""
    wind = int(rng.integers(2, 12))
    eps = float(10.0 ** rng.uniform(-4, 0))
    early = bool(rng.random() < 0.8)
    n = span(rng, 1, 39, 250)
    vals = series(rng, n)
    obs = MetricObserver("name", lambda v: float(vals[v]), {"p": "v", "q": None}, {},
                         early_stopping=early, wind=wind, eps=eps)

    class Sig:
        pass

    ctx.info(wind=wind, eps=eps, early=early, values=vals)
    want = False
    for k in range(n):
        sig = Sig()
        sig.p, sig.q, sig.idx = k, None, 10 * k
        obs(sig)
        f = window_flag(list(vals[:k + 1]), wind, eps)
        if early and f is not None:
            want = f
        ctx.check(bool(obs.converge_flag) == want,
                  f"flag {obs.converge_flag} after {k + 1} values, expected {want}")
    res = obs.retrieve_metrics()
    ctx.check(list(res["values"]) == [float(v) for v in vals], "values recorded")
    ctx.check(list(res["index"]) == [10 * k for k in range(n)], "indices recorded")
    again = obs.retrieve_metrics()
    ctx.check(np.array_equal(np.asarray(res["time"]), np.asarray(again["time"])),
              "retrieving twice gives other dates")
    ctx.seen("observer", wind, eps, n, i)


def rejects(ctx, rng, i):
    prob = Problem(rng, (3,))
    reg = regulariser(rng, (3,), kinds=("l1",))
    m = {"a": {"metric": lambda v: 0.0, "mapping": {"x_new": "v"}, "cst_kwargs": {},
               "early_stopping": False}}
    bad = pick(rng, [m], "metric", 3)
    g = prob.grad()
    with quiet():
        ctx.raises(TypeError, lambda: alg.ForwardBackward(
            prob.x0(), g, reg.obj, metrics=bad, linear=lin.Identity()), "metrics no dict")
        ctx.raises(ValueError, lambda: alg.ForwardBackward(
            prob.x0(), g, reg.obj, metrics=m), "metrics without linear operator")
        ctx.raises(ValueError, lambda: alg.GenForwardBackward(
            prob.x0(), g, [reg.obj], metrics=m), "metrics without linear operator")
    ctx.seen("rejects", str(type(bad)))


SECTIONS = [
    Section("history", history, 700, 8000),
    Section("values", values, 250, 2500),
    Section("observer", observer, 400, 4000),
    Section("rejects", rejects, 6, 12),
]
