"""C17: what one object computes does not depend on what else is running."""

import os
import random
import sys
import threading
import warnings

import numpy as np
from catalog import FUNCTIONS, OPERATORS
from checks.c12 import KINDS, build
from checks.c16 import leaves
from core import Section
from gens import pick, unlock, weary
from modopt.opt.cost import costObj
from optkit import Recorder
from util import mute, quiet

RULE = (
    "A case runs functions, operators or solvers alone, then again after, between or "
    "concurrently with other calls and other instances, and compares all the results "
    "and recorded histories of the two executions; the process-wide state (random "
    "generators, floating-point error state, warnings filters, working directory, "
    "environment) is compared before and after.  Non-trivial: something else ran in "
    "between."
)
F_NAMES, O_NAMES = sorted(FUNCTIONS), sorted(OPERATORS)
CPU_NAMES = [n for n in O_NAMES if n != "wavelet_batch"]


def values(res):
    return [np.array(r, copy=True) for r in leaves(res)]


def same(ctx, a, b, who):
    ctx.check(len(a) == len(b), f"{who}: number of results")
    for u, v in zip(a, b):
        ctx.close(u, v, who, rtol=1e-12)


def process_state(reset=True):
    if reset:  # a state of our own, in which any change shows
        np.seterr(divide="ignore", over="ignore", under="ignore", invalid="warn")
        random.seed(4711)
    return {
        "numpy random": [repr(k) for k in np.random.get_state(legacy=False)[
            "state"].values()] + [repr(np.random.get_state(legacy=False)["gauss"])],
        "python random": hash(random.getstate()),
        "error state": tuple(sorted(np.geterr().items())),
        "error callback": np.geterrcall(),
        "print options": repr(np.get_printoptions()),
        "directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "warnings": len(warnings.filters),
        "recursion limit": sys.getrecursionlimit(),
        "umask": current_umask(),
        "threads": threading.active_count(),
    }


def current_umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


def compare_state(ctx, before, who):
    after = process_state(reset=False)
    np.seterr(all="ignore")
    for key, val in before.items():
        if key == "threads":  # the batch transform may keep pool threads
            continue
        ctx.check(after[key] == val, f"{who} changed the {key} of the process",
                  kind="state components compared", before=val, after=after[key])


def functions(ctx, rng, i):
    """Functions: the same call gives the same result whatever came before."""
    name = F_NAMES[i % len(F_NAMES)]
    arrays, call = FUNCTIONS[name](rng)
    ctx.info(function=name)
    before = process_state()
    first = values(mute(call, *arrays))
    compare_state(ctx, before, name)
    for _ in range(int(rng.integers(1, 5))):
        other = pick(rng, *F_NAMES)
        arr2, call2 = FUNCTIONS[other](rng)
        mute(call2, *arr2)
        np.random.seed(int(rng.integers(2**31)))
        np.random.standard_normal(3)
    same(ctx, values(mute(call, *arrays)), first, f"{name} called again")
    for a in arrays:  # the caller changes the arrays in place
        if isinstance(a, np.ndarray) and a.dtype.kind in "fc":
            unlock(a)[...] *= 1.25
    got = values(mute(call, *arrays))
    same(ctx, got, values(mute(call, *[np.array(a) if isinstance(a, np.ndarray) else a
                                       for a in arrays])),
         f"{name} on arrays changed in place")
    ctx.seen(name, int(rng.integers(2**31)))
    ctx.sample()


def operators(ctx, rng, i):
    """Operators: no memory of earlier calls, none shared between instances."""
    name = O_NAMES[i % len(O_NAMES)]
    arrays, make, inputs = OPERATORS[name](rng)
    arrays2, make2, inputs2 = OPERATORS[name](rng)
    ctx.info(operator=name)
    before = process_state()
    used, other = mute(make, *arrays), mute(make2, *arrays2)
    calls, n_other, buffers = [], 0, {}

    def use():
        args = inputs(rng)
        key = pick(rng, *sorted(args))
        mute(used[key], *args[key])

    weary(ctx, rng, use, rate=0.05)
    for _ in range(int(rng.integers(3, 8))):
        if rng.random() < 0.4:
            args2 = inputs2(rng)
            key = pick(rng, *sorted(args2))
            mute(other[key], *args2[key])
            n_other += 1
            continue
        if calls and rng.random() < 0.3:
            key, args, _ = calls[int(rng.integers(len(calls)))]
        else:
            args = inputs(rng)
            key = pick(rng, *sorted(args))
            args = args[key]
            if key in buffers and rng.random() < 0.6:  # arrays that it has seen before
                for old, new in zip(buffers[key], args):
                    unlock(old)[...] = new
                args = buffers[key]
            buffers[key] = args
        calls.append((key, [np.array(a) for a in args],
                      values(mute(used[key], *args))))
    for key, args, res in calls:
        fresh = mute(make, *arrays)  # an instance that has seen nothing
        same(ctx, res, values(mute(fresh[key], *args)),
             f"{name}.{key}: a used instance and a fresh one")
        ctx.obs("operator calls compared")
    compare_state(ctx, before, name)
    ctx.seen(name, len(calls), n_other, int(rng.integers(2**31)))
    ctx.sample(calls=len(calls), others=n_other)


class Spread:
    """An operator whose cost depends on the iterate."""

    def cost(self, x, *args, **kwargs):
        return float(np.sum(np.abs(x) ** 2)) + 1.0


def make(seed, kind, shared=None, auto=False):
    rng = np.random.default_rng(seed)
    rec = Recorder("x_new", "idx")
    metrics = rec.metrics() if shared is None else shared
    extra = {}
    if kind == "fb":
        extra = pick(rng, {}, {}, {"a_cd": 5.0},
                     {"restart_strategy": "adaptive-ii", "xi_restart": 0.9},
                     {"restart_strategy": "greedy", "xi_restart": 0.9, "min_beta": 0.1,
                      "s_greedy": 1.1})
    cost = None
    if auto and "admm" not in kind:  # a cost object of its own, stopping at times
        cost = costObj([Spread()], tolerance=float(pick(rng, 1e-30, 1e-2, 1e-1)),
                       test_range=4, verbose=False, cost_interval=2)
    s, _ = build(rng, kind, [], cost, metrics=metrics, **extra)
    rec.costs = cost
    return s, rec


def outcome(s, rec):
    res = [np.array(s.x_final)]
    for name in ("y_final", "v_final"):
        if hasattr(s, name):
            res.append(np.array(getattr(s, name)))
    res += [r["x_new"] for r in rec.rows] if rec else []
    res.append(np.array([float(s.idx), float(bool(s.converge))]))
    if rec and rec.costs is not None:
        res.append(np.array(float(rec.costs.cost)))
    return res


def interleaved(ctx, rng, i):
    """Solvers stepped in turns give what they give alone."""
    n = int(rng.integers(2, 5))
    first = KINDS[i % len(KINDS)]
    kinds = [first] + [pick(rng, first, *KINDS) for _ in range(n - 1)]
    seeds = [int(rng.integers(2**31)) for _ in range(n)]
    plans = [[int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4)))]
             for _ in range(n)]
    ctx.info(kinds=kinds, plans=plans)
    alone = []
    before = process_state()
    for kind, seed, plan in zip(kinds, seeds, plans):
        s, rec = make(seed, kind, auto=True)
        for k in plan:
            mute(s.iterate, max_iter=k)
        alone.append(outcome(s, rec))
    compare_state(ctx, before, "a solver")
    live = [make(seed, kind, auto=True) for kind, seed in zip(kinds, seeds)]
    todo = [list(p) for p in plans]
    order = []
    while any(todo):
        j = pick(rng, *[k for k in range(n) if todo[k]])
        mute(live[j][0].iterate, max_iter=todo[j].pop(0))
        order.append(j)
    for j in range(n):
        same(ctx, outcome(*live[j]), alone[j], f"{kinds[j]} interleaved with others")
    ctx.seen(tuple(kinds), tuple(order))
    ctx.sample(order=order)


def threaded(ctx, rng, i):
    """Solvers and operators running in threads give what they give alone."""
    n = int(rng.integers(3, 7))
    first = KINDS[i % len(KINDS)]
    kinds = [first] + [pick(rng, first, *KINDS, "operator", "function")
                       for _ in range(n - 1)]
    seeds = [int(rng.integers(2**31)) for _ in range(n)]
    steps = [int(rng.integers(4, 15)) for _ in range(n)]
    ctx.info(kinds=kinds, steps=steps)

    def job(j):
        r = np.random.default_rng(seeds[j])
        if kinds[j] == "operator":
            arrays, mk, inputs = OPERATORS[pick(r, *CPU_NAMES)](r)
            ops = mk(*arrays)

            def run(trace):
                res = []
                for _ in range(4):
                    args = inputs(r)
                    for key in sorted(args):
                        trace.append(j)
                        res += values(ops[key](*args[key]))
                return res
        elif kinds[j] == "function":
            arrays, call = FUNCTIONS[pick(r, *F_NAMES)](r)

            def run(trace):
                trace.append(j)
                return values(call(*arrays)) + values(call(*arrays))
        else:
            s, rec = make(seeds[j], kinds[j], auto=True)

            def run(trace):
                left = steps[j]
                while left > 0:
                    trace.append(j)
                    s.iterate(max_iter=min(2, left))
                    left -= 2
                return outcome(s, rec)
        return run

    with quiet():
        alone = [job(j)([]) for j in range(n)]
        runs = [job(j) for j in range(n)]
        trace, results, errors = [], [None] * n, []
        gate = threading.Barrier(n)

        def body(j):
            gate.wait()
            try:
                results[j] = runs[j](trace)
            except BaseException as err:  # noqa: BLE001
                errors.append((kinds[j], repr(err)))

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=body, args=(j,)) for j in range(n)]
            for t in threads:
                t.start()
            for t in threads:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
    ctx.check(not errors, f"in threads: {errors}")
    for j in range(n):
        same(ctx, results[j], alone[j], f"{kinds[j]} in a thread")
    turns = sum(a != b for a, b in zip(trace, trace[1:]))
    ctx.obs("thread switches observed", turns)
    if turns >= n:  # really interleaved
        ctx.seen(tuple(trace))
    ctx.sample(trace=trace[:40], turns=turns)


def same_function(ctx, rng, i):
    """One function called from several threads with arrays of the same shapes."""
    name = F_NAMES[i % len(F_NAMES)]
    arrays, call = FUNCTIONS[name](rng)
    n, reps = 4, 6
    scales = 1 + np.arange(n) * 0.25
    args = [[a * c if isinstance(a, np.ndarray) and a.dtype.kind in "fc" else a
             for a in arrays] for c in scales]
    ctx.info(function=name)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = [values(call(*a)) for a in args]
        got, errors, order = [[] for _ in range(n)], [], []
        gate = threading.Barrier(n)

        def body(j):
            gate.wait()
            try:
                for _ in range(reps):
                    order.append(j)
                    got[j].append(values(call(*args[j])))
            except BaseException as err:  # noqa: BLE001
                errors.append(repr(err))

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=body, args=(j,)) for j in range(n)]
            for t in threads:
                t.start()
            for t in threads:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
    ctx.check(not errors, f"{name} in threads: {errors}")
    for j in range(n):
        for res in got[j]:
            same(ctx, res, want[j], f"{name} in a thread")
    turns = sum(a != b for a, b in zip(order, order[1:]))
    ctx.obs("thread switches observed", turns)
    if turns >= n:
        ctx.seen(name, tuple(order))
    ctx.sample(order=order)


class Count:
    """A metric whose value is told by the solver's own iterate."""

    def __call__(self, x_new):
        return float(np.sum(np.abs(x_new)))


def shared_metrics(ctx, rng, i):
    """One metrics dictionary given to several solvers: separate histories."""
    n = int(rng.integers(2, 4))
    kinds = [KINDS[i % len(KINDS)]] + [pick(rng, *KINDS) for _ in range(n - 1)]
    seeds = [int(rng.integers(2**31)) for _ in range(n)]
    plan = [int(rng.integers(2, 9)) for _ in range(n)]
    early = bool(rng.random() < 0.3)

    def fresh():
        return {"m": {"metric": Count(), "mapping": {"x_new": "x_new"},
                      "cst_kwargs": {}, "early_stopping": early}}

    ctx.info(kinds=kinds, plan=plan, early=early)
    alone = []
    for kind, seed, k in zip(kinds, seeds, plan):
        s, _ = make(seed, kind, shared=fresh())
        mute(s.iterate, max_iter=k)
        alone.append((list(s.metrics["m"]["index"]), list(s.metrics["m"]["values"]),
                      s.idx))
    one = fresh()
    live = [make(seed, kind, shared=one)[0] for kind, seed in zip(kinds, seeds)]
    for j in rng.permutation(n):
        mute(live[j].iterate, max_iter=plan[j])
    for j in range(n):
        got = live[j].metrics["m"]
        ctx.check(list(got["index"]) == alone[j][0] and live[j].idx == alone[j][2],
                  f"{kinds[j]}: indices {list(got['index'])}, alone {alone[j][0]}")
        ctx.close(np.array(got["values"]), np.array(alone[j][1]),
                  f"{kinds[j]}: history of a shared metric", rtol=1e-12)
    ctx.seen(tuple(kinds), tuple(plan))
    ctx.sample()


def defaults(ctx, rng, i):
    """Options given to one instance never become the defaults of the next."""
    kind = KINDS[i % len(KINDS)]
    seed = int(rng.integers(2**31))

    def plain():
        s, _ = build(np.random.default_rng(seed), kind, [], None, metrics=None)
        mute(s.iterate, max_iter=9)
        return [np.array(s.x_final), np.array([len(s.metrics)])]

    want = plain()
    extra = {"verbose": False}
    if kind == "fb":
        extra.update(pick(rng, {"a_cd": 4.0}, {"p_lazy": 0.3, "q_lazy": 0.5},
                          {"restart_strategy": "adaptive-2", "xi_restart": 0.5},
                          {"restart_strategy": "greedy", "xi_restart": 0.5,
                           "min_beta": 0.1, "s_greedy": 1.01}))
    if kind == "adam":
        extra.update(gamma=0.3, beta=0.2)
    if kind == "momentum":
        extra.update(beta=0.3)
    if kind == "rms":
        extra.update(gamma=0.1)
    for _ in range(2):
        s, _ = build(rng, kind, [], None, metrics=Recorder("x_new").metrics(), **extra)
        mute(s.iterate, max_iter=int(rng.integers(1, 12)))
    same(ctx, plain(), want, f"{kind} with default options, after other instances")
    ctx.seen(kind, seed)
    ctx.sample(kind=kind, other=extra)


SECTIONS = [
    Section("functions", functions, 8 * len(F_NAMES), 80 * len(F_NAMES)),
    Section("operators", operators, 8 * len(O_NAMES), 80 * len(O_NAMES)),
    Section("interleaved solvers", interleaved, 10 * len(KINDS), 100 * len(KINDS)),
    Section("threads", threaded, 8 * len(KINDS), 80 * len(KINDS)),
    Section("function in threads", same_function, 6 * len(F_NAMES), 60 * len(F_NAMES)),
    Section("shared metrics", shared_metrics, 5 * len(KINDS), 50 * len(KINDS)),
    Section("defaults", defaults, 5 * len(KINDS), 50 * len(KINDS)),
]
