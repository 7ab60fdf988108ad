"""C34: what is printed, plotted and counted is what happened; nothing else is printed."""

import os
import re
import tempfile
import warnings

import numpy as np
from catalog import FUNCTIONS, OPERATORS
from core import Section
from gens import pick
from modopt.math.matrix import PowerMethod
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.reweight import cwbReweight
from modopt.signal.validation import transpose_test
from optkit import Problem, regulariser
from util import mute, quiet

RULE = (
    "A case is one run of the code with its output captured: a random function or "
    "operator of the public interface with no request for output (nothing may be "
    "printed), or a verbose cost, solver, power method, reweighting or plot, whose "
    "transcript is parsed and compared with what the run did.  Non-trivial: at least "
    "one line was printed, or one call made in silence."
)
ASSUMPTIONS = [
    "numbers are printed with at least six significant digits",
    "a bar may leave out the iteration at which the run converged",
]
LINE = re.compile(r"^\s*-\s*(.+?)\s*[:=]\s*(\S+)\s*$")


def lines(text):
    """``(label, number)`` of every printed line that carries a number."""
    res = []
    for row in text.splitlines():
        m = LINE.match(row)
        if m:
            res.append((m.group(1).strip(), float(m.group(2))))
    return res


def silent(ctx, rng, i):
    """Nothing is printed by a call that did not ask for it."""
    names = [*FUNCTIONS, *OPERATORS]
    name = names[i % len(names)]
    calls = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with quiet() as (out, err):
            if name in FUNCTIONS:
                arrays, call = FUNCTIONS[name](rng)
                call(*arrays)
                calls.append(name)
            else:
                arrays, build, inputs = OPERATORS[name](rng)
                methods = build(*arrays)
                for _ in range(2):
                    for key, args in inputs(rng).items():
                        methods[key](*args)
                        calls.append(key)
    ctx.info(name=name)
    ctx.check(out.getvalue() == "", f"{name} printed", text=out.getvalue()[:200])
    rows = [r for r in err.getvalue().splitlines() if "WARNING" not in r]
    ctx.check(rows == [], f"{name} wrote to the error stream", text=err.getvalue()[:200])
    ctx.obs("silent calls", len(calls))
    ctx.seen(name, i)


def term(rng, shape):
    """A printing term, and what its label must contain."""
    obj, label = plain_term(rng, shape)
    if label not in ("FIDELITY", "MIN", "NUCLEAR") and rng.random() < 0.3:
        obj = px.LinearCompositionProx(lin.Identity(), obj)
    return obj, label


def plain_term(rng, shape):
    kind = pick(rng, "l1", "ridge", "elastic", "lowrank", "owl", "ksupport", "pos", "grad")
    n = int(np.prod(shape))
    if kind == "l1":
        return px.SparseThreshold(lin.Identity(), rng.uniform(0, 1, shape)), "L1"
    if kind == "ridge":
        return px.Ridge(lin.Identity(), float(rng.uniform(0, 2))), "L2"
    if kind == "elastic":
        return px.ElasticNet(lin.Identity(), float(rng.uniform(0, 2)),
                             float(rng.uniform(0, 2))), "ELASTIC"
    if kind == "lowrank" and len(shape) == 3:
        return px.LowRankMatrix(float(rng.uniform(0.1, 2))), "NUCLEAR"
    if kind == "owl" and len(shape) == 1 and n > 1:
        return px.OrderedWeightedL1Norm(np.sort(rng.uniform(0, 1, n))[::-1]), "OWL"
    if kind == "ksupport" and len(shape) == 1 and n > 2:
        return px.KSupportNorm(float(rng.uniform(0.1, 2)), int(rng.integers(1, n))), "SUPPORT"
    if kind == "pos":
        return px.Positivity(), "MIN"
    y = rng.standard_normal(shape)
    c = float(rng.uniform(0.2, 2))
    return GradBasic(y, lambda x: c * x, lambda x: c * x, verbose=False), "FIDELITY"


def terms(ctx, rng, i):
    """A verbose cost prints its iteration, its terms and their sum."""
    shape = tuple(int(v) for v in rng.integers(2, 6, int(rng.integers(1, 4))))
    ops, labels = zip(*[term(rng, shape) for _ in range(int(rng.integers(1, 4)))],
                      strict=True)
    interval, window = int(pick(rng, 1, 1, 2, 3)), int(rng.integers(2, 5))
    tol = float(10.0 ** rng.uniform(-4, 1))
    obj = costObj(list(ops), verbose=True, tolerance=tol, cost_interval=interval,
                  test_range=window)
    taken = []
    scale = 10.0 ** rng.integers(-3, 4)
    x = rng.standard_normal(shape) * scale
    for k in range(1, int(rng.integers(3, 14))):
        x = x * rng.uniform(0.7, 1.0) if rng.random() < 0.7 else (
            rng.standard_normal(shape) * scale)
        with quiet() as (out, err):
            res = obj.get_cost(x)
        rows = lines(out.getvalue())
        ctx.info(labels=labels, interval=interval, k=k, text=out.getvalue())
        ctx.check(err.getvalue() == "", "written to the error stream")
        if k % interval:
            ctx.check(out.getvalue() == "", "printed with no cost taken")
            continue
        with quiet() as (o2, _):
            each = [float(op.cost(x, verbose=False)) for op in ops]
            each2 = [float(op.cost(x)) for op in ops]
        ctx.check(o2.getvalue() == "", "a term prints without being asked")
        ctx.check(np.allclose(each, each2, rtol=1e-12), "the value depends on verbose")
        total = sum(each)
        taken.append(total)
        by = {}
        for name, val in rows:
            by.setdefault(name.upper(), []).append(val)
        ctx.check(by.get("ITERATION") == [float(k)], f"iteration of call {k}: "
                  f"{by.get('ITERATION')}")
        ctx.close(by.get("COST"), [total], "printed cost", rtol=1e-5,
                  atol=1e-9 * sum(map(abs, each)) + 1e-300)
        ctx.close(obj.cost, total, "published cost", rtol=1e-9,
                  atol=1e-12 * sum(map(abs, each)))
        for want in set(labels):
            vals = [v for n, vs in by.items() if want in n and n not in
                    ("ITERATION", "COST", "CHANGE IN COST") for v in vs]
            if want == "MIN":
                exp = [float(np.min(x))] * labels.count(want)
            else:
                exp = [e for e, n in zip(each, labels, strict=True) if n == want]
            ctx.close(vals, exp, f"printed terms {want}", rtol=1e-5)
        tested = len(taken) % window == 0
        ctx.check(("CHANGE IN COST" in by) == tested, "test announced when made")
        if tested:
            last = taken[-window:]
            old, new = np.mean(last[: window // 2]), np.mean(last[window // 2:])
            diff = abs(new - old) / abs(new) if abs(new) > 1e-15 else 0.0
            ctx.close(by["CHANGE IN COST"][0], diff, "printed change", rtol=1e-5, atol=1e-9)
            if abs(diff - tol) > 1e-6 * tol:
                ctx.check(bool(res) == (by["CHANGE IN COST"][0] <= tol),
                          "the answer contradicts the printed change")
        ctx.obs("printed lines", len(rows))
    ctx.seen("terms", labels, shape, interval, window, tol)
    ctx.sample(labels=labels, last=out.getvalue())


class Bar:
    """Stands in for a progress bar: counts what it is told."""

    def __init__(self, rng):
        self.n = 0
        self.total = pick(rng, None, 0, 5)
        self.resets = []

    def __bool__(self):
        if self.total is None:
            raise TypeError("bool() undefined when iterable == total == None")
        return self.total > 0

    def update(self, n=1):
        self.n += 1 if n is None else n

    def reset(self, total=None):
        self.resets.append((self.n, total))
        self.n = 0


def make(kind, prob, reg, rw, **kw):
    x0, g = prob.x0(), prob.grad()
    prox = reg.obj
    if kind == "fb":
        return alg.ForwardBackward(x0, g, prox, beta_param=0.5, auto_iterate=False, **kw)
    if kind == "gfb":
        return alg.GenForwardBackward(x0, g, [prox], gamma_param=0.5, auto_iterate=False,
                                      **kw)
    if kind == "pogm":
        return alg.POGM(x0, x0.copy(), x0.copy(), x0.copy(), g, prox, beta_param=0.5,
                        auto_iterate=False, **kw)
    if kind == "condat":
        dual = px.SparseThreshold(lin.Identity(), rw.weights if rw else
                                  np.full(prob.shape, 0.2))
        return alg.Condat(x0, x0.copy(), g, px.IdentityProx(), dual, tau=0.3, sigma=0.5,
                          reweight=rw, auto_iterate=False, **kw)
    return alg.VanillaGenericGradOpt(x0, g, prox, eta=0.4, **kw)


def solver(ctx, rng, i):
    """The transcript of a run is its history."""
    kind = pick(rng, "fb", "gfb", "pogm", "condat", "gd")
    prob = Problem(rng, (int(rng.integers(2, 5)),), lo=0.5, hi=1.2)
    reg = regulariser(rng, prob.shape, kinds=("l1w", "ridge", "elastic"))
    interval, window = int(pick(rng, 1, 1, 2)), int(pick(rng, 2, 4))
    loud, cost_loud = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    n = int(rng.integers(1, 40))
    use_cost = bool(rng.random() < 0.8)
    seen = []

    class Watch:
        def cost(self, x, *args, **kwargs):
            seen.append(np.array(x))
            return 0.0

    n_rw = int(rng.integers(0, 3)) if kind == "condat" else 0
    rw_loud = bool(rng.integers(2))
    rw = cwbReweight(np.full(prob.shape, 0.2), verbose=rw_loud) if n_rw else None
    bar = Bar(rng) if rng.random() < 0.4 and kind != "gd" else None
    show = bool(rng.random() < 0.3)
    with quiet() as (out, err):
        # built on the operators that the solver also has
        cost = None
        s = make(kind, prob, reg, rw, cost=None, verbose=loud, progress=show)
        ctx.check(out.getvalue() == "" and err.getvalue() == "", "the set-up printed")
        if use_cost:
            ops = [prob.grad(), reg.obj, Watch()]
            if kind == "condat":
                ops[1] = px.IdentityProx()
            cost = costObj(ops, tolerance=float(10.0 ** rng.uniform(-8, -1)),
                           cost_interval=interval, test_range=window, verbose=cost_loud)
            s = make(kind, prob, reg, rw, cost=cost, verbose=loud, progress=show)
        kw = {"max_iter": n}
        if n_rw:
            kw["n_rewightings"] = n_rw
        if bar is not None:
            kw["progbar"] = bar
        s.iterate(**kw)
    text, rows = out.getvalue(), lines(out.getvalue())
    ctx.info(kind=kind, n=n, loud=loud, cost_loud=cost_loud, show=show, text=text[:600])
    if not (loud or cost_loud or (rw_loud and n_rw)):
        ctx.check(text == "", "printed without being asked")
    runs = n_rw + 1
    done = text.count("Converged!")
    if loud and runs == 1:
        ctx.check(done == int(bool(s.converge)), f"{done} announcements of convergence, "
                  f"the flag is {s.converge}")
    ctx.check(done <= runs, "convergence announced more than once per run")
    if not loud:
        ctx.check(done == 0, "convergence announced without being asked")
    its = [int(v) for name, v in rows if name == "ITERATION"]
    costs = [v for name, v in rows if name == "COST"]
    if use_cost and cost_loud:
        ctx.check(its == [interval * (k + 1) for k in range(len(seen))],
                  f"iterations printed: {its}, costs taken: {len(seen)}")
        reg_val = (lambda v: 0.0) if kind == "condat" else reg.val
        ctx.close(costs, [prob.value(x) + reg_val(x) for x in seen], "printed costs",
                  rtol=1e-5)
    else:
        ctx.check(not its and not costs, "costs printed without being asked")
    nums = [int(v) for name, v in rows if name.startswith("Reweighting")]
    ctx.check(nums == (list(range(1, n_rw + 1)) if rw_loud and n_rw else []),
              f"reweightings printed: {nums} of {n_rw}")
    last = s.idx + 1
    if bar is not None:
        want = {last, last - 1} if s.converge else {last}
        ctx.check(bar.n in want, f"the bar counts {bar.n} of {last} iterations")
        ctx.check(len(bar.resets) == n_rw, f"resets of the bar {bar.resets}")
        ctx.check(err.getvalue() == "", "another bar was shown")
    elif show:
        counts = re.findall(r"(\d+)/(\d+) \[", err.getvalue())
        ctx.check(counts and int(counts[-1][1]) == n,
                  f"bar shown: {err.getvalue()[-80:]!r}")
        want = {last, last - 1} if s.converge else {last}
        ctx.check(int(counts[-1][0]) in want, f"bar ends at {counts[-1]} of {last}")
    else:
        ctx.check(err.getvalue() == "", "a bar was shown", text=err.getvalue()[:200])
    ctx.obs("iterations", last)
    ctx.obs("printed lines", len(rows))
    ctx.seen("solver", kind, n, interval, window, loud, cost_loud, i)
    ctx.sample(iterations=last, printed=len(rows))


def power(ctx, rng, i):
    n = int(rng.integers(2, 6))
    mat = np.diag(rng.uniform(0.1, 1, n)) + (0.3 * rng.standard_normal((n, n))
                                             if rng.random() < 0.3 else 0)
    mat = mat @ mat.T
    calls = []

    def op(x):
        calls.append(1)
        return mat @ x

    verbose = bool(rng.random() < 0.7)
    tol, limit = float(10.0 ** rng.uniform(-12, -2)), int(rng.integers(1, 60))
    with quiet() as (out, err):
        pm = PowerMethod(op, (n,), auto_run=False, rng=int(rng.integers(99)),
                         verbose=verbose)
        pm.get_spec_rad(tolerance=tol, max_iter=limit)
    text = out.getvalue()
    ctx.info(mat=mat, tol=tol, limit=limit, text=text)
    ctx.check(err.getvalue() == "", "written to the error stream")
    if not verbose:
        ctx.check(text == "", "printed without being asked")
    else:
        rows = [r for r in text.splitlines() if r.strip()]
        ctx.check(len(rows) == 1, f"{len(rows)} lines")
        said = [int(v) for v in re.findall(r"\d+", rows[0])]
        ctx.check(said == [len(calls)], f"printed {rows[0]!r} after {len(calls)} iterations")
        if len(calls) < limit:
            ctx.check("did not" not in rows[0], f"stopped at {len(calls)} of {limit}: {rows[0]}")
        ctx.obs("printed lines")
    ctx.seen("power", n, tol, limit, verbose, mat.tobytes()[:32])
    ctx.sample(text=text)


def reports(ctx, rng, i):
    """Reweighting numbers and the printed adjoint test."""
    shape = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(1, 3))))
    loud = bool(rng.integers(2))
    rw = cwbReweight(rng.uniform(0.1, 1, shape), verbose=loud)
    n = int(rng.integers(1, 6))
    with quiet() as (out, _):
        for _ in range(n):
            rw.reweight(rng.standard_normal(shape))
    nums = [int(v) for _, v in lines(out.getvalue())]
    ctx.check(nums == (list(range(1, n + 1)) if loud else []), f"reweightings {nums}")
    a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    mat, adj = rng.standard_normal((b, a)), rng.standard_normal((a, b))
    if rng.random() < 0.5:
        adj = mat.T
    seed = int(rng.integers(1000))
    got = []

    def op(x, _):
        got.append(np.array(x))
        return mat @ x

    def op_t(y, _):
        got.append(np.array(y))
        return adj @ y

    with quiet() as (out, _):
        transpose_test(op, op_t, (a,), None, (b,), None, rng=seed)
    rows = [float(v) for v in re.findall(r"=\s*(\S+)", out.getvalue())]
    x = next(v for v in got)
    y = got[1]
    want = abs(float(np.sum((mat @ x) * y)) - float(np.sum(x * (adj @ y))))
    ctx.info(mat=mat, adj=adj, text=out.getvalue())
    ctx.close(rows, [want], "printed difference", rtol=1e-5, atol=1e-13 * a * b)
    ctx.seen("reports", a, b, n, loud, mat.tobytes()[:32])


def plots(ctx, rng, i):
    """The saved figure shows the cost of every iteration at which it was taken."""
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt

    shape = (int(rng.integers(2, 5)),)
    n = int(pick(rng, rng.integers(1, 12), rng.integers(100, 700)))
    shown, real = [], Figure.savefig

    def savefig(self, *args, **kwargs):
        for ax in self.axes:
            for line in ax.get_lines():
                shown.append((np.array(line.get_xdata(), float),
                              np.array(line.get_ydata(), float)))
        return real(self, *args, **kwargs)

    with tempfile.TemporaryDirectory() as root:
        name = os.path.join(root, pick(rng, "run", "a b", "x.y"))
        objs = [costObj([px.Ridge(lin.Identity(), 1.0)], verbose=False,
                        plot_output=f"{name}{k}") for k in range(2)]
        want = []
        for obj in objs:
            want.append([])
            for _ in range(n):
                x = rng.standard_normal(shape)
                obj.get_cost(x)
                want[-1].append(float(np.sum(x**2)))
        mine = None
        if i % 2:  # the caller is drawing something of their own
            mine = plt.figure()
            plt.plot([0, 1, 2], [5, 6, 7])
        Figure.savefig = savefig
        try:
            with quiet() as (out, _):
                for obj in objs:
                    obj.plot_cost()
                    obj.plot_cost()
        finally:
            Figure.savefig = real
        files = sorted(os.listdir(root))
        ctx.check(files == sorted(f"{os.path.basename(name)}{k}_cost_function.png"
                                  for k in range(2)), f"files {files}")
        ctx.check(all(os.path.join(root, f) in out.getvalue() for f in files),
                  "announcement", text=out.getvalue())
    ctx.check(len(shown) == 4, f"{len(shown)} curves for 4 figures")
    for (xs, ys), w in zip(shown, [want[0], want[0], want[1], want[1]], strict=True):
        ctx.close(ys, np.log10(w), "curve", rtol=1e-9, scale=1.0)
        ctx.check(np.array_equal(np.diff(xs), np.ones(n - 1)), "iterations of the curve")
    if mine is not None:
        ctx.check(plt.get_fignums() == [mine.number], "the caller's figure was closed, or "
                  "figures left open")
        ctx.check(len(mine.axes) == 1 and len(mine.axes[0].get_lines()) == 1,
                  "the caller's figure was drawn on")
        ctx.check(plt.gcf() is mine, "the caller's figure is no longer the current one")
        plt.close(mine)
    ctx.check(plt.get_fignums() == [], "figures left open")
    ctx.seen("plots", i, n)


SECTIONS = [
    Section("silent", silent, 300, 3000),
    Section("terms", terms, 300, 4000),
    Section("solver", solver, 300, 4000),
    Section("power", power, 200, 2500),
    Section("reports", reports, 100, 1000),
    Section("plots", plots, 4, 20),
]
