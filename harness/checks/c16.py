"""C16: nothing the caller hands over is modified, and results are the caller's."""

import copy

import numpy as np
import refs
from catalog import FUNCTIONS, OPERATORS
from checks.c12 import GD, KINDS, build
from core import Section
from gens import layout, pick
from modopt.math import matrix
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.algorithms.admm import ADMMcostObj
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic, GradParent
from modopt.signal import svd
from optkit import Problem, Recorder
from util import frozen, mute

RULE = (
    "A case calls one public function, operator method or solver with arrays of "
    "varied memory layouts, compares every byte of the arrays handed over (and of the "
    "buffers they are views of) before and after, and repeats the call with read-only "
    "arrays, under which any in-place write raises; results held from earlier calls "
    "are compared after later calls.  Non-trivial: at least one array was handed over."
)
ASSUMPTIONS = [
    "the reweighting of the caller's weights and the protection flag of observed data "
    "are documented effects and not judged here",
]
F_NAMES, O_NAMES = sorted(FUNCTIONS), sorted(OPERATORS)


class Watch:
    """Snapshot of arrays and of the buffers behind them."""

    def __init__(self, arrays):
        self.arrays = list(arrays)
        self.buffers = [a if a.base is None else a.base for a in arrays]
        self.before = [np.array(b, copy=True) for b in self.buffers]
        self.meta = [(a.shape, a.strides, a.dtype) for a in arrays]
        self.flags = [a.flags.writeable for a in arrays]

    def judge(self, ctx, who, flags=True):
        for k, (buf, old) in enumerate(zip(self.buffers, self.before)):
            ctx.check(buf.tobytes() == old.tobytes() and buf.shape == old.shape,
                      f"{who}: argument {k} was modified", kind="arrays compared",
                      before=old, after=np.array(buf))
        for k, a in enumerate(self.arrays):
            ctx.check((a.shape, a.strides, a.dtype) == self.meta[k],
                      f"{who}: argument {k} was reshaped", kind="arrays compared")
        if flags:
            for k, a in enumerate(self.arrays):
                ctx.check(a.flags.writeable == self.flags[k],
                          f"{who}: argument {k} was (un)protected",
                          kind="arrays compared")


def shape_of(obj):
    """Structure of nested containers: keys, order and identity of what they hold."""
    if isinstance(obj, dict):
        return ("dict", id(obj), [(k, shape_of(v)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, id(obj), [shape_of(v) for v in obj])
    return id(obj)


def leaves(res):
    if isinstance(res, (tuple, list)):
        for r in res:
            yield from leaves(r)
    elif isinstance(res, np.ndarray) and res.dtype == object:
        for r in res.ravel():
            yield from leaves(r)
    elif res is not None:
        yield np.asarray(res)


def results_of(res):
    """The arrays among the results (numbers are not the caller's to change)."""
    if isinstance(res, (tuple, list)):
        for r in res:
            yield from results_of(r)
    elif isinstance(res, np.ndarray):
        yield res


def same(ctx, a, b, who):
    a, b = list(leaves(a)), list(leaves(b))
    ctx.check(len(a) == len(b), f"{who}: number of results")
    for u, v in zip(a, b):
        ctx.close(u, v, who, rtol=1e-12)


def functions(ctx, rng, i):
    name = F_NAMES[i % len(F_NAMES)]
    arrays, call = FUNCTIONS[name](rng)
    ctx.info(function=name)
    if rng.random() < 0.08:  # empty pictures, constant signals
        try:
            flat = [np.full_like(a, pick(rng, 0, 1)) for a in arrays]
            mute(call, *flat)
            arrays = flat
        except (ValueError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError):
            ctx.obs("constant data refused")
    watch = Watch(arrays)
    res = mute(call, *arrays)
    watch.judge(ctx, name)
    held = [np.array(r, copy=True) for r in leaves(res)]
    again = mute(call, *[frozen(a) for a in arrays])
    same(ctx, again, held, f"{name} with read-only arrays")
    other, call2 = FUNCTIONS[name](rng)
    mute(call2, *other)
    same(ctx, res, held, f"{name}: an earlier result after later calls")
    for r in results_of(res):
        ctx.check(r.flags.writeable or any(np.may_share_memory(r, a) for a in arrays),
                  f"{name}: the result cannot be written to", kind="arrays compared")
    for r in leaves(res):  # the caller may do what it likes with its results
        if r.flags.writeable and not any(np.may_share_memory(r, a) for a in arrays):
            r.fill(7)
            ctx.obs("results overwritten by the caller")
    same(ctx, mute(call, *arrays), held, f"{name} after its results were overwritten")
    if arrays:
        ctx.seen(name, [a.tobytes()[:32] for a in arrays])
    ctx.sample()


def operators(ctx, rng, i):
    name = O_NAMES[i % len(O_NAMES)]
    arrays, make, inputs = OPERATORS[name](rng)
    ctx.info(operator=name)
    watch = Watch(arrays)
    methods = mute(make, *arrays)
    results = []
    for _ in range(int(rng.integers(2, 5))):
        args = inputs(rng)
        for key in sorted(args):
            w = Watch(args[key])
            res = mute(methods[key], *args[key])
            w.judge(ctx, f"{name}.{key}")
            # observed data are protected, as documented
            watch.judge(ctx, f"{name}.{key} (constructor)",
                        flags=name not in ("cost_object", "gradient"))
            results.append((key, args[key], res,
                            [np.array(r, copy=True) for r in leaves(res)]))
            ctx.obs("operator calls")
    for key, _, res, held in results:
        same(ctx, res, held, f"{name}.{key}: an earlier result after later calls")
    ro = mute(make, *[frozen(a) for a in arrays])
    for key, args, _, held in results:
        res = mute(ro[key], *[frozen(a) for a in args])
        same(ctx, res, held, f"{name}.{key} with read-only arrays")
    ctx.seen(name, [a.tobytes()[:32] for _, args, _, _ in results for a in args])
    ctx.sample()


# -- solvers ----------------------------------------------------------------
def make_solver(rng, kind, prob, x0, extra):
    """A solver with arrays of its own; every array handed over is returned."""
    w = rng.uniform(0.05, 0.3, prob.shape)
    wd = rng.uniform(0.05, 0.3, prob.shape)
    grad = prob.grad()
    prox = px.SparseThreshold(lin.Identity(), w)
    step = 0.7 / prob.lip
    common = {"progress": False, **extra}
    arrays = {"w": w, "wd": wd}
    if kind in ("fb", "fb-nofista"):
        kw = {"lambda_update": None} if kind != "fb" else {}
        s = alg.ForwardBackward(x0[0], grad, prox, beta_param=step, cost=None,
                                lambda_param=float(pick(rng, 1.0, 0.7)),
                                linear=lin.Identity(), auto_iterate=False,
                                **{**common, **kw})
    elif kind == "gfb":
        gw = np.array([0.25, 0.75])
        arrays["gw"] = gw
        s = alg.GenForwardBackward(
            x0[0], grad, [prox, px.SparseThreshold(lin.Identity(), wd)], cost=None,
            gamma_param=step, weights=gw, linear=lin.Identity(), auto_iterate=False,
            **common)
    elif kind == "pogm":
        s = alg.POGM(*x0, grad, prox, cost=None, beta_param=step,
                     linear=lin.Identity(), auto_iterate=False, **common)
    elif kind == "condat":
        s = alg.Condat(x0[0], x0[1], grad, px.Positivity() if not prob.cplx else prox,
                       px.SparseThreshold(lin.Identity(), wd), tau=0.4 * step,
                       sigma=0.5, cost=None, auto_iterate=False, **common)
    elif kind in GD:
        eps = {"epsilon": 1.0} if kind in ("saga", "generic") else {}
        s = getattr(alg, GD[kind])(x0[0], grad, prox, None, eta=0.3 * step, **eps,
                                   **common)
    else:
        b = rng.standard_normal(prob.shape)
        arrays["b"] = b
        cls = alg.ADMM if kind == "admm" else alg.FastADMM
        s = cls(x0[0], x0[1], x0[2], lin.Identity(), lin.Identity(), b,
                (lambda init, obs: 0.3 * obs + 0.1 * init,
                 lambda init, obs: 0.2 * obs + 0.1 * init), **common)
    return s, arrays


def solver_case(rng):
    kind = KINDS[int(rng.integers(len(KINDS)))]
    return kind


def solvers(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    shape = tuple(int(k) for k in rng.integers(2, 5, int(rng.integers(1, 3))))
    prob = Problem(rng, shape, bool(rng.integers(2)), lo=0.5, hi=1.2)
    seed = int(rng.integers(2**31))
    guess = [prob.x0() for _ in range(4)]
    n1, n2 = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    ctx.info(kind=kind, shape=shape, n1=n1, n2=n2)

    def run(x0, spoil):
        rec = Recorder("x_new", "idx")
        metrics = rec.metrics()
        metrics["rec"]["cst_kwargs"] = {"ref": guess[0]}
        metrics["rec"]["mapping"]["idx"] = None
        keep = shape_of(metrics)
        s, arrays = make_solver(np.random.default_rng(seed), kind, prob, x0,
                                {"metrics": metrics, "metric_call_period": 2})
        watch = Watch(list(x0) + list(arrays.values()))
        if spoil is not None:
            for a in x0:  # the caller may reuse its arrays after construction
                a[...] = spoil
        s.iterate(max_iter=n1)
        first, first_copy = s.x_final, np.array(s.x_final, copy=True)
        if spoil is None:
            watch.judge(ctx, f"{kind} solver")
        else:
            for a in x0:
                ctx.check(np.all(a == spoil),
                          f"{kind}: the caller's array was written to",
                          kind="arrays compared")
        for a in list(x0) + list(arrays.values()):
            ctx.check(not np.shares_memory(a, first),
                      f"{kind}: the result shares the caller's array",
                      kind="arrays compared")
        s.iterate(max_iter=n2)
        ctx.check(first.tobytes() == first_copy.tobytes(),
                  f"{kind}: a result already handed out changed", kind="arrays compared")
        ctx.check(shape_of(metrics) == keep,
                  f"{kind}: the caller's metrics were modified")
        return s.x_final, rec

    base, rec1 = run([layout(rng, g) for g in guess], None)
    ro, _ = run([frozen(g) for g in guess], None)
    ctx.close(ro, base, f"{kind}: read-only initial guess", rtol=1e-11)
    sp, rec2 = run([g.copy() for g in guess], float(rng.uniform(5, 9)))
    ctx.close(sp, base, f"{kind}: caller's arrays reused after construction", rtol=1e-11)
    for a, b in zip(rec1.rows, rec2.rows):
        ctx.close(b["x_new"], a["x_new"], f"{kind}: iterate", rtol=1e-11)
    ctx.seen(kind, shape, n1, n2, seed)
    ctx.sample()


class KeepGrad(GradParent):
    """A gradient that keeps its arrays: constant, or one buffer for all."""

    def __init__(self, prob, how):
        super().__init__(prob.y.copy(), prob.op, prob.adj, verbose=False)
        self.buf = np.zeros(prob.shape, dtype=prob.y.dtype)
        self.const = prob.ref_grad(self.buf)
        self.const0 = self.const.copy()
        self.cost = lambda *a, **k: 0.0

        def get_grad(x):
            if how == "constant":
                self.grad = self.const
            elif how == "buffer":
                np.copyto(self.buf, prob.ref_grad(x))
                self.grad = self.buf
            elif how == "constant-copy":
                self.grad = self.const.copy()
            else:
                self.grad = prob.ref_grad(x)

        self.get_grad = get_grad


def kept_gradients(ctx, rng, i):
    """Gradients that reuse their arrays give what fresh arrays give."""
    kinds = [k for k in KINDS if "admm" not in k]
    kind = kinds[i % len(kinds)]
    shape = tuple(int(k) for k in rng.integers(2, 5, int(rng.integers(1, 3))))
    prob = Problem(rng, shape, bool(rng.integers(2)), lo=0.5, hi=1.2)
    how = pick(rng, "constant", "buffer")
    ref = {"constant": "constant-copy", "buffer": "fresh"}[how]
    seed, n = int(rng.integers(2**31)), int(rng.integers(2, 12))
    guess = [prob.x0() for _ in range(4)]
    ctx.info(kind=kind, how=how, shape=shape, n=n)
    out = []
    for h in (ref, how):
        g = KeepGrad(prob, h)
        prob.grad = lambda g=g: g
        s, _ = make_solver(np.random.default_rng(seed), kind, prob, guess, {})
        s.iterate(max_iter=n)
        out.append(np.array(s.x_final))
        ctx.check(g.const.tobytes() == g.const0.tobytes(),
                  f"{kind}: the gradient's array was overwritten",
                  kind="arrays compared")
    ctx.close(out[1], out[0], f"{kind}: gradient that keeps its array ({how})",
              rtol=1e-11)
    ctx.seen(kind, how, seed, n)
    ctx.sample()


class Kept:
    """Wraps callbacks: their results are read-only arrays that are kept."""

    def __init__(self, how):
        self.how, self.held = how, []

    def __call__(self, fn):
        def run(*args, **kwargs):
            res = np.array(fn(*args, **kwargs), copy=True)
            if self.how == "plain":
                return res
            self.held.append((res, res.copy()))
            if self.how == "read-only":
                res.flags.writeable = False
            return res

        return run

    def judge(self, ctx, who):
        for res, copied in self.held:
            ctx.check(res.tobytes() == copied.tobytes(),
                      f"{who}: an array returned by the caller's function was written",
                      kind="arrays compared")


CALLBACK_KINDS = ("fb", "fb-nofista", "gfb", "pogm", "condat") + tuple(GD) + (
    "admm", "fastadmm", "admmcost", "power", "combo", "proxcombo", "compo", "ngole", "grad")


def run_callbacks(rng, kind, keep, n):
    """One run with every callback wrapped; the results, as a list of arrays."""
    shape = (int(rng.integers(2, 5)),)
    cplx = bool(rng.integers(2))
    prob = Problem(rng, shape, cplx, lo=0.5, hi=1.2)
    w = rng.uniform(0.05, 0.3, shape)
    grad = GradBasic(prob.y.copy(), keep(prob.op), keep(prob.adj), verbose=False)

    def prox(scale):
        return px.ProximityParent(
            keep(lambda v, extra_factor=1.0: refs.soft(v, scale * w * extra_factor)),
            lambda *a, **k: 0.0)

    q = prob.rnd(shape[0], shape[0]) * 0.2 + np.eye(shape[0])
    lop = lin.LinearParent(keep(lambda v: q @ v), keep(lambda v: q.conj().T @ v))
    step = 0.4 / prob.lip
    common = {"progress": False, "metric_call_period": 1, "metrics": {
        "m": {"metric": lambda test: 0.0, "mapping": {"x_new": "test"},
              "cst_kwargs": {}, "early_stopping": False}}}
    x0 = [prob.x0() for _ in range(4)]
    names = ["x_final"]
    if kind in ("fb", "fb-nofista"):
        kw = {"lambda_update": None} if kind != "fb" else {}
        s = alg.ForwardBackward(x0[0], grad, prox(1), beta_param=step, cost=None,
                                linear=lop, auto_iterate=False, **common, **kw)
    elif kind == "gfb":
        s = alg.GenForwardBackward(x0[0], grad, [prox(1), prox(2)], cost=None,
                                   gamma_param=step, linear=lop, auto_iterate=False,
                                   **common)
    elif kind == "pogm":
        s = alg.POGM(*x0, grad, prox(1), cost=None, beta_param=step, linear=lop,
                     auto_iterate=False, **common)
    elif kind == "condat":
        names.append("y_final")
        s = alg.Condat(x0[0], x0[1], grad, prox(1), prox(2), linear=lop,
                       tau=0.4 * step, sigma=0.3, cost=None, auto_iterate=False,
                       **common)
    elif kind in GD:
        eps = {"epsilon": 1.0} if kind in ("saga", "generic") else {}
        s = getattr(alg, GD[kind])(x0[0], grad, prox(1), None, eta=step, **eps,
                                   **{**common, "metrics": None})
    elif kind == "admmcost":
        total = keep(lambda v: np.array(np.sum(np.abs(v))))
        c = ADMMcostObj((total, total), lop, lop, prob.rnd(*shape), 0.7, verbose=False)
        out = []
        for v in x0[:3]:
            c.get_cost(v, x0[3])
            out.append(np.array(c.cost))
        return out
    elif "admm" in kind:
        names = ["u_final", "v_final"]
        cls = alg.ADMM if kind == "admm" else alg.FastADMM
        s = cls(x0[0], x0[1], x0[2], lop, lop, prob.rnd(*shape),
                (keep(lambda init, obs: 0.3 * obs + 0.1 * init),
                 keep(lambda init, obs: 0.2 * obs + 0.1 * init)), progress=False)
    elif kind == "power":
        m = q.conj().T @ q
        dt = complex if cplx else float
        pm = matrix.PowerMethod(keep(lambda v: m @ v), shape, data_type=dt, rng=3)
        return [np.array(pm.spec_rad), np.array(pm.inv_spec_rad)]
    elif kind == "combo":
        c = lin.LinearCombo([lop, lop], pick(rng, None, [0.3, 0.7]))
        return [np.array(list(c.op(x0[0]))), np.array(c.adj_op(x0[:2]))]
    elif kind == "proxcombo":
        c = px.ProximityCombo([prox(1), prox(2)])
        return [np.array(list(c.op(x0[:2], extra_factor=0.5)))]
    elif kind == "compo":
        return [px.LinearCompositionProx(lop, prox(1)).op(x0[0], extra_factor=0.5)]
    elif kind == "ngole":
        a = rng.standard_normal((4, 3))
        f = keep(lambda v: 0.5 * v)
        return [svd.svd_thresh_coef(a, f, 0.3), px.LowRankMatrix(
            0.3, lowr_type="ngole", operator=f).op(rng.standard_normal((3, 2, 2)))]
    else:
        out = []
        for v in x0:
            grad.get_grad(v)
            out += [np.array(grad.grad), np.array(grad.cost(v)), grad.trans_op_op(v)]
        return out
    s.iterate(max_iter=n)
    s.iterate(max_iter=n)
    return [np.array(getattr(s, name)) for name in names]


def callbacks(ctx, rng, i):
    """Callbacks may return read-only arrays and keep what they returned."""
    kind = CALLBACK_KINDS[i % len(CALLBACK_KINDS)]
    seed, n = int(rng.integers(2**31)), int(rng.integers(1, 8))
    ctx.info(kind=kind, n=n)
    want = mute(run_callbacks, np.random.default_rng(seed), kind, Kept("plain"), n)
    for how in ("read-only", "kept"):
        keep = Kept(how)
        got = mute(run_callbacks, np.random.default_rng(seed), kind, keep, n)
        keep.judge(ctx, kind)
        for a, b in zip(got, want):
            ctx.close(a, b, f"{kind}: callbacks with {how} results", rtol=1e-11)
        ctx.obs("arrays of callbacks", len(keep.held))
    ctx.seen(kind, seed, n)
    ctx.sample()


def containers(ctx, rng, i):
    """Lists of operators and weights stay as they were."""
    n = int(rng.integers(1, 4))
    which = pick(rng, "combo", "prox", "cost", "gfb")
    ctx.info(which=which, n=n)
    if which == "combo":
        ops = [lin.Identity() for _ in range(n)]
        ws = [float(v) for v in rng.uniform(0.1, 1, n)]
        keep = list(ops), list(ws)
        c = lin.LinearCombo(ops, ws)
        c.adj_op(c.op(rng.standard_normal(3)))
        ctx.check(ops == keep[0] and ws == keep[1], "operators or weights changed")
    elif which == "prox":
        ops = [px.Positivity() for _ in range(n)]
        keep = list(ops)
        c = px.ProximityCombo(ops)
        data = np.empty(n, dtype=object)
        for k in range(n):
            data[k] = rng.standard_normal(3)
        held = [d.copy() for d in data]
        c.op(data)
        c.cost(data)
        ctx.check(ops == keep, "the list of operators changed")
        for a, b in zip(data, held):
            ctx.check(a.tobytes() == b.tobytes(), "data of a combination changed")
    elif which == "cost":
        ops = [px.Ridge(lin.Identity(), 0.5) for _ in range(n)]
        keep = list(ops)
        c = costObj(ops, verbose=False)
        x = rng.standard_normal(3)
        held = x.copy()
        for _ in range(3):
            c.get_cost(x)
        ctx.check(ops == keep, "the list of operators changed")
        ctx.check(x.tobytes() == held.tobytes(), "the argument of the cost changed")
    else:
        prob = Problem(rng, (3,))
        ops = [px.Positivity() for _ in range(n)]
        ws = list(rng.dirichlet(np.ones(n)))
        keep = list(ops), list(ws)
        s = alg.GenForwardBackward(prob.x0(), prob.grad(), ops, weights=ws, cost=None,
                                   gamma_param=0.2, auto_iterate=False, progress=False)
        s.iterate(max_iter=3)
        ctx.check(ops == keep[0] and ws == keep[1], "operators or weights changed")
    ctx.seen(which, n, float(rng.random()))
    ctx.sample()


def earlier_solver_results(ctx, rng, i):
    """Costs and metrics handed out by one run are not rewritten by the next."""
    kind = KINDS[i % len(KINDS)]
    rec = Recorder("x_new")
    s, _ = build(rng, kind, [], None, metrics=rec.metrics())
    mute(s.iterate, max_iter=int(rng.integers(1, 6)))
    m1, copy1 = s.metrics["rec"], copy.deepcopy(s.metrics["rec"])
    vals, idx = list(m1["values"]), list(m1["index"])
    ctx.check(len(vals) == len(idx) and len(vals) > 0, f"{kind}: metric history")
    mute(s.iterate, max_iter=int(rng.integers(1, 6)))
    now = s.metrics["rec"]
    ctx.check(list(now["values"])[:len(vals)] == vals
              and list(now["index"])[:len(idx)] == idx,
              f"{kind}: the history of the first run was rewritten",
              before=copy1, after=now)
    ctx.seen(kind, float(rng.random()))
    ctx.sample(kind=kind)


SECTIONS = [
    Section("functions", functions, 20 * len(F_NAMES), 300 * len(F_NAMES)),
    Section("operators", operators, 12 * len(O_NAMES), 100 * len(O_NAMES)),
    Section("solvers", solvers, 30 * len(KINDS), 400 * len(KINDS)),
    Section("kept gradients", kept_gradients, 240, 3000),
    Section("callbacks", callbacks, 10 * len(CALLBACK_KINDS), 100 * len(CALLBACK_KINDS)),
    Section("containers", containers, 40, 400),
    Section("earlier results", earlier_solver_results, 28, 280),
]
