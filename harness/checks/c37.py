"""C37: an argument left out is worth its documented default."""

import logging
import os
import re
import tempfile
import warnings

import numpy as np
from checks.c12 import GD, StopAt
from core import Section
from gens import pick
from modopt.base import backend, np_adjust, transform, types
from modopt.base.observable import MetricObserver, Observable
from modopt.interface import errors
from modopt.interface import log as mlog
from modopt.math import convolve, matrix, metrics, stats
from modopt.opt import algorithms as alg
from modopt.opt import cost as mcost
from modopt.opt import gradient, reweight
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.linear import wavelet as owav
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, validation
from modopt.signal import wavelet as swav
from optkit import Problem
from util import quiet

RULE = (
    "A case makes one call of the library two or three times on equal data: with its "
    "required arguments by position and by documented name; or with an optional "
    "argument left out, with its documented default given by name, and with it given "
    "by position behind the arguments documented before it; returned values, printed "
    "text, warnings, errors and what the object then does must be identical.  "
    "Non-trivial: always; the observation 'other value differs' counts how often "
    "another value of the same argument made a visible difference."
)
ASSUMPTIONS = [
    "the documented defaults are those of the reference pages of the pinned commit, "
    "copied into the table of this monitor",
]


def arr(r, *shape):
    return r.standard_normal(shape)


# -- observation -------------------------------------------------------------
def flat(res):
    """Nested results as a list of comparable leaves."""
    if isinstance(res, dict):
        return [x for k in sorted(res) for x in [k] + flat(res[k])]
    if isinstance(res, (list, tuple)):
        return [f"<{len(res)}>"] + [x for v in res for x in flat(v)]
    if isinstance(res, np.ndarray) and res.dtype == object:
        return [f"<{res.shape}>"] + [x for v in res.ravel() for x in flat(v)]
    if isinstance(res, (np.ndarray, np.generic)):
        return [str(res.dtype), np.array(res)]
    if isinstance(res, (float, complex)):
        return [type(res).__name__, np.array(res)]
    return [repr(res)]


def same(a, b):
    """Equal up to the rounding that memory alignment may change."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in "fc" or a.tobytes() == b.tobytes():
            return bool(np.array_equal(a, b)) or a.tobytes() == b.tobytes()
        top = float(np.max(np.abs(np.where(np.isfinite(b), b, 0)), initial=0))
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12 * top, equal_nan=True))
    return type(a) is type(b) and a == b


def rounded(text):
    """Printed numbers to nine digits."""
    return re.sub(r"-?\d+\.\d+(e[-+]?\d+)?", lambda m: f"{float(m.group()):.8e}", text)


def watch(fn, post):
    """Everything a caller can see of a call."""
    seen = {}
    with warnings.catch_warnings(record=True) as caught, quiet() as (out, err):
        warnings.simplefilter("always")
        try:
            seen["result"] = flat(post(fn()))
        except Exception as exc:  # noqa: BLE001
            seen["error"] = [type(exc).__name__, str(exc)]
    seen["printed"] = rounded(out.getvalue())
    lines = [ln for ln in re.split("[\r\n]+", err.getvalue()) if ln.strip()]
    bar = [ln for ln in lines if "it/s" in ln or "s/it" in ln or "%|" in ln]
    seen["bar"] = bool(bar)
    seen["stderr"] = [ln for ln in lines if ln not in bar]
    seen["warned"] = sorted({(w.category.__name__, str(w.message)) for w in caught})
    return seen


# -- the table ---------------------------------------------------------------
# name -> (make, base, options); make(rng) -> (callable, required args, post);
# base: arguments given in all calls; options: (name, default, other values...) in the
# documented order, by position if the third item of the entry says so.
ENTRIES = {}


def entry(name, make, *options, base=(), by_position=True):
    ENTRIES[name] = (make, dict(base), options, by_position)


def simple(fn, args, post=lambda v: v):
    return lambda r: (fn, args(r), post)


def image(r):
    return arr(r, 7, 7)


def methods(obj_args, calls):
    """An operator: build it, then return what its methods give."""

    def make(cls):
        def inner(r):
            args = obj_args(r)
            data = calls(r)
            return cls, args, lambda o: [getattr(o, m)(*a) for m, a in data]
        return inner
    return make


entry("fancy_transpose", simple(np_adjust.fancy_transpose, lambda r: [arr(r, 2, 3, 4)]),
      ("roll", 1, 2, -1))
entry("check_npndarray", simple(
    lambda a, *p, **k: (types.check_npndarray(a, *p, **k), a.flags.writeable),
    lambda r: [arr(r, 3).astype(pick(r, float, int))]),
    ("dtype", None, np.integer, np.floating), ("writeable", True, False),
    ("verbose", True, False))
entry("check_npndarray-ro", simple(
    lambda a, *p, **k: (types.check_npndarray(a, *p, **k), a.flags.writeable),
    lambda r: [arr(r, 3)]),
    ("dtype", None, np.integer), ("writeable", True, True), ("verbose", True, False),
    base={"writeable": False})


def observer(r):
    n = int(r.integers(6, 20))
    vals = np.cumsum(arr(r, n) * 10.0 ** -np.arange(n))

    def post(o):
        flags = []
        for i, v in enumerate(vals):
            class Sig:
                x, idx = v, i
            o(Sig())
            flags.append(o.converge_flag)
        got = o.retrieve_metrics()
        return flags, list(got["index"]), list(got["values"])

    return MetricObserver, ["m", lambda v: float(v), {"x": "v"}, {}], post


entry("MetricObserver", observer, ("early_stopping", False, True), ("wind", 6, 4, 8),
      ("eps", 1.0e-3, 1e-2, 1e-5, 0.5))
entry("MetricObserver-early", observer, ("early_stopping", False, True),
      ("wind", 6, 4, 8), ("eps", 1.0e-3, 1e-2, 1e-5, 0.5), base={"early_stopping": True})


def logs(r):
    def use(*given, **kw):
        with tempfile.TemporaryDirectory() as tmp:
            which = dict(kw)
            where = os.path.join(tmp, "run")
            if which.pop("_close"):
                log = mlog.set_up_log(where, verbose=False)
                try:
                    mlog.close_log(log, *given, **which)
                finally:
                    mlog.close_log(log, verbose=False)
            else:
                log = mlog.set_up_log(where, *given, **which)
                mlog.close_log(log, verbose=False)
            level = logging.getLevelName(log.level)
            print_free = sorted(os.listdir(tmp))
        return level, print_free

    def post(v):
        return v
    return use, [], post


def clean_path(seen):
    seen["printed"] = re.sub(r"\S*/tmp\S*", "FILE", seen["printed"])
    return seen


entry("set_up_log", logs, ("verbose", True, False), base={"_close": False})
entry("close_log", logs, ("verbose", True, False), base={"_close": True})

def messages(fn):
    def make(r):
        log = logging.getLogger(f"c37.{fn.__name__}")
        log.propagate = False
        if not log.handlers:
            log.addHandler(logging.NullHandler())
        return fn, [f"text {r.integers(99)}"], lambda v: v
    return make


entry("warn", messages(errors.warn), ("log", None, logging.getLogger("c37.warn")))
entry("catch_error", messages(errors.catch_error), ("log", None))
entry("convolve", simple(convolve.convolve, lambda r: [image(r), arr(r, 3, 3)]),
      ("method", "scipy", "astropy"))
entry("convolve_stack", simple(convolve.convolve_stack,
                               lambda r: [arr(r, 2, 6, 6), arr(r, 2, 3, 3)]),
      ("rot_kernel", False, True), ("method", "scipy", "astropy"))
entry("filter_convolve", simple(swav.filter_convolve,
                                lambda r: [image(r), arr(r, 3, 3, 3)]),
      ("filter_rot", False), ("method", "scipy", "astropy"))
entry("filter_convolve-cube", simple(swav.filter_convolve,
                                     lambda r: [arr(r, 3, 6, 6), arr(r, 3, 3, 3)]),
      ("filter_rot", False), ("method", "scipy", "astropy"), base={"filter_rot": True})
entry("filter_convolve_stack", simple(swav.filter_convolve_stack,
                                      lambda r: [arr(r, 2, 6, 6), arr(r, 3, 3, 3)]),
      ("filter_rot", False), ("method", "scipy", "astropy"))
entry("filter_convolve_stack-rot", simple(
    swav.filter_convolve_stack, lambda r: [arr(r, 2, 3, 6, 6), arr(r, 3, 3, 3)]),
    ("filter_rot", False), ("method", "scipy", "astropy"), base={"filter_rot": True})
entry("gram_schmidt", simple(matrix.gram_schmidt, lambda r: [arr(r, 3, 4)]),
      ("return_opt", "orthonormal", "orthogonal", "both"))


def power(r):
    mat = arr(r, 4, 4)
    mat = mat @ mat.T * 10.0 ** r.uniform(-2, 2)
    return matrix.PowerMethod, [lambda x: mat @ x, (4,)], lambda p: [
        getattr(p, "spec_rad", None), getattr(p, "inv_spec_rad", None),
        p.get_spec_rad(), p.spec_rad]


for _n, _b in (("", {}), ("-verbose", {"verbose": True})):
    entry("PowerMethod" + _n, power, ("data_type", float, complex),
          ("auto_run", True, False), ("compute_backend", "numpy"),
          ("verbose", False, True), ("rng", None), base={"rng": 7, **_b},
          by_position=True)


def spec_rad(r):
    vals = np.array([1.0, r.uniform(0.1, 0.999)]) * 10.0 ** r.uniform(-3, 2)
    p = matrix.PowerMethod(lambda x: vals * x, (2,), auto_run=False, rng=3,
                           verbose=True)
    return p.get_spec_rad, [], lambda v: [v, p.spec_rad, p.inv_spec_rad]


entry("get_spec_rad", spec_rad, ("tolerance", 1e-6, 1e-3, 1e-12), ("max_iter", 20, 19, 21),
      ("extra_factor", 1.0, 1.1))
for _n in ("ssim", "snr", "psnr", "mse", "nrmse"):
    entry("metrics." + _n, simple(getattr(metrics, _n),
                                  lambda r: [arr(r, 9, 9), arr(r, 9, 9)]),
          ("mask", None, np.eye(9)))
entry("gaussian_kernel", simple(stats.gaussian_kernel,
                                lambda r: [(5, 7), float(r.uniform(0.5, 3))]),
      ("norm", "max", "sum", "none"))
entry("stats.psnr", simple(stats.psnr, lambda r: [abs(arr(r, 5, 5)), abs(arr(r, 5, 5))]),
      ("method", "starck", "wiki"), ("max_pix", 255))
entry("stats.psnr-wiki", simple(stats.psnr,
                                lambda r: [abs(arr(r, 5, 5)), abs(arr(r, 5, 5))]),
      ("method", "starck", "wiki"), ("max_pix", 255, 254), base={"method": "wiki"})
entry("psnr_stack", simple(stats.psnr_stack,
                           lambda r: [abs(arr(r, 4, 5, 5)), abs(arr(r, 4, 5, 5))]),
      ("metric", np.mean, np.median), ("method", "starck", "wiki"))
entry("gaussian_filter", simple(sfilter.gaussian_filter,
                                lambda r: [arr(r, 6), float(r.uniform(0.3, 3))]),
      ("norm", True, False))
entry("add_noise", simple(noise.add_noise, lambda r: [abs(arr(r, 3, 4)) * 9]),
      ("sigma", 1.0, 2.0, [1.0, 2.0, 3.0]), ("noise_type", "gauss", "poisson"),
      ("rng", None), base={"rng": 5})
entry("thresh", simple(noise.thresh, lambda r: [arr(r, 4, 5), abs(float(arr(r)))]),
      ("threshold_type", "hard", "soft"))
entry("positive", simple(positivity.positive, lambda r: [arr(r, 3, 4)]),
      ("ragged", False, True))
entry("find_n_pc", simple(svd.find_n_pc, lambda r: [
    np.linalg.svd(np.outer(np.ones(9), np.ones(4)) + 0.3 * arr(r, 9, 4))[0]]),
    ("factor", 0.5, 0.1, 0.9))
entry("svd_thresh", simple(svd.svd_thresh, lambda r: [arr(r, 9, 4)]),
      ("threshold", None, 1.0, 2.5), ("n_pc", None, 1, 2, "all"),
      ("thresh_type", "hard", "soft"))
entry("svd_thresh-n", simple(svd.svd_thresh, lambda r: [arr(r, 9, 4)]),
      ("threshold", None, 1.0, 2.5), ("n_pc", None, 1), ("thresh_type", "hard", "soft"),
      base={"n_pc": 2})
entry("svd_thresh_coef_fast", simple(svd.svd_thresh_coef_fast, lambda r: [
    arr(r, 20, 15), float(r.uniform(1, 6))]),
    ("n_vals", -1), ("extra_vals", 5), ("thresh_type", "hard", "soft"))
entry("svd_thresh_coef", simple(svd.svd_thresh_coef, lambda r: [
    arr(r, 9, 4), lambda v: v * 0.5, abs(float(arr(r)))]),
    ("thresh_type", "hard", "soft"))
entry("transpose_test", simple(validation.transpose_test, lambda r: (
    lambda m: [lambda x, a=None: m @ x, lambda y, a=None: m.T @ y + 1, (4,)])(
        arr(r, 4, 4))),
    ("x_args", None), ("y_shape", None, (4,)), ("y_args", None), ("rng", None),
    base={"rng": 4})

# operators
entry("WaveletConvolve", methods(lambda r: [arr(r, 3, 3, 3)], lambda r: [
    ("op", (arr(r, 1, 6, 6),)), ("adj_op", (arr(r, 1, 3, 6, 6),))])(
        lin.WaveletConvolve), ("method", "scipy", "astropy"))


def wave(cls):
    return methods(lambda r: [pick(r, "db2", "haar", "sym4"), (32, 32)], lambda r: [
        ("op", (arr(r, 32, 32),))])(cls)




entry("WaveletTransform", wave(lin.WaveletTransform), ("level", 4, 2),
      ("mode", "symmetric", "periodization", "zero"), ("compute_backend", "numpy"))
entry("CPUWaveletTransform", wave(owav.CPUWaveletTransform), ("level", 4, 2),
      ("n_batch", 1), ("n_jobs", 1), ("decimated", True, False),
      ("backend", "threading"), ("mode", "symmetric", "periodization", "zero"))


def combo(r):
    mats = [arr(r, 3, 3) for _ in range(2)]
    ops = [lin.LinearParent(lambda x, m=m: m @ x, lambda x, m=m: m.T @ x) for m in mats]
    x, y = arr(r, 3), arr(r, 2, 3)
    return lin.LinearCombo, [ops], lambda c: [c.op(x), c.adj_op(y)]


entry("LinearCombo", combo, ("weights", None, np.array([0.3, 0.7])))


def prox(cls, args, shape=(4, 4), cost=True):
    def make(r):
        given = args(r)
        x = [arr(r, *shape) for _ in range(2)]
        return cls, given, lambda p: [p.op(x[0]), p.op(x[1], 0.7)] + (
            [p.cost(v) for v in x] if cost else [])
    return make


entry("SparseThreshold", prox(px.SparseThreshold, lambda r: [
    lin.Identity(), abs(arr(r, 4, 4))]), ("thresh_type", "soft", "hard"))
entry("Ridge", prox(px.Ridge, lambda r: [lin.Identity(), abs(arr(r, 4, 4))]),
      ("thresh_type", "soft"))
entry("LowRankMatrix", prox(px.LowRankMatrix, lambda r: [float(r.uniform(0.3, 3))],
                            (4, 3, 3)),
      ("thresh_type", "soft", "hard"), ("lowr_type", "standard"), ("initial_rank", None),
      ("operator", None))
entry("LowRankMatrix-ngole", prox(px.LowRankMatrix, lambda r: [
    float(r.uniform(0.3, 3))], (4, 3, 3)),
      ("thresh_type", "soft", "hard"), ("lowr_type", "standard"), ("initial_rank", None),
      ("operator", None), base={"lowr_type": "ngole", "operator": lambda v: v * 0.5})

W4 = np.array([4.0, 3, 2, 1]) / 8


def factor(build, shape=(4,)):
    def make(r):
        p = build(r)
        return p.op, [arr(r, *shape) * 2], lambda v: v
    return make


for _n, _f in {
    "SparseThreshold": factor(lambda r: px.SparseThreshold(lin.Identity(), W4)),
    "LowRankMatrix": factor(lambda r: px.LowRankMatrix(0.8), (3, 2, 2)),
    "LinearCompositionProx": factor(lambda r: px.LinearCompositionProx(
        lin.Identity(), px.SparseThreshold(lin.Identity(), W4))),
    "OrderedWeightedL1Norm": factor(lambda r: px.OrderedWeightedL1Norm(W4)),
    "Ridge": factor(lambda r: px.Ridge(lin.Identity(), W4)),
    "ElasticNet": factor(lambda r: px.ElasticNet(lin.Identity(), W4, W4)),
    "KSupportNorm": factor(lambda r: px.KSupportNorm(0.5, 2)),
    "GroupLASSO": factor(lambda r: px.GroupLASSO(W4), (3, 4)),
}.items():
    entry(_n + ".op", _f, ("extra_factor", 1.0, 2.0, 0.5))


def combined(r):
    p = px.ProximityCombo([px.SparseThreshold(lin.Identity(), W4),
                           px.Ridge(lin.Identity(), W4)])
    x = np.empty(2, dtype=object)
    x[0], x[1] = arr(r, 4), arr(r, 4)
    return p.op, [x], lambda v: v


entry("ProximityCombo.op", combined, ("extra_factor", 1.0, 2.0))


def cwb(r):
    w, data = abs(arr(r, 4)) + 0.1, [arr(r, 4) for _ in range(3)]

    def post(c):
        res = []
        for d in data:
            c.reweight(d)
            res.append(np.array(c.weights, copy=True))
        return res
    return reweight.cwbReweight, [w], post


entry("cwbReweight", cwb, ("thresh_factor", 1.0, 2.0), ("verbose", False, True))


class Term:
    def cost(self, x, *a, **k):
        if k.get("verbose"):
            print("term")
        return float(np.sum(x**2))


def costs(r):
    n = int(r.integers(3, 14))
    xs = [1 + arr(r, 1) * 10.0 ** -min(k, 6) for k in range(n)]
    return mcost.costObj, [[Term()]], lambda c: [c.cost] + [
        [c.get_cost(x), c.cost] for x in xs]


entry("costObj", costs, ("initial_cost", 1e6, 1e5), ("tolerance", 1e-4, 1e-2, 1e-6),
      ("cost_interval", 1, 2, None), ("test_range", 4, 2, 6), ("verbose", True, False),
      ("plot_output", None), by_position=False)


def grads(cls):
    def make(r):
        mat, y, x = arr(r, 3, 3), arr(r, 3), arr(r, 3)

        def post(g):
            g.get_grad(x)
            return [g.grad, g.cost(x, verbose=True), g.obs_data.flags.writeable]
        return cls, [y, lambda v: mat @ v, lambda v: mat.T @ v], post
    return make


def parent(r):
    g = grads(gradient.GradParent)(r)
    return g[0], g[1], lambda o: [o.obs_data, o.obs_data.flags.writeable,
                                  o.trans_op_op(np.ones(3))]


entry("GradParent", parent, ("get_grad", None), ("cost", None), ("data_type", None,
      complex), ("input_data_writeable", False, True), ("verbose", True, False))
entry("GradBasic", grads(gradient.GradBasic), ("data_type", None, complex),
      ("input_data_writeable", False, True), ("verbose", True, False),
      by_position=False)


# -- solvers -----------------------------------------------------------------
def fall(v):
    return v * 0.9


def problem(r):
    prob = Problem(r, (3,), False, lo=0.6, hi=0.9)
    w = r.uniform(0.05, 0.3, 3)
    return (prob, gradient.GradBasic(prob.y, prob.op, prob.adj, verbose=False),
            px.SparseThreshold(lin.Identity(), w),
            px.SparseThreshold(lin.Identity(), w / 2))


class Scores:
    """Metrics dictionaries that remember what they were given."""

    @staticmethod
    def new(names=("x_new",)):
        return {"m": {"metric": lambda **k: float(sum(np.sum(v) for v in k.values())),
                      "mapping": {n: n for n in names}, "cst_kwargs": {},
                      "early_stopping": False}}


def finish(names, n=None):
    def post(s):
        early = [np.array(getattr(s, a)) if hasattr(s, a) else None for a in names]
        s.iterate(**({} if n is None else {"max_iter": n}))
        hist = {k: [list(v["index"]), list(v["values"])] for k, v in s.metrics.items()}
        return [early, [np.array(getattr(s, a)) for a in names], hist,
                [int(s.idx), bool(s.converge)]]
    return post


def forward_backward(r):
    prob, grad, p, _ = problem(r)
    return alg.ForwardBackward, [prob.x0(), grad, p], finish(["x_final"], 12)


def gen_forward_backward(r):
    prob, grad, p, q = problem(r)
    return alg.GenForwardBackward, [prob.x0(), grad, [p, q]], finish(["x_final"], 12)


def pogm(r):
    prob, grad, p, _ = problem(r)
    x = prob.x0()
    return alg.POGM, [x.copy(), x.copy(), x.copy(), x.copy(), grad, p], finish(
        ["x_final"], 12)


def condat(r):
    prob, grad, p, q = problem(r)
    return alg.Condat, [prob.x0(), prob.x0(), grad, p, q], finish(
        ["x_final", "y_final"], 12)


def condat_runs(r):
    prob, grad, p, q = problem(r)
    q.weights = r.uniform(0.1, 0.5, 3)
    rw = reweight.cwbReweight(q.weights)

    def build(*args, **kw):
        return alg.Condat(*args, reweight=rw, **kw)
    return build, [prob.x0(), prob.x0(), grad, p, q], finish(["x_final", "y_final"], 2)


def admm(cls):
    def make(r):
        d = arr(r, 3)
        return cls, [arr(r, 3), arr(r, 3), np.zeros(3), lin.Identity(), lin.Identity(),
                     d, (lambda init, obs: 0.4 * obs + 0.1 * init + d,
                         lambda init, obs: 0.4 * obs + 0.1 * init - d)], finish(
                             ["u_final", "v_final"], 12)
    return make


def flat_cost(v):
    return 1.0


def descent(name):
    def make(r):
        prob, grad, p, _ = problem(r)
        return getattr(alg, GD[name]), [prob.x0(), grad, p, Stop(7)], finish(
            ["x_final"], 12)
    return make


class Stop(StopAt):
    def __init__(self, at):
        super().__init__(at, [])


SETUP = (("verbose", False, True), ("progress", True, False))
QUIET = {"progress": False}


def later(fn, *args):
    """A fresh object for every call."""
    return Late(fn, args)


class Late:
    def __init__(self, fn, args):
        self.fn, self.args = fn, args


def resolve(v):
    return v.fn(*v.args) if isinstance(v, Late) else v


SCORES = later(Scores.new)


def solver(name, make, own, base, tail=()):
    """The options of a solver, its own first, in their order."""
    stop = later(Stop, 7)
    entry(name, make, *own, base={"auto_iterate": False, "cost": stop, "metrics": SCORES,
                                  "linear": later(lin.Identity), **QUIET, **base})
    entry(name + "-auto", make, ("cost", "auto", None), ("linear", None),
          base={"auto_iterate": False, **QUIET, **base}, by_position=False)
    entry(name + "-run", make, ("auto_iterate", True, False),
          base={"cost": None, **QUIET, **base}, by_position=False)
    entry(name + "-setup", make, *SETUP, base={"cost": stop, "auto_iterate": False,
                                               **base}, by_position=False)


METRICS = (("metric_call_period", 5, 4, 6, None), ("metrics", None, SCORES))
solver("ForwardBackward", forward_backward, (
    ("cost", "auto"), ("beta_param", 1.0, 0.9), ("lambda_param", 1.0, 0.9),
    ("beta_update", None, fall), ("lambda_update", "fista", None),
    ("auto_iterate", True), *METRICS, ("linear", None)), {})
entry("ForwardBackward-plain", forward_backward,
      ("beta_param", 1.0, 0.9), ("lambda_param", 1.0, 0.9), ("beta_update", None, fall),
      ("lambda_update", "fista", None),
      base={"lambda_update": None, "auto_iterate": False, "cost": None, **QUIET},
      by_position=False)
_xi = {"xi_restart": 0.9}
for _n, _kw in (("adaptive", {"restart_strategy": "adaptive-i", **_xi}),
                ("adaptive-1", {"restart_strategy": "adaptive-1", **_xi}),
                ("adaptive-2", {"restart_strategy": "adaptive-2", **_xi}),
                ("greedy", {"restart_strategy": "greedy", "s_greedy": 1.1,
                            "min_beta": 0.5, **_xi}),
                ("lazy", {}), ("cd", {"a_cd": 3.0})):
    entry("FISTA-" + _n, forward_backward,
          ("restart_strategy", None), ("xi_restart", None), ("min_beta", None),
          ("s_greedy", None),
          ("p_lazy", 1, 0.8), ("q_lazy", 1, 0.8), ("r_lazy", 4, 3.5),
          ("a_cd", None, 2.5),
          base={"auto_iterate": False, "cost": None, **QUIET, **_kw}, by_position=False)
solver("GenForwardBackward", gen_forward_backward, (
    ("cost", "auto"), ("gamma_param", 1.0, 0.9), ("lambda_param", 1.0, 0.9),
    ("gamma_update", None, fall), ("lambda_update", None, fall),
    ("weights", None, [0.3, 0.7]), ("auto_iterate", True), *METRICS, ("linear", None)),
    {})
solver("POGM", pogm, (
    ("cost", "auto"), ("linear", None), ("beta_param", 1.0, 0.9),
    ("sigma_bar", 1.0, 0.9), ("auto_iterate", True), *METRICS), {})
solver("Condat", condat, (
    ("linear", None), ("cost", "auto"), ("reweight", None), ("rho", 0.5, 0.6),
    ("sigma", 1.0, 0.9), ("tau", 1.0, 0.9), ("rho_update", None, fall),
    ("sigma_update", None, fall), ("tau_update", None, fall), ("auto_iterate", True),
    ("max_iter", 150), ("n_rewightings", 1), *METRICS), {})
entry("Condat-runs", condat_runs, ("max_iter", 150, 149), ("n_rewightings", 1, 2),
      base={"cost": None, "metrics": SCORES, "linear": later(lin.Identity),
            "metric_call_period": 1, **QUIET}, by_position=False)
for _n, _c in (("ADMM", alg.ADMM), ("FastADMM", alg.FastADMM)):
    _own = ((("tau", 1, 2.0), ("cost_funcs", None)) if _n == "ADMM" else
            (("cost_funcs", None), ("alpha", 1, 2.0), ("eta", 0.999, 0.5),
             ("tau", 1, 2.0)))
    entry(_n, admm(_c), *_own, base={**QUIET, "metrics": SCORES})
    entry(_n + "-cost", admm(_c), *_own, base={
        **QUIET, "cost_funcs": (lambda u: float(u @ u), lambda v: float(v @ v))})
    entry(_n + "-setup", admm(_c), ("metric_call_period", 5, 4, 6), ("metrics", None),
          *SETUP, base={"metrics": SCORES, "cost_funcs": (flat_cost, flat_cost)},
          by_position=False)
for _n in GD:
    _base = {**QUIET, "metrics": SCORES, "eta": 0.3}
    if _n in ("saga", "generic"):
        _base["epsilon"] = 1.0
    _own = {"rms": (("gamma", 0.5, 0.6),), "momentum": (("beta", 0.9, 0.8),),
            "adam": (("gamma", 0.9, 0.8), ("beta", 0.9, 0.8))}.get(_n, ())
    entry(GD[_n], descent(_n), *_own, ("eta", 1.0, 0.5), ("eta_update", None, fall),
          ("epsilon", 1e-6, 1e-5), ("epoch_size", 1, 2), *METRICS, *SETUP, base=_base,
          by_position=False)


def max_iter(make, base):
    def inner(r):
        cls, args, _ = make(r)
        hist = []
        met = {"m": {"metric": lambda idx: hist.append(int(idx)) or 0.0,
                     "mapping": {"idx": "idx"}, "cst_kwargs": {},
                     "early_stopping": False}}
        more = {} if "ADMM" in cls.__name__ or "Opt" in cls.__name__ else {
            "linear": lin.Identity()}
        s = cls(*args, **{**base, **more, **QUIET, "metrics": met, "metric_call_period": 1})
        return s.iterate, [], lambda v: [v, hist]
    return inner


for _n, _m, _b in (
    ("ForwardBackward", forward_backward, {"auto_iterate": False, "cost": None}),
    ("GenForwardBackward", gen_forward_backward, {"auto_iterate": False, "cost": None}),
    ("POGM", pogm, {"auto_iterate": False, "cost": None}),
    ("Condat", condat, {"auto_iterate": False, "cost": None}),
    ("ADMM", admm(alg.ADMM), {}), ("FastADMM", admm(alg.FastADMM), {}),
):
    _opts = [("max_iter", 150, 149)]
    if _n == "Condat":
        _opts.append(("n_rewightings", 1))
    if "ADMM" not in _n:
        _opts.append(("progbar", None))
    entry(_n + ".iterate", max_iter(_m, _b), *_opts)
for _n in ("vanilla", "adam"):
    def _no_cost(r, n=_n):
        cls, args, post = descent(n)(r)
        return cls, [*args[:3], Stop(None)], post
    entry(GD[_n] + ".iterate", max_iter(_no_cost, {"eta": 0.1}), ("max_iter", 150, 149))

# The required arguments, by their documented names (longest prefix of an entry).
NAMES = {
    "fancy_transpose": "input_data", "MetricObserver": "name metric mapping cst_kwargs",
    "warn": "warn_string", "catch_error": "exception", "convolve": "input_data kernel",
    "filter_convolve": "input_data filters", "gram_schmidt": "matrix",
    "PowerMethod": "operator data_shape", "metrics.": "test ref",
    "gaussian_kernel": "data_shape sigma", "stats.psnr": "data1 data2",
    "psnr_stack": "data1 data2", "gaussian_filter": "data_point sigma",
    "add_noise": "input_data", "thresh": "input_data threshold",
    "positive": "input_data", "find_n_pc": "u_vec", "svd_thresh": "input_data",
    "svd_thresh_coef_fast": "input_data threshold",
    "svd_thresh_coef": "input_data operator threshold",
    "transpose_test": "operator operator_t x_shape", "WaveletConvolve": "filters",
    "WaveletTransform": "wavelet_name shape", "CPUWaveletTransform": "wavelet_name shape",
    "LinearCombo": "operators", "SparseThreshold": "linear weights",
    "Ridge": "linear weights", "LowRankMatrix": "threshold", "cwbReweight": "weights",
    "costObj": "operators", "GradParent": "input_data op trans_op",
    "GradBasic": "input_data op trans_op", "ForwardBackward": "x grad prox",
    "FISTA-": "x grad prox", "GenForwardBackward": "x grad prox_list",
    "POGM": "u x y z grad prox", "Condat": "x y grad prox prox_dual",
    "ADMM": "u v mu A B b optimizers", "FastADMM": "u v mu A B b optimizers",
    **{name: "x grad prox cost" for name in GD.values()},
}
# Without options: (callable, arguments, names[, what to do with the result]).
for _n, _f, _a, _names, *_p in (
    ("rotate180", np_adjust.rotate, lambda r: [image(r)], "input_data"),
    ("rotate_stack", np_adjust.rotate_stack, lambda r: [arr(r, 2, 3, 3)], "input_data"),
    ("pad2d", np_adjust.pad2d, lambda r: [image(r), (1, 2)], "input_data padding"),
    ("ftr", np_adjust.ftr, lambda r: [arr(r, 2, 3, 4)], "input_data"),
    ("ftl", np_adjust.ftl, lambda r: [arr(r, 2, 3, 4)], "input_data"),
    ("cube2map", transform.cube2map, lambda r: [arr(r, 6, 2, 2), (2, 3)],
     "data_cube layout"),
    ("map2cube", transform.map2cube, lambda r: [arr(r, 4, 6), (2, 3)],
     "data_map layout"),
    ("map2matrix", transform.map2matrix, lambda r: [arr(r, 4, 6), (2, 3)],
     "data_map layout"),
    ("matrix2map", transform.matrix2map, lambda r: [arr(r, 4, 6), (4, 6)],
     "data_matrix map_shape"),
    ("cube2matrix", transform.cube2matrix, lambda r: [arr(r, 3, 2, 2)], "data_cube"),
    ("matrix2cube", transform.matrix2cube, lambda r: [arr(r, 4, 3), (2, 2)],
     "data_matrix im_shape"),
    ("check_float", types.check_float, lambda r: [int(r.integers(9))], "input_obj"),
    ("check_int", types.check_int, lambda r: [float(r.uniform(0, 9))], "input_obj"),
    ("nuclear_norm", matrix.nuclear_norm, lambda r: [image(r)], "input_data"),
    ("project", matrix.project, lambda r: [arr(r, 3), arr(r, 3)], "u_vec v_vec"),
    ("rot_matrix", matrix.rot_matrix, lambda r: [float(r.uniform(-9, 9))], "angle"),
    ("rotate", matrix.rotate, lambda r: [image(r), np.pi / 2], "matrix angle"),
    ("min_max_normalize", metrics.min_max_normalize, lambda r: [image(r)], "img"),
    ("mad", stats.mad, lambda r: [image(r)], "input_data"),
    ("mse", stats.mse, lambda r: [image(r), image(r)], "data1 data2"),
    ("sigma_mad", stats.sigma_mad, lambda r: [image(r)], "input_data"),
    ("mex_hat", sfilter.mex_hat, lambda r: [arr(r, 5), 0.7], "data_point sigma"),
    ("mex_hat_dir", sfilter.mex_hat_dir, lambda r: [arr(r, 5), arr(r, 5), 0.7],
     "data_gauss data_mex sigma"),
    ("calculate_svd", svd.calculate_svd, lambda r: [arr(r, 4, 3)], "input_data"),
    ("trim_filter", swav.trim_filter, lambda r: [np.pad(image(r), 2)], "filter_array"),
    ("get_backend", backend.get_backend, lambda r: [pick(r, "numpy", "cupy")],
     "backend", lambda v: v[1]),
    ("LinearParent", lin.LinearParent, lambda r: [np.sin, np.cos], "op adj_op",
     lambda o: [o.op(1.0), o.adj_op(1.0)]),
    ("MatrixOperator", lin.MatrixOperator, lambda r: [arr(r, 3, 2)], "array",
     lambda o: [o.op(np.ones(2)), o.adj_op(np.ones(3))]),
    ("ProximityParent", px.ProximityParent, lambda r: [np.sin, np.cos], "op cost",
     lambda o: [o.op(1.0), o.cost(1.0)]),
    ("LinearCompositionProx", px.LinearCompositionProx, lambda r: [
        lin.Identity(), px.SparseThreshold(lin.Identity(), W4)], "linear_op prox_op",
     lambda o: [o.op(4 * W4 - 1), o.cost(W4)]),
    ("ProximityCombo", px.ProximityCombo, lambda r: [
        [px.SparseThreshold(lin.Identity(), W4), px.IdentityProx()]], "operators",
     lambda o: o.op(np.array([W4, W4]))),
    ("OrderedWeightedL1Norm", px.OrderedWeightedL1Norm, lambda r: [W4], "weights",
     lambda o: o.op(4 * W4 - 1)),
    ("ElasticNet", px.ElasticNet, lambda r: [lin.Identity(), 0.3, 0.6],
     "linear alpha beta", lambda o: [o.op(4 * W4 - 1), o.cost(W4)]),
    ("KSupportNorm", px.KSupportNorm, lambda r: [0.3, 2], "beta k_value",
     lambda o: o.op(4 * W4 - 1)),
    ("GroupLASSO", px.GroupLASSO, lambda r: [W4], "weights",
     lambda o: o.op(np.array([4 * W4 - 1, W4]))),
    ("Observable", Observable, lambda r: [["a", "b"]], "signals",
     lambda o: o.notify_observers("a")),
):
    NAMES[_n] = _names
    entry(_n, simple(_f, _a, *_p))
KEYED = [name for name in ENTRIES if ".iterate" not in name and not name.endswith(".op")
         and any(name.startswith(n) for n in NAMES)]

# What is drawn with no seed is no two times the same: see C25.
PAIRS = [(name, j) for name, e in ENTRIES.items() for j in range(len(e[2]))
         if e[2][j][0] != "rng"]


def case(ctx, rng, i):
    name, j = PAIRS[i % len(PAIRS)]
    make, base, options, by_position = ENTRIES[name]
    param, default, *others = options[j]
    seed = int(rng.integers(2**31))
    ctx.info(entry=name, param=param, default=repr(default), seed=seed)

    def call(pos, kw):
        fn, args, post = make(np.random.default_rng(seed))
        pos = [resolve(v) for v in pos]
        kw = {k: resolve(v) for k, v in kw.items()}
        return clean_path(watch(lambda: fn(*args, *pos, **kw), post))

    rest = {k: v for k, v in base.items() if k != param}
    omitted = call([], rest)
    named = call([], {**rest, param: default})
    for key in sorted(set(omitted) | set(named)):
        ctx.check(same(omitted.get(key), named.get(key)),
                  f"{name}: without {param} {key} is {str(omitted.get(key))[:300]}, with "
                  f"{param}={default!r} {str(named.get(key))[:300]}")
    if by_position:
        prefix = [rest.get(p, d) for p, d, *_ in options[:j]] + [default]
        names = {p for p, *_ in options[: j + 1]}
        placed = call(prefix, {k: v for k, v in rest.items() if k not in names})
        for key in sorted(set(named) | set(placed)):
            ctx.check(same(named.get(key), placed.get(key)),
                      f"{name}: {key} is {str(placed.get(key))[:300]} with {param} given "
                      f"by position, {str(named.get(key))[:300]} by name")
    if others:
        other = call([], {**rest, param: pick(rng, *others)})
        alike = all(same(other.get(k), named.get(k)) for k in {**other, **named})
        ctx.obs("other value alike" if alike else "other value differs")
    ctx.obs("arguments that raise" if "error" in named else "arguments that work")
    ctx.seen(name, param, seed)
    ctx.sample(entry=name, param=param)


def keywords(ctx, rng, i):
    """Required arguments by name."""
    name = KEYED[i % len(KEYED)]
    make, base, _, _ = ENTRIES[name]
    names = NAMES[max((n for n in NAMES if name.startswith(n)), key=len)].split()
    seed = int(rng.integers(2**31))
    first = int(rng.integers(len(names)))
    ctx.info(entry=name, names=names, seed=seed)

    def call(n):
        fn, args, post = make(np.random.default_rng(seed))
        kw = {k: resolve(v) for k, v in base.items()}
        return clean_path(watch(
            lambda: fn(*args[:n], **dict(zip(names[n:], args[n:])), **kw), post))

    placed, named = call(len(names)), call(first)
    for key in sorted(set(named) | set(placed)):
        ctx.check(same(named.get(key), placed.get(key)),
                  f"{name}: {key} is {str(named.get(key))[:300]} with {names[first:]} "
                  f"given by name, {str(placed.get(key))[:300]} by position")
    ctx.seen("names", name, first, seed)
    ctx.sample(entry=name)


SECTIONS = [
    Section("keywords", keywords, 5 * len(KEYED), 60 * len(KEYED)),
    Section("defaults", case, 5 * len(PAIRS), 100 * len(PAIRS)),
]
