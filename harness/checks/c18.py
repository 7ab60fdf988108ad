"""C18: configurations outside the documented domain are refused, others work."""

import numpy as np
from checks.c12 import GD
from core import Section
from gens import pick
from modopt.base import observable, types
from modopt.base.np_adjust import pad2d
from modopt.base.transform import cube2map, map2cube
from modopt.math import convolve, matrix, metrics, stats
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic, GradParent
from modopt.opt.reweight import cwbReweight
from modopt.signal import noise, svd, validation, wavelet
from util import mute, quiet

RULE = (
    "A case draws a valid configuration of one public entry point, spoils one "
    "parameter in a documented way, and judges that exactly the documented exception "
    "is raised, with nothing iterated and no state changed, and that the valid "
    "neighbour is accepted and runs.  Non-trivial: both sides were exercised."
)

CASES = {}


def case(exc):
    def deco(f):
        CASES[f.__name__] = (exc, f)
        return f
    return deco


NOT_FLOAT = (1, 0, None, "1.0", [1.0], np.array([1.0]), 1j, True, np.float32(1))
NOT_CALLABLE = (1.0, "fista2", [1], np.ones(2), 0, {})
NOT_ARRAY = ([1.0, 2.0, 3.0], (1.0, 2.0, 3.0), 1.0, None, "x")


class Setup:
    """A small problem whose gradient counts its calls."""

    def __init__(self, rng):
        self.n = int(rng.integers(2, 5))
        self.y = rng.standard_normal(self.n)
        self.calls = 0
        self.x = rng.standard_normal(self.n)
        self.rng = rng

    def grad(self):
        def op(x):
            self.calls += 1
            return 0.5 * x

        return GradBasic(self.y.copy(), op, lambda x: 0.5 * x, verbose=False)

    def prox(self):
        return px.SparseThreshold(lin.Identity(), 0.1)

    def solver(self, kind, x="default", **kw):
        x = self.x if isinstance(x, str) else x
        kw.setdefault("progress", False)
        if kind == "fb":
            return alg.ForwardBackward(x, self.grad(), self.prox(), cost=None,
                                       auto_iterate=False, **kw)
        if kind == "gfb":
            return alg.GenForwardBackward(x, self.grad(), [self.prox(), self.prox()],
                                          cost=None, auto_iterate=False, **kw)
        if kind == "pogm":
            return alg.POGM(self.x, x, self.x, self.x, self.grad(), self.prox(),
                            cost=None, auto_iterate=False, **kw)
        if kind == "condat":
            return alg.Condat(x, self.x, self.grad(), self.prox(), self.prox(),
                              cost=None, auto_iterate=False, **kw)
        return getattr(alg, GD[kind])(x, self.grad(), self.prox(), None, **kw)


class Real(float):
    """A kind of float."""


PARAMS = {
    "fb": ("beta_param", "lambda_param"), "gfb": ("gamma_param", "lambda_param"),
    "pogm": ("beta_param", "sigma_bar"), "condat": ("rho", "sigma", "tau"),
    "vanilla": ("eta", "epsilon"), "ada": ("eta", "epsilon"),
    "rms": ("eta", "epsilon", "gamma"), "momentum": ("eta", "epsilon", "beta"),
    "adam": ("eta", "epsilon", "gamma", "beta"), "saga": ("eta", "epsilon"),
    "generic": ("eta", "epsilon"),
}
UPDATES = {
    "fb": ("beta_update", "lambda_update"), "gfb": ("gamma_update", "lambda_update"),
    "condat": ("rho_update", "sigma_update", "tau_update"), "vanilla": ("eta_update",),
    "ada": ("eta_update",), "rms": ("eta_update",), "momentum": ("eta_update",),
    "adam": ("eta_update",), "saga": ("eta_update",), "generic": ("eta_update",),
}


@case(TypeError)
def solver_parameter_type(rng):
    s = Setup(rng)
    kind = pick(rng, *sorted(PARAMS))
    name = pick(rng, *PARAMS[kind])
    bad = pick(rng, *NOT_FLOAT)
    if name == "gamma" and kind == "rms":  # compared with its range first
        bad = pick(rng, 1, 0)
    return (f"{kind} {name}={bad!r}", lambda: s.solver(kind, **{name: bad}),
            lambda: s.solver(kind, **{name: pick(rng, 0.5, np.float64(0.5), Real(0.5))}
                             ).iterate(max_iter=2), s)


@case(TypeError)
def solver_update_type(rng):
    s = Setup(rng)
    kind = pick(rng, *sorted(UPDATES))
    name = pick(rng, *UPDATES[kind])
    bad = pick(rng, *NOT_CALLABLE)
    good = (lambda v, *a: v * 0.9) if rng.random() < 0.6 else None
    return (f"{kind} {name}={bad!r}", lambda: s.solver(kind, **{name: bad}),
            lambda: s.solver(kind, **{name: good}).iterate(max_iter=2), s)


@case(TypeError)
def solver_initial_guess(rng):
    s = Setup(rng)
    kind = pick(rng, *sorted(PARAMS))
    bad = pick(rng, *NOT_ARRAY[:2], 1.0, None)
    return (f"{kind} x={bad!r}", lambda: s.solver(kind, x=bad),
            lambda: s.solver(kind, x=s.x).iterate(max_iter=2), s)


@case(TypeError)
def other_initial_guesses(rng):
    s = Setup(rng)
    bad = pick(rng, *NOT_ARRAY)
    which = int(rng.integers(5))

    def make(b):
        if which == 4:
            return alg.Condat(s.x, b, s.grad(), s.prox(), s.prox(), cost=None,
                              auto_iterate=False, progress=False)
        args = [s.x] * 4
        args[which] = b
        return alg.POGM(*args, s.grad(), s.prox(), cost=None, auto_iterate=False,
                        progress=False)

    return f"guess {which}={bad!r}", lambda: make(bad), lambda: make(s.x), s


@case(TypeError)
def metrics_type(rng):
    s = Setup(rng)
    kind = pick(rng, *sorted(PARAMS))
    bad = pick(rng, [1], ("a",), 3, "metrics", np.ones(2))
    good = pick(rng, None, {})
    return (f"{kind} metrics={bad!r}", lambda: s.solver(
        kind, metrics=bad, **({"linear": lin.Identity()} if kind in (
            "fb", "gfb", "pogm", "condat") else {})),
            lambda: s.solver(kind, metrics=good).iterate(max_iter=2), s)


@case(ValueError)
def metrics_without_linear(rng):
    s = Setup(rng)
    kind = pick(rng, "fb", "gfb")
    m = {"m": {"metric": lambda x: 1.0, "mapping": {"x_new": "x"}, "cst_kwargs": {},
               "early_stopping": False}}
    return (f"{kind} with metrics and no linear operator",
            lambda: s.solver(kind, metrics=m),
            lambda: s.solver(kind, metrics=m, linear=lin.Identity()).iterate(
                max_iter=2), s)


@case(ValueError)
def pogm_sigma_bar(rng):
    s = Setup(rng)
    bad = float(pick(rng, -1e-9, -0.5, 1 + 1e-9, 2.0, -3.0, np.inf))
    good = pick(rng, float, np.float64)(pick(rng, 0.0, 1.0, 0.3))
    return (f"sigma_bar={bad}", lambda: s.solver("pogm", sigma_bar=bad),
            lambda: s.solver("pogm", sigma_bar=good).iterate(max_iter=2), s)


@case(ValueError)
def adam_ranges(rng):
    s = Setup(rng)
    kind = pick(rng, "adam", "adam", "rms")
    name = pick(rng, "gamma", "beta") if kind == "adam" else "gamma"
    bad = float(pick(rng, -1e-9, -1.0, 1 + 1e-9, 4.0))
    if kind == "adam" and rng.random() < 0.3:
        bad = 1.0
    good = pick(rng, float, np.float64)(pick(rng, 0.0, 0.3, 0.999))
    return (f"{kind} {name}={bad}", lambda: s.solver(kind, **{name: bad}),
            lambda: s.solver(kind, **{name: good}).iterate(max_iter=2), s)


@case(ValueError)
def fista_options(rng):
    s = Setup(rng)
    greedy = {"restart_strategy": "greedy", "xi_restart": 0.9, "min_beta": 0.1,
              "s_greedy": 1.1}
    adaptive = {"restart_strategy": pick(rng, "adaptive", "adaptive-i", "adaptive-1",
                                         "adaptive-ii", "adaptive-2"),
                "xi_restart": 0.9}
    bad, good = pick(
        rng,
        ({"a_cd": float(pick(rng, 2.0, 1.0, 0.0, -3.0))}, {"a_cd": 2.001}),
        ({"restart_strategy": pick(rng, "no", "Greedy", "adaptive-iii", "", "none")},
         {"restart_strategy": None}),
        ({**greedy, "s_greedy": float(pick(rng, 1.0, 0.5))}, greedy),
        ({**greedy, "s_greedy": None}, greedy),
        ({**greedy, "min_beta": None}, greedy),
        ({**greedy, "xi_restart": float(pick(rng, 1.0, 1.5))}, greedy),
        ({**greedy, "xi_restart": None}, greedy),
        ({**adaptive, "xi_restart": float(pick(rng, 1.0, 3.0))}, adaptive),
        ({**adaptive, "xi_restart": None}, adaptive),
        ({**pick(rng, adaptive, greedy), "a_cd": 3.0}, adaptive),
    )
    direct = rng.random() < 0.4
    return (f"FISTA {bad}",
            (lambda: alg.FISTA(**bad)) if direct else lambda: s.solver("fb", **bad),
            lambda: s.solver("fb", **good).iterate(max_iter=2), s)


@case(ValueError)
def gfb_weights(rng):
    s = Setup(rng)
    bad = pick(rng, [0.5, 0.6], [0.5], [0.2, 0.3, 0.5], [1, 0], [0.0, 0.0],
               np.array([0.5, 0.49]), (0.4, 0.4), np.array([1, 0]), [-0.5, 0.5],
               [0.6, -0.4], [1.0, 1.0], [0.99, 0.0])
    good = pick(rng, [0.5, 0.5], (0.1, 0.9), np.array([0.3, 0.7]), None)
    return (f"weights={bad!r}", lambda: s.solver("gfb", weights=bad),
            lambda: s.solver("gfb", weights=good).iterate(max_iter=2), s)


@case(TypeError)
def gfb_weights_type(rng):
    s = Setup(rng)
    bad = pick(rng, 1.0, "ab", {0.5: 1}, 2)
    return (f"weights={bad!r}", lambda: s.solver("gfb", weights=bad),
            lambda: s.solver("gfb", weights=[0.5, 0.5]).iterate(max_iter=2), s)


@case(ValueError)
def owl_weights(rng):
    n = int(rng.integers(2, 7))
    good = np.sort(rng.uniform(0, 1, n))[::-1].copy()
    bad = good.copy()
    if rng.random() < 0.5:
        k = int(rng.integers(n - 1))
        bad[k + 1] = bad[k] + float(pick(rng, 1e-6, 0.1, 3.0))
    else:
        bad[-1] = -float(pick(rng, 1e-6, 1.0))
    return (f"OWL weights {bad}", lambda: px.OrderedWeightedL1Norm(bad),
            lambda: px.OrderedWeightedL1Norm(good).op(rng.standard_normal(n)), None)


@case(ValueError)
def ksupport_k(rng):
    bad = pick(rng, 0, -1, -7, 0.5)
    p = px.KSupportNorm(0.5, 2)

    def fail():
        if rng.random() < 0.5:
            px.KSupportNorm(0.5, bad)
        else:
            p.k_value = bad

    def ok():
        assert p.k_value == 2
        p.k_value = 1
        p.op(rng.standard_normal(4))

    return f"k={bad}", fail, ok, None


@case(ValueError)
def low_rank_type(rng):
    bad = pick(rng, "", "Standard", "other", None, 1)
    x = rng.standard_normal((3, 2, 2))
    return (f"lowr_type={bad!r}",
            lambda: px.LowRankMatrix(0.1, lowr_type=bad).op(x),
            lambda: px.LowRankMatrix(0.1, lowr_type="standard").op(x), None)


@case(TypeError)
def combo_types(rng):
    bad = pick(rng, lin.Identity(), 1, "ab", {1: lin.Identity()}, None)
    badp = pick(rng, px.Positivity(), 1, "ab", {1: px.Positivity()}, None)
    which = pick(rng, "lin", "prox", "weights", "wdtype", "cost")
    two = [lin.Identity(), lin.Identity()]
    if which == "lin":
        return f"LinearCombo({bad!r})", lambda: lin.LinearCombo(bad), lambda: (
            lin.LinearCombo(pick(rng, two, tuple(two), np.array(two)))), None
    if which == "prox":
        return f"ProximityCombo({badp!r})", lambda: px.ProximityCombo(badp), lambda: (
            px.ProximityCombo([px.Positivity()])), None
    if which == "weights":
        b = pick(rng, 1.0, "ab", {0.5: 1})
        return f"LinearCombo weights {b!r}", lambda: lin.LinearCombo(two, b), lambda: (
            lin.LinearCombo(two, (0.5, 0.2))), None
    if which == "wdtype":
        n = int(rng.integers(1, 5))
        b = pick(rng, list(range(1, n + 1)), ["a"] * n, np.arange(n), [1j] * n,
                 [True] * n, [None] * n)
        ops = [lin.Identity() for _ in range(n)]
        return f"LinearCombo weights {b!r}", lambda: lin.LinearCombo(ops, b), lambda: (
            lin.LinearCombo(ops, [float(k) for k in range(n)])), None
    b = pick(rng, px.Positivity(), 3, "ab", {1: 2})
    return f"costObj({b!r})", lambda: costObj(b), lambda: costObj(
        pick(rng, [px.Positivity()], (px.Positivity(),))), None


class Bare:
    pass


class OnlyOp:
    def op(self, x, *a, **k):
        return x


class OnlyAdj:
    def adj_op(self, x):
        return x


class OnlyCost:
    def cost(self, *a, **k):
        return 0.0


@case(ValueError)
def combo_contents(rng):
    good_l, good_p = lin.Identity(), px.Positivity()
    which = pick(rng, "lin", "lin-empty", "lin-count", "prox", "prox-empty", "cost")

    def placed(bad, good):
        res = [good, good]
        res.insert(int(rng.integers(3)), bad)
        return res

    if which == "lin":
        bad = placed(pick(rng, Bare, OnlyOp, OnlyAdj)(), good_l)
        return f"LinearCombo {bad}", lambda: lin.LinearCombo(bad), lambda: (
            lin.LinearCombo([good_l])), None
    if which == "lin-empty":
        bad = pick(rng, [], (), np.array([]))
        return "empty LinearCombo", lambda: lin.LinearCombo(bad), lambda: (
            lin.LinearCombo([good_l])), None
    if which == "lin-count":
        ws = pick(rng, [0.5], [0.1, 0.2, 0.3], [])
        return f"LinearCombo weights {ws}", lambda: lin.LinearCombo(
            [good_l, good_l], ws), lambda: lin.LinearCombo([good_l], [1.0]), None
    if which == "prox":
        bad = placed(pick(rng, Bare, OnlyOp, OnlyCost)(), good_p)
        return f"ProximityCombo {bad}", lambda: px.ProximityCombo(bad), lambda: (
            px.ProximityCombo([good_p])), None
    if which == "prox-empty":
        bad = pick(rng, [], (), np.array([]))
        return "empty ProximityCombo", lambda: px.ProximityCombo(bad), lambda: (
            px.ProximityCombo([good_p])), None
    bad = placed(pick(rng, Bare, OnlyOp)(), good_p)
    return f"costObj {bad}", lambda: costObj(bad), lambda: costObj([good_p]), None


@case(TypeError)
def operator_callables(rng):
    bad = pick(rng, None, 1, "op", np.ones(2), [len])
    y = rng.standard_normal(3)

    def ident(x, *a, **k):
        return x

    which = pick(rng, "grad-op", "grad-trans", "grad-get", "grad-cost", "lin-op",
                 "lin-adj", "prox-op", "prox-cost", "set", "check", "transpose-test",
                 "combo", "costobj")
    if which in ("grad-get", "grad-cost") and bad is None:
        bad = 1
    g = GradParent(y.copy(), ident, ident, verbose=False)

    def fail():
        if which == "grad-op":
            GradParent(y.copy(), bad, ident, verbose=False)
        elif which == "grad-trans":
            GradBasic(y.copy(), ident, bad, verbose=False)
        elif which == "grad-get":
            GradParent(y.copy(), ident, ident, get_grad=bad, verbose=False)
        elif which == "grad-cost":
            GradParent(y.copy(), ident, ident, cost=bad, verbose=False)
        elif which == "lin-op":
            lin.LinearParent(bad, ident)
        elif which == "lin-adj":
            lin.LinearParent(ident, bad)
        elif which == "prox-op":
            px.ProximityParent(bad, ident)
        elif which == "prox-cost":
            px.ProximityParent(ident, bad)
        elif which == "set":
            g.op = bad
        elif which == "check":
            types.check_callable(bad)
        elif which == "combo":  # attributes of the right names that are no methods
            part = Bare()
            part.op, part.adj_op, part.cost = ident, ident, ident
            setattr(part, pick(rng, "op", "adj_op", "cost"), bad)
            if callable(part.op) and callable(part.adj_op):
                px.ProximityCombo([px.Positivity(), part])
            elif callable(part.op):
                lin.LinearCombo([lin.Identity(), part])
            else:
                pick(rng, px.ProximityCombo, lin.LinearCombo)([part])
        elif which == "costobj":
            part = Bare()
            part.cost = bad
            costObj([px.Positivity(), part])
        else:
            if rng.random() < 0.5:
                validation.transpose_test(bad, ident, (3,))
            else:
                validation.transpose_test(ident, bad, (3,))

    def ok():
        assert g.op is ident
        lin.LinearParent(ident, ident)
        px.ProximityParent(ident, ident)
        GradParent(y.copy(), ident, ident, get_grad=ident, cost=ident, verbose=False)

    return f"{which} {bad!r}", fail, ok, None


@case(TypeError)
def observed_data(rng):
    y = rng.standard_normal(4)
    g = GradBasic(y.copy(), lambda x: x, lambda x: x, data_type=float, verbose=False)
    bad = pick(rng, "text", None, {1: 2}, np.ones(2, dtype=complex))
    typed = isinstance(bad, np.ndarray)
    gc = GradBasic(y.copy(), lambda x: x, lambda x: x, data_type=np.float64,
                   verbose=False)

    def fail():
        if typed:
            gc.obs_data = bad
        else:
            g.obs_data = bad

    def ok():
        assert np.array_equal(g.obs_data, y) and np.array_equal(gc.obs_data, y)
        g.obs_data = 2 * y
        g.get_grad(y)
        assert np.allclose(g.grad, -y)

    return f"observed data {bad!r}", fail, ok, None


@case(ValueError)
def signal_values(rng):
    which = pick(rng, "thresh", "noise", "noise-levels", "npc", "findn", "reweight",
                 "conv", "conv-dim", "kernel", "psnr", "stack", "gram", "rot", "mask",
                 "pad", "cube", "layout", "map", "transform")
    x = rng.standard_normal((6, 4))
    data = np.abs(x)
    bad_word = pick(rng, "other", "", "HARD", "Soft", None)
    if which == "thresh":
        return "thresh type", lambda: noise.thresh(x, 0.1, threshold_type=bad_word), (
            lambda: noise.thresh(x, 0.1, threshold_type=pick(rng, "hard", "soft"))), None
    if which == "noise":
        return "noise type", lambda: noise.add_noise(data, noise_type=bad_word), (
            lambda: noise.add_noise(data, noise_type=pick(rng, "gauss", "poisson"),
                                    rng=1)), None
    if which == "noise-levels":
        k = int(pick(rng, 1, 5, 7))
        return f"{k} levels for 6", lambda: noise.add_noise(x, np.ones(k)), (
            lambda: noise.add_noise(x, np.ones(6), rng=1)), None
    if which == "npc":
        bad = pick(rng, 1.5, "some", [1], -1.5, 0, -1, -int(rng.integers(2, 9)))
        return f"n_pc={bad!r}", lambda: svd.svd_thresh(x, n_pc=bad), (
            lambda: svd.svd_thresh(x, n_pc=pick(rng, "all", 1, 3))), None
    if which == "findn":
        k = int(pick(rng, 2, 3, 5, 8, 12))
        return f"{k} rows", lambda: svd.find_n_pc(rng.standard_normal((k, 2))), (
            lambda: svd.find_n_pc(np.linalg.svd(rng.standard_normal((9, 3)))[0])), None
    if which == "reweight":
        w = rng.uniform(0.5, 1, (3, 2))
        return "reweight shape", lambda: cwbReweight(w).reweight(
            rng.standard_normal(pick(rng, (2, 3), (3, 3), (6,)))), (
            lambda: cwbReweight(w).reweight(rng.standard_normal((3, 2)))), None
    if which == "conv":
        return "convolution method", lambda: convolve.convolve(
            x, np.ones((3, 3)), method=bad_word), (
            lambda: convolve.convolve(x, np.ones((3, 3)), method="scipy")), None
    if which == "conv-dim":
        return "kernel dimensions", lambda: convolve.convolve(
            x, np.ones(3)), lambda: convolve.convolve(x, np.ones((3, 3))), None
    if which == "kernel":
        return "kernel norm", lambda: stats.gaussian_kernel((3, 3), 1, norm=bad_word), (
            lambda: stats.gaussian_kernel((3, 3), 1, norm="sum")), None
    if which == "psnr":
        return "psnr method", lambda: stats.psnr(data, data + 1, method=bad_word), (
            lambda: stats.psnr(data, data + 1, method="wiki")), None
    if which == "stack":
        return "psnr_stack of images", lambda: stats.psnr_stack(x, x), (
            lambda: stats.psnr_stack(x[None], x[None] + 1)), None
    if which == "gram":
        return "gram_schmidt", lambda: matrix.gram_schmidt(x.T, return_opt=bad_word), (
            lambda: matrix.gram_schmidt(x.T, return_opt="both")), None
    if which == "rot":
        return "rotate", lambda: matrix.rotate(x, 1.0), lambda: matrix.rotate(
            x[:4], 1.0), None
    if which == "mask":
        return "mask", lambda: metrics.mse(x, x, mask=pick(rng, "a", 3, [1, 0])), (
            lambda: metrics.mse(x, x, mask=(data > 0.5).astype(float))), None
    if which == "pad":
        return "padding", lambda: pad2d(x, pick(rng, 1.5, "a", None)), lambda: pad2d(
            x, pick(rng, 1, (1, 2), [2, 1], np.array([1, 1]))), None
    if which == "cube":
        return "cube", lambda: cube2map(pick(rng, x, x[None, None]), (1, 1)), (
            lambda: cube2map(x[None], (1, 1))), None
    if which == "layout":
        return "layout", lambda: cube2map(np.ones((4, 2, 2)), pick(
            rng, (2, 3), (1, 3), (4, 4))), (
            lambda: cube2map(np.ones((4, 2, 2)), pick(rng, (2, 2), (4, 1)))), None
    if which == "map":
        return "map", lambda: map2cube(np.ones((6, 6)), pick(
            rng, (4, 4), (5, 2), (4, 5))), (
            lambda: map2cube(np.ones((6, 6)), pick(rng, (2, 3), (6, 1)))), None
    return "wavelet name", lambda: lin.WaveletTransform(
        pick(rng, "nope", "", "Haar9"), (8, 8)), (
        lambda: lin.WaveletTransform("haar", (8, 8), level=2)), None


@case(TypeError)
def signal_types(rng):
    which = pick(rng, "svd", "coef", "float", "int", "array", "positive", "execute")
    x = rng.standard_normal((4, 3))
    if which == "svd":
        return "SVD of non-2D", lambda: svd.calculate_svd(pick(
            rng, x[0], x[None], [[1.0, 2.0]], 3.0)), lambda: svd.calculate_svd(x), None
    if which == "coef":
        return "operator", lambda: svd.svd_thresh_coef(x, pick(rng, 1, "a", None), 0.1), (
            lambda: svd.svd_thresh_coef(rng.standard_normal((4, 2)),
                                        lambda v: v[:, None], 0.1)), None
    if which == "float":
        return "check_float", lambda: types.check_float(pick(rng, "1.0", None, {}, {1})), (
            lambda: types.check_float(pick(rng, 1, 1.0, [1], (1, 2), np.ones(2)))), None
    if which == "int":
        return "check_int", lambda: types.check_int(pick(rng, "1", None, {}, {1})), (
            lambda: types.check_int(pick(rng, 1, 1.0, [1], (1, 2), np.ones(2)))), None
    if which == "array":
        return "check_npndarray", lambda: types.check_npndarray(pick(
            rng, [1.0], 1.0, None)), lambda: types.check_npndarray(
            x.copy(), dtype=np.float64), None
    if which == "execute":
        return "command", lambda: wavelet.execute(pick(rng, ["ls"], 1, None)), (
            lambda: wavelet.execute("true")), None
    from modopt.signal.positivity import positive
    return "positive", lambda: positive(pick(rng, "abc", None, {1: 2})), (
        lambda: positive(pick(rng, -1, -1.5, x))), None


@case(ValueError)
def unknown_signals(rng):
    names = ["a", "b"][:int(rng.integers(1, 3))]
    o = observable.Observable(names)
    seen = []

    def obs(signal):
        seen.append(signal.x)

    bad = pick(rng, "c", "", "A", "ab")
    how = pick(rng, "add", "remove")

    def fail():
        if how == "add":
            o.add_observer(bad, obs)
        else:
            o.remove_observer(bad, obs)

    def ok():
        assert not seen
        o.add_observer("a", obs)
        o.notify_observers("a", x=1)
        assert seen == [1]

    return f"{how} of signal {bad!r}", fail, ok, None


@case(ValueError)
def wavelet_backend(rng):
    bad = pick(rng, "cuda", "", "torch", None, "cupy")
    return f"backend {bad!r}", lambda: lin.WaveletTransform(
        "haar", (8, 8), compute_backend=bad), lambda: lin.WaveletTransform(
        "haar", (8, 8), level=2, compute_backend="numpy"), None


@case(NotImplementedError)
def undecimated(rng):
    return "undecimated transform", lambda: lin.WaveletTransform(
        "haar", (8, 8), level=2, decimated=False), lambda: lin.WaveletTransform(
        "haar", (8, 8), level=2, decimated=True), None


NAMES = sorted(CASES)


def rejections(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    exc, make = CASES[name]
    with quiet():
        what, fail, ok, setup = make(rng)
    ctx.info(entry=name, what=what)
    calls = setup.calls if setup else 0

    def muted():
        mute(fail)

    ctx.raises(exc, muted, f"{what} must be refused with {exc.__name__}")
    if setup and name not in ("solver_parameter_type", "pogm_sigma_bar"):
        ctx.check(setup.calls == calls, f"{what}: iterated before being refused")
    try:
        mute(ok)
    except Exception as err:  # noqa: BLE001
        ctx.fail(f"{name}: the valid neighbour was refused: {type(err).__name__}: {err}")
    ctx.obs("valid configurations accepted")
    ctx.seen(name, what)
    ctx.sample()


class Foreign:
    """An operator that inherits from none of the library's classes."""

    def __init__(self, n):
        self.y = np.arange(float(n))

    def get_grad(self, x):
        self.grad = x - self.y

    def op(self, x, extra_factor=1.0):
        return x

    def adj_op(self, x):
        return x

    def cost(self, x, *args, **kwargs):
        return 0.0

    def get_cost(self, *args):
        return False


def foreign(ctx, rng, i):
    """Operators of other classes work, with a warning."""
    kind = pick(rng, "fb", "gfb", "pogm", "condat", "vanilla")
    n = int(rng.integers(2, 5))
    f = Foreign(n)
    x = rng.standard_normal(n)
    use = pick(rng, "grad", "prox", "both")
    s = Setup(rng)
    s.n = n
    grad = f if use in ("grad", "both") else GradBasic(
        f.y.copy(), lambda v: v, lambda v: v, verbose=False)
    prox = f if use in ("prox", "both") else px.IdentityProx()
    ctx.info(kind=kind, use=use, n=n)
    with quiet() as (out, err):
        kw = {"progress": False}
        if kind == "fb":
            o = alg.ForwardBackward(x, grad, prox, cost=None, beta_param=0.5,
                                    auto_iterate=False, **kw)
        elif kind == "gfb":
            o = alg.GenForwardBackward(x, grad, [prox], cost=None, gamma_param=0.5,
                                       auto_iterate=False, **kw)
        elif kind == "pogm":
            o = alg.POGM(x, x, x, x, grad, prox, cost=None, beta_param=0.5,
                         auto_iterate=False, **kw)
        elif kind == "condat":
            o = alg.Condat(x, 0 * x, grad, prox, px.Ridge(lin.Identity(), 0.0),
                           cost=None, tau=0.5, sigma=0.5, auto_iterate=False, **kw)
        else:
            o = alg.VanillaGenericGradOpt(x, grad, prox, None, eta=0.5, **kw)
        o.iterate(max_iter=200)
    text = out.getvalue() + err.getvalue()
    ctx.check("WARNING" in text.upper(), f"{kind}: no warning about a foreign operator",
              text=text)
    ctx.close(o.x_final, f.y, f"{kind}: minimiser with foreign operators", rtol=1e-5,
              scale=float(n))
    with quiet() as (out, err):
        Setup(rng).solver(kind)
    ctx.check("inherit" not in out.getvalue() + err.getvalue(),
              f"{kind}: warning about the library's own operators")
    ctx.seen(kind, use, n, float(x[0]))
    ctx.sample()


SECTIONS = [
    Section("rejections", rejections, 60 * len(NAMES), 600 * len(NAMES)),
    Section("foreign operators", foreign, 40, 400),
]
