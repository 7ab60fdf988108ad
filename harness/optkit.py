"""Problems, regularisers and recorders shared by the solver monitors."""

import numpy as np
import refs
from gens import pick
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.gradient import GradBasic


class Reg:
    """A regulariser: library object, and its reference prox and value."""

    def __init__(self, obj, prox, val, name):
        self.obj, self.prox, self.val, self.name = obj, prox, val, name


class Problem:
    """min 0.5 ||H x - y||^2 with H of known spectrum, acting on axis 0."""

    def __init__(self, rng, shape, cplx=False, lo=0.4, hi=1.6, extra=0, scale=1.0):
        n = shape[0]
        m = n + int(extra)

        def rnd(*s):
            v = rng.standard_normal(s)
            return v + 1j * rng.standard_normal(s) if cplx else v

        u, _ = np.linalg.qr(rnd(m, m))
        v, _ = np.linalg.qr(rnd(n, n))
        s = np.sort(rng.uniform(lo, hi, n))[::-1]
        s[0] = hi
        self.mat = (u[:, :n] * s) @ v.conj().T
        self.cplx = cplx
        self.shape = tuple(shape)
        self.scale = scale
        self.y = rnd(m, *shape[1:]) * 2 * scale
        self.lip = float(s[0] ** 2)
        self.mu = float(s[-1] ** 2)
        self.rnd = rnd
        self.n_grad = 0

    def op(self, x):
        return np.tensordot(self.mat, x, axes=1)

    def adj(self, x):
        self.n_grad += 1
        return np.tensordot(self.mat.conj().T, x, axes=1)

    def ref_grad(self, x):
        return np.tensordot(
            self.mat.conj().T, np.tensordot(self.mat, x, axes=1) - self.y, axes=1
        )

    def value(self, x):
        return 0.5 * refs.norm2(np.tensordot(self.mat, x, axes=1) - self.y) ** 2

    def grad(self):
        return GradBasic(self.y.copy(), self.op, self.adj, verbose=False)

    def x0(self):
        return self.rnd(*self.shape) * self.scale


def any_scale(rng):
    """Mostly 1; now and then the problem is tiny or huge."""
    return float(10.0 ** rng.uniform(-9, 7)) if rng.random() < 0.12 else 1.0


def scaled_regulariser(rng, prob, shape=None, kinds=None):
    """One that makes sense at the scale of the problem."""
    if prob.scale != 1.0:
        kinds = ("ridge", "none") + (() if prob.cplx else ("pos",))
    return regulariser(rng, shape or prob.shape, prob.cplx, kinds)


def regulariser(rng, shape, cplx=False, kinds=None):
    kinds = kinds or ("l1", "l1w", "ridge", "elastic", "none", "l1lin", "custom") + (
        () if cplx else ("pos", "box")
    )
    kind = pick(rng, *kinds)
    if kind in ("l1", "l1w"):
        w = rng.uniform(0.02, 0.6) if kind == "l1" else rng.uniform(0, 0.8, shape)
        w = np.asarray(w) if kind == "l1w" else float(w)
        return Reg(
            px.SparseThreshold(lin.Identity(), w),
            lambda v, t: refs.soft(v, w * t),
            lambda v: float(np.sum(np.abs(w * v))),
            kind,
        )
    if kind == "l1lin":  # thresholding is of the coefficients themselves
        w = np.full(shape, float(rng.uniform(0.05, 0.4)))
        return Reg(
            px.SparseThreshold(lin.Identity(), w, thresh_type="soft"),
            lambda v, t: refs.soft(v, w * t),
            lambda v: float(np.sum(np.abs(w * v))),
            kind,
        )
    if kind == "ridge":
        a = float(rng.uniform(0.05, 1.0))
        return Reg(
            px.Ridge(lin.Identity(), a),
            lambda v, t: v / (1 + 2 * a * t),
            lambda v: a * refs.norm2(v) ** 2,
            kind,
        )
    if kind == "elastic":
        a, w = float(rng.uniform(0.05, 0.8)), float(rng.uniform(0.05, 0.5))
        return Reg(
            px.ElasticNet(lin.Identity(), a, w),
            lambda v, t: refs.soft(v, w * t) / (1 + 2 * a * t),
            lambda v: a * refs.norm2(v) ** 2 + float(np.sum(np.abs(w * v))),
            kind,
        )
    if kind == "pos":
        return Reg(px.Positivity(), lambda v, t: np.maximum(v, 0), lambda v: 0.0, kind)
    if kind == "box":
        a, b = -float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
        return Reg(
            px.ProximityParent(
                lambda v, extra_factor=1.0: np.clip(v, a, b),
                lambda v, *args, **kwargs: 0.0,
            ),
            lambda v, t: np.clip(v, a, b),
            lambda v: 0.0,
            kind,
        )
    if kind == "custom":  # a smooth user-defined term c/2 ||x - p||^2
        c, p = float(rng.uniform(0.1, 1)), rng.standard_normal(shape)
        return Reg(
            px.ProximityParent(
                lambda v, extra_factor=1.0: (v + c * extra_factor * p)
                / (1 + c * extra_factor),
                lambda v, *args, **kwargs: 0.5 * c * refs.norm2(v - p) ** 2,
            ),
            lambda v, t: (v + c * t * p) / (1 + c * t),
            lambda v: 0.5 * c * refs.norm2(v - p) ** 2,
            kind,
        )
    return Reg(px.IdentityProx(), lambda v, t: v, lambda v: 0.0, "none")


class Recorder:
    """A metric that copies the variables it is shown at every call."""

    def __init__(self, *names):
        self.names = names
        self.rows = []

    def __call__(self, **kwargs):
        self.rows.append({k: np.array(v, copy=True) for k, v in kwargs.items()})
        return float(len(self.rows))

    def metrics(self, early=False):
        return {
            "rec": {
                "metric": self,
                "mapping": {n: n for n in self.names},
                "cst_kwargs": {},
                "early_stopping": early,
            }
        }

    def col(self, name):
        return [r[name] for r in self.rows]


def converge_ref(problem, reg, iters=4000):
    """Reference minimiser by plain proximal gradient on the reference prox."""
    x = np.zeros(problem.shape, dtype=complex if problem.cplx else float)
    step = 1.0 / problem.lip
    for _ in range(iters):
        new = reg.prox(x - step * problem.ref_grad(x), step)
        if np.max(np.abs(new - x)) < 1e-15 * max(1.0, np.max(np.abs(new))):
            return new
        x = new
    return x
