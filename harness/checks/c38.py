"""C38: results depend on values, not on how the values are stored."""

import numpy as np
from catalog import FUNCTIONS, OPERATORS
from checks.c12 import KINDS
from checks.c16 import leaves, make_solver
from core import Section
from gens import layout, pick
from modopt.base import np_adjust
from modopt.math import matrix, stats
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as filt
from modopt.signal import noise, positivity, svd, wavelet
from optkit import Problem, Recorder
from util import mute

RULE = (
    "A case runs one public function, operator method or solver twice on equal values: "
    "once on contiguous double-precision arrays and once on another representation of "
    "them (memory layout, byte order, integer type, single precision, container or "
    "scalar type), and compares every result; values are chosen so that both "
    "representations hold exactly the same numbers.  Non-trivial: the second "
    "representation differs from the first in at least one argument."
)
ASSUMPTIONS = [
    "numpy's own rules for types are taken as they are: a result may be of lower "
    "precision if the arguments are, and half-precision results are not judged",
    "the signs of singular vectors are not determined and not compared",
]
F_NAMES, O_NAMES = sorted(FUNCTIONS), sorted(OPERATORS)
# (scale, least, greatest) of the integers drawn for a type
SMALL = {"int8": (50, -120, 127), "uint8": (90, 0, 255), "int16": (12000, -32000, 32767),
         "uint16": (25000, 0, 65535)}
WIDE = {"int32": (60000, -10**9, 10**9), "int64": (300, -10**9, 10**9)}
INTS = {**SMALL, **WIDE}
# of narrow integers scipy's linear algebra works in single precision: not judged
SIGNS = {"svd_functions", "svd_coef", "svd_fast", "low_rank", "low_rank_ngole"}


def isfloat(a):
    return isinstance(a, np.ndarray) and a.dtype.kind == "f"


def whole(a, spec):
    """Nearest values an integer type can hold, as doubles."""
    scale, lo, hi = spec
    v = np.rint(a * scale)
    return np.clip(np.abs(v) if lo == 0 else v, lo, hi)


def fresh(a):
    return np.array(a, order="C") if isinstance(a, np.ndarray) else a


class Repr:
    """One way of storing values: what they are rounded to, and the storage."""

    def __init__(self, name):
        self.name = name
        self.rtol = 1e-3 if name == "single" else 1e-6 if name in INTS else 1e-9

    def base(self, a):
        """The values, as contiguous arrays of double precision (or as given)."""
        if not isinstance(a, np.ndarray):
            return a
        if self.name in INTS and isfloat(a):
            a = whole(a, INTS[self.name])
        elif self.name == "single" and a.dtype.kind in "fc":
            a = a.astype("f4" if a.dtype.kind == "f" else "c8").astype(a.dtype)
        return np.array(a, order="C")

    def store(self, rng, a):
        if not isinstance(a, np.ndarray):
            return a
        kind = a.dtype.kind
        if self.name in INTS:
            if kind == "f":
                a = a.astype(self.name)
        elif self.name == "single":
            if kind in "fc":
                a = a.astype("f4" if kind == "f" else "c8")
        elif self.name.startswith("swapped") and kind in "fci":
            a = a.astype(a.dtype.newbyteorder("S"))
        return layout(rng, a) if "layout" in self.name or rng.integers(2) else a.copy()


def compare(ctx, got, want, who, rtol, signs=False):
    got, want = list(leaves(got)), list(leaves(want))
    ctx.check(len(got) == len(want), f"{who}: number of results")
    for g, w in zip(got, want):
        if signs:
            g, w = np.abs(g), np.abs(w)
        if g.dtype.itemsize <= (4 if g.dtype.kind == "c" else 2) and g.dtype.kind in "fc":
            continue  # numpy's own half precision
        known = np.abs(w[np.isfinite(w)]) if w.dtype.kind in "fc" else np.abs(w)
        size = float(np.max(known)) if known.size else 0.0
        ctx.close(g, w, who, rtol=rtol, scale=size)


def reprs_for(name, small):
    res = ["layout", "swapped", "swapped-layout", "single", "int32", "int64"]
    return res + (sorted(SMALL) if small and name not in SIGNS else [])


def functions(ctx, rng, i):
    name = F_NAMES[i % len(F_NAMES)]
    opts = reprs_for(name, True)
    rep = Repr(opts[(i // len(F_NAMES)) % len(opts)])
    arrays, call = FUNCTIONS[name](rng)
    values = [rep.base(a) for a in arrays]
    stored = [rep.store(rng, v) for v in values]
    ctx.info(function=name, representation=rep.name,
             dtypes=[str(getattr(s, "dtype", "")) for s in stored])
    want = mute(call, *[fresh(v) for v in values])
    got = mute(call, *stored)
    compare(ctx, got, want, f"{name}, stored as {rep.name}", rep.rtol, name in SIGNS)
    ctx.seen(name, rep.name, [fresh(v).tobytes()[:32] for v in values])
    ctx.obs(f"representation {rep.name}")
    if stored:
        ctx.sample()


def operators(ctx, rng, i):
    name = O_NAMES[i % len(O_NAMES)]
    opts = reprs_for(name, False)
    rep = Repr(opts[(i // len(O_NAMES)) % len(opts)])
    arrays, make, inputs = OPERATORS[name](rng)
    # what the operator is built from, what it is given, or both; integers are given
    who = pick(rng, "inputs", "parameters", "both") if rep.name not in INTS else "inputs"
    par = [fresh(a) if rep.name in INTS else rep.base(a) for a in arrays]
    par2 = [rep.store(rng, a) if who != "inputs" else fresh(a) for a in par]
    m1 = mute(make, *[fresh(a) for a in par])
    m2 = mute(make, *par2)
    ctx.info(operator=name, representation=rep.name, stored=who)
    for _ in range(2):
        args = inputs(rng)
        for key in sorted(args):
            val = [rep.base(a) for a in args[key]]
            alt = [rep.store(rng, a) if who != "parameters" else fresh(a) for a in val]
            want = mute(m1[key], *[fresh(v) for v in val])
            got = mute(m2[key], *alt)
            compare(ctx, got, want, f"{name}.{key}, {who} stored as {rep.name}", rep.rtol,
                    name in SIGNS)
            ctx.seen(name, key, rep.name, who, [fresh(v).tobytes()[:32] for v in val])
    ctx.obs(f"representation {rep.name}")
    ctx.sample()


def solvers(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    rep = Repr(pick(rng, "layout", "swapped", "swapped-layout", "single"))
    shape = tuple(int(k) for k in rng.integers(2, 5, int(rng.integers(1, 4))))
    prob = Problem(rng, shape, bool(rng.integers(2)), lo=0.5, hi=1.2)
    seed, n = int(rng.integers(2**31)), int(rng.integers(1, 12))
    guess = [rep.base(prob.x0()) for _ in range(4)]
    y = rep.base(prob.y)
    ctx.info(kind=kind, shape=shape, n=n, representation=rep.name)

    def run(x0, obs):
        rec = Recorder("x_new")
        prob.grad = lambda: GradBasic(obs, prob.op, prob.adj, verbose=False)
        s, _ = make_solver(np.random.default_rng(seed), kind, prob, x0,
                           {"metrics": rec.metrics(), "metric_call_period": 1})
        mute(s.iterate, max_iter=n)
        return s.x_final, rec.col("x_new")

    want, path = run([fresh(g) for g in guess], fresh(y))
    got, path2 = run([rep.store(rng, g) for g in guess], rep.store(rng, y))
    ctx.check(len(path) == len(path2), f"{kind}: number of iterations")
    size = max([float(np.max(np.abs(p))) for p in path] + [1.0])
    for a, b in zip(path2, path):
        ctx.close(a, b, f"{kind}: iterate, data stored as {rep.name}", rtol=rep.rtol,
                  scale=size)
    ctx.close(got, want, f"{kind}: result, data stored as {rep.name}", rtol=rep.rtol,
              scale=size)
    ctx.seen(kind, rep.name, seed, n)
    ctx.obs(f"representation {rep.name}")
    ctx.sample()


# -- containers and scalar types ----------------------------------------------
def containers(vals):
    return [list(vals), tuple(vals), np.array(vals)]


def objects(vals):
    arr = np.empty(len(vals), dtype=object)
    for k, v in enumerate(vals):
        arr[k] = v
    return [list(vals), tuple(vals), arr]


def case_thresh(rng):
    x = rng.standard_normal((3, 4))
    t = float(rng.uniform(0.2, 1.5))
    kind = pick(rng, "hard", "soft")
    forms = [t, np.float64(t), np.array(t), np.full(x.shape, t), np.full(4, t)]
    data = [x, x.tolist(), tuple(tuple(r) for r in x)]
    return [lambda d=d, f=f: noise.thresh(d, f, threshold_type=kind)
            for d in data for f in forms]


def case_thresh_int(rng):
    x = rng.integers(-9, 10, (3, 4))
    t = int(rng.integers(1, 6))
    kind = pick(rng, "hard", "soft")
    return [lambda d=d, f=f: noise.thresh(d, f, threshold_type=kind)
            for d in (x, x.astype(float), x.tolist())
            for f in (t, float(t), np.int64(t), np.full(x.shape, t))]


def case_noise(rng):
    x = rng.uniform(1, 9, (3, 4)).round()
    s = rng.uniform(0.2, 2, 3)
    seed = int(rng.integers(1000))
    kind = pick(rng, "gauss", "poisson")
    if rng.integers(2):
        forms = containers(s.tolist())
    else:
        forms = [float(s[0]), np.float64(s[0]), np.full(3, s[0])]
    data = [x, x.tolist(), tuple(tuple(r) for r in x)]
    if kind == "poisson":
        forms = forms[:1]
    return [lambda d=d, f=f: noise.add_noise(d, f, noise_type=kind, rng=seed)
            for d in data for f in forms]


def case_seed(rng):
    x, seed = rng.standard_normal((3, 4)), int(rng.integers(1000))
    return [lambda r=r: noise.add_noise(x, 1.1, rng=r())
            for r in (lambda: seed, lambda: np.int64(seed),
                      lambda: np.random.default_rng(seed))]


def case_pad(rng):
    x = rng.standard_normal((3, 4))
    if rng.integers(2):
        forms = containers([int(k) for k in rng.integers(0, 4, 2)])
    else:
        k = int(rng.integers(0, 4))
        forms = [k, (k,), [k], np.array([k]), (k, k)]
    return [lambda f=f: np_adjust.pad2d(x, f) for f in forms]


def case_positive(rng):
    x = rng.standard_normal((2, 3))
    return [lambda: positivity.positive(x),
            lambda: [positivity.positive(r) for r in x][0:0] or np.array(
                [positivity.positive(r) for r in x]),
            lambda: np.array([[positivity.positive(float(v)) for v in r] for r in x]),
            lambda: np.array([[positivity.positive(v) for v in r] for r in x])]


def case_positive_ragged(rng):
    parts = [rng.standard_normal(k) for k in (1, int(rng.integers(2, 5)), 3)]
    arr = objects(parts)[2]
    return [lambda: positivity.positive(arr, ragged=True),
            lambda: [positivity.positive(p) for p in parts]]


def case_filters(rng):
    x, y, s = rng.standard_normal(5), rng.standard_normal(5), float(rng.uniform(0.4, 3))
    norm = bool(rng.integers(2))

    def run(sg):
        return (filt.gaussian_filter(x, sg, norm=norm), filt.mex_hat(x, sg),
                filt.mex_hat_dir(x, y, sg))

    def single():
        return (np.array([filt.gaussian_filter(float(v), s, norm=norm) for v in x]),
                np.array([filt.mex_hat(float(v), s) for v in x]),
                np.array([filt.mex_hat_dir(float(v), float(w), s)
                          for v, w in zip(x, y)]))

    return [lambda: run(s), lambda: run(np.float64(s)), single]


def case_filters_int(rng):
    x, y = rng.integers(-6, 7, 5), rng.integers(-6, 7, 5)
    s = int(rng.integers(1, 4))

    def run(a, b, sg):
        return (filt.gaussian_filter(a, sg), filt.mex_hat(a, sg),
                filt.mex_hat_dir(a, b, sg))

    return [lambda t=t, sg=sg: run(x.astype(t), y.astype(t), sg)
            for t in (float, int, "i4", ">i4") for sg in (s, float(s))]


def case_matrix(rng):
    n, ang = int(rng.integers(2, 5)), int(rng.integers(-3, 4))
    m = rng.standard_normal((n, n))
    return [lambda a=a: (matrix.rot_matrix(a), matrix.rotate(m, a))
            for a in (ang, float(ang), np.float64(ang), np.int64(ang))]


def case_svd(rng):
    m = rng.standard_normal((8, 3))
    t = float(rng.uniform(0.1, 2))
    kind = pick(rng, "hard", "soft")
    return [lambda f=f: svd.svd_thresh(m, f, thresh_type=kind)
            for f in (t, np.float64(t), np.full(3, t))]


def case_kernel(rng):
    s = int(rng.integers(1, 4))
    shape = tuple(int(k) for k in rng.integers(3, 7, 2))
    norm = pick(rng, "max", "sum")
    return [lambda f=f, sh=sh: stats.gaussian_kernel(sh, f, norm=norm)
            for f in (s, float(s), np.float64(s))
            for sh in (shape, tuple(np.int64(k) for k in shape))]


def case_sparse(rng):
    x = rng.standard_normal((3, 4))
    w, f = float(rng.uniform(0.1, 1)), float(rng.uniform(0.3, 2))
    kind = pick(rng, "hard", "soft")

    def run(form, fac):
        p = px.SparseThreshold(lin.Identity(), form, thresh_type=kind)
        return p.op(x, extra_factor=fac), mute(p.cost, x)

    return [lambda a=a: run(*a) for a in (
        (w, f), (np.float64(w), f), (w, np.float64(f)), (np.full(x.shape, w), f))]


def case_elastic(rng):
    x = rng.standard_normal((3, 4))
    a, b = (float(k) for k in rng.uniform(0.1, 1, 2))
    f = float(rng.uniform(0.3, 2))

    def run(fa, fb):
        p = px.ElasticNet(lin.Identity(), fa, fb)
        return p.op(x, extra_factor=f), mute(p.cost, x)

    return [lambda fa=fa, fb=fb: run(fa, fb)
            for fa in (a, np.float64(a), np.full(x.shape, a))
            for fb in (b, np.full(x.shape, b))]


def case_ridge(rng):
    x = rng.standard_normal((3, 4))
    a, f = float(rng.uniform(0.1, 1)), float(rng.uniform(0.3, 2))

    def run(fa):
        p = px.Ridge(lin.Identity(), fa)
        return p.op(x, extra_factor=f), mute(p.cost, x)

    return [lambda fa=fa: run(fa) for fa in (a, np.float64(a), np.full(x.shape, a))]


def case_factor_int(rng):
    """An integer step is worth the equal float."""
    x, k = rng.standard_normal((3, 4)), int(rng.integers(1, 4))
    w = rng.uniform(0.1, 0.5, (3, 4))
    v = np.sort(rng.uniform(0, 1, 12))[::-1]
    cube = rng.standard_normal((3, 2, 4))
    ops = [px.SparseThreshold(lin.Identity(), w), px.Ridge(lin.Identity(), 0.3),
           px.ElasticNet(lin.Identity(), 0.3, w), px.Positivity(), px.IdentityProx(),
           px.GroupLASSO(w)]
    one = [px.OrderedWeightedL1Norm(v), px.KSupportNorm(0.6, 4)]
    low = px.LowRankMatrix(0.3, thresh_type=pick(rng, "hard", "soft"))

    def run(f):
        return ([o.op(x, extra_factor=f) for o in ops],
                [o.op(x.ravel(), extra_factor=f) for o in one],
                mute(low.op, cube, extra_factor=f))

    return [lambda f=f: run(f) for f in (k, float(k), np.float64(k), np.int64(k))]


def case_linear_combo(rng):
    n, m = 3, 4
    ops = [lin.MatrixOperator(rng.standard_normal((m, n))) for _ in range(3)]
    w = rng.uniform(0.1, 1, 3).tolist()
    x, ys = rng.standard_normal(n), [rng.standard_normal(m) for _ in range(3)]

    def run(o, ww, y):
        c = lin.LinearCombo(o, weights=ww)
        return list(c.op(x)), c.adj_op(y)

    return [lambda a=(o, ww, y): run(*a) for o in objects(ops)
            for ww in [*containers(w), np.array(w).astype(">f8")]
            for y in (*objects(ys), np.array(ys))]


def case_prox_combo(rng):
    x = [rng.standard_normal(4) for _ in range(2)]
    ops = [px.SparseThreshold(lin.Identity(), rng.uniform(0.1, 1, 4)), px.Positivity()]
    f = float(rng.uniform(0.3, 2))

    def run(o, d):
        c = px.ProximityCombo(o)
        return list(c.op(d, extra_factor=f)), mute(c.cost, d)

    return [lambda o=o, d=d: run(o, d) for o in objects(ops)
            for d in (*objects(x), np.array(x))]


def case_cost(rng):
    prob = Problem(rng, (4,), False)
    ops = [prob.grad(), px.SparseThreshold(lin.Identity(), 0.3)]
    xs = [prob.x0() for _ in range(6)]
    interval = int(rng.integers(1, 4))

    def run(o, iv, tol, rng_):
        c = mute(costObj, o, tolerance=tol, cost_interval=iv, test_range=rng_,
                 verbose=False)
        flags = [float(mute(c.get_cost, x)) for x in xs]
        return np.array(flags), np.array([np.nan if c.cost is None else c.cost])

    return [lambda o=o, a=a: run(o, *a) for o in objects(ops)
            for a in ((interval, 0.1, 4), (np.int64(interval), np.float64(0.1), 4))]


def case_gfb(rng):
    prob = Problem(rng, (4,), False, lo=0.5, hi=1.2)
    w = [0.2, 0.3, 0.5]
    regs = [px.SparseThreshold(lin.Identity(), rng.uniform(0, 0.3, 4)), px.Positivity(),
            px.Ridge(lin.Identity(), 0.1)]
    x0, n = prob.x0(), int(rng.integers(1, 9))
    step = 0.7 / prob.lip

    def run(o, ww, st, k):
        s = alg.GenForwardBackward(x0.copy(), prob.grad(), o, cost=None, gamma_param=st,
                                   weights=ww, linear=lin.Identity(), progress=False,
                                   auto_iterate=False)
        s.iterate(max_iter=k)
        return s.x_final

    return [lambda o=o, ww=ww: run(o, ww, step, n) for o in objects(regs)
            for ww in [*containers(w), np.array(w).astype(">f8")]] + [
        lambda: run(regs, w, np.float64(step), np.int64(n))]


def case_solver_scalars(rng):
    prob = Problem(rng, (4,), False, lo=0.5, hi=1.2)
    x0, n = [prob.x0() for _ in range(4)], int(rng.integers(1, 9))
    step, kind = 0.7 / prob.lip, pick(rng, "fb", "pogm", "condat", "gd", "admm")
    w = rng.uniform(0, 0.3, 4)

    def run(num, cnt):
        prox = px.SparseThreshold(lin.Identity(), w)
        g = prob.grad()
        kw = {"cost": None, "progress": False, "auto_iterate": False}
        x = [v.copy() for v in x0]
        if kind == "fb":
            s = alg.ForwardBackward(x[0], g, prox, beta_param=num(step),
                                    lambda_param=num(0.8), linear=lin.Identity(), **kw)
        elif kind == "pogm":
            s = alg.POGM(*x, g, prox, beta_param=num(step), sigma_bar=num(0.9),
                         linear=lin.Identity(), **kw)
        elif kind == "condat":
            s = alg.Condat(x[0], x[1], g, prox, px.Positivity(), rho=num(0.9),
                           sigma=num(0.4), tau=num(0.4 * step), linear=lin.Identity(),
                           **kw)
        elif kind == "gd":
            s = alg.ADAMGradOpt(x[0], g, prox, None, eta=num(0.1), gamma=num(0.8),
                                beta=num(0.7), progress=False)
        else:
            s = alg.FastADMM(x[0], x[1], x[2], lin.Identity(), lin.Identity(),
                             x[3], (lambda init, obs: 0.3 * obs + 0.1 * init,) * 2,
                             alpha=num(0.9), eta=num(0.99), progress=False)
        s.iterate(max_iter=cnt(n))
        return s.x_final

    return [lambda f=f, c=c: run(f, c) for f in (float, np.float64)
            for c in (int, np.int64, np.int32)]


def case_reweight(rng):
    w, x = rng.uniform(0.5, 1.5, (3, 4)), rng.standard_normal((3, 4))
    t = float(rng.integers(1, 4))

    def run(wt, th, xx):
        r = cwbReweight(wt, thresh_factor=th)
        mute(r.reweight, xx)
        return r.weights

    return [lambda a=(wt, th, xx): run(a[0].copy(), a[1], a[2])
            for wt in (w, np.asfortranarray(w), w.astype(">f8"))
            for th in (t, np.float64(t))
            for xx in (x, np.asfortranarray(x), x.astype(">f8"))]


def case_int_parameters(rng):
    """Integer weights, matrices and filters are worth the equal floats."""
    x = rng.standard_normal((3, 4))
    w = rng.integers(0, 3, (3, 4))
    m, f = rng.integers(-9, 10, (5, 3)), rng.integers(-9, 10, (2, 3, 3))
    img = rng.standard_normal((6, 6))
    v = np.sort(rng.integers(0, 4, 4))[::-1]
    k = int(rng.integers(1, 4))

    def run(t):
        mo = lin.MatrixOperator(m.astype(t))
        wt = w.astype(t)
        wc = lin.WaveletConvolve(f.astype(t))
        lc = px.LinearCompositionProx(lin.Identity(),
                                      px.SparseThreshold(lin.Identity(), wt))
        return (mo.op(x), mo.adj_op(mo.op(x)),
                px.SparseThreshold(lin.Identity(), wt).op(x, extra_factor=0.3),
                px.Ridge(lin.Identity(), wt).op(x, extra_factor=0.3),
                px.ElasticNet(lin.Identity(), wt, wt).op(x, extra_factor=0.3),
                px.GroupLASSO(wt[:1].repeat(3, 0)).op(x, extra_factor=0.3),
                px.OrderedWeightedL1Norm(v.astype(t)).op(x[0], extra_factor=0.3),
                mute(px.SparseThreshold(lin.Identity(), wt).cost, x),
                mute(px.Ridge(lin.Identity(), wt).cost, x),
                mute(px.ElasticNet(lin.Identity(), wt, wt).cost, x),
                lc.op(x, extra_factor=0.5), wc.op(img[None]), wc.adj_op(wc.op(img[None])),
                wavelet.filter_convolve(img, f.astype(t)),
                px.KSupportNorm(0.6, k).op(m.ravel().astype(t)))

    return [lambda t=t: run(t) for t in (float, int, "i2", "i4", ">i4")]


def case_power(rng):
    m = rng.standard_normal((4, 4))
    m = m @ m.T
    seed, n = int(rng.integers(1000)), int(rng.integers(3, 15))

    def run(shape, tol, k, sd):
        pm = matrix.PowerMethod(lambda v: m @ v, shape, auto_run=False, rng=sd())
        mute(pm.get_spec_rad, tolerance=tol, max_iter=k)
        return np.array([pm.spec_rad, pm.inv_spec_rad])

    return [lambda a=a: run(*a) for a in (
        ((4,), 1e-6, n, lambda: seed),
        ((4,), np.float64(1e-6), np.int64(n), lambda: np.int64(seed)),
        ((np.int64(4),), 1e-6, n, lambda: np.random.default_rng(seed)))]


def case_wavelet(rng):
    x = rng.standard_normal((8, 8))
    name = pick(rng, "haar", "db2")

    def run(sh, lev):
        op = lin.WaveletTransform(name, sh, level=lev)
        c = op.op(x)
        return c, op.adj_op(c)

    return [lambda a=a: run(*a) for a in (
        ((8, 8), 2), ((8, 8), np.int64(2)), ((np.int64(8), np.int64(8)), 2))]


def case_filter_bank(rng):
    x, f = rng.standard_normal((6, 6)), rng.standard_normal((2, 3, 3))
    st = rng.standard_normal((2, 6, 6))
    return [lambda ff=ff: (wavelet.filter_convolve(x, ff),
                           wavelet.filter_convolve(st, ff, filter_rot=True))
            for ff in (f, np.asfortranarray(f), list(f), tuple(f))]


def case_gradient(rng):
    prob = Problem(rng, (4,), False)
    x = prob.x0()

    def run(y):
        g = GradBasic(y, prob.op, prob.adj, verbose=False)
        g.get_grad(x)
        return g.grad, g.cost(x), g.trans_op(prob.y)

    return [lambda y=y: run(y) for y in (prob.y, prob.y[::-1].copy()[::-1],
                                         prob.y.astype(">f8"))]


CASES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("case_")}
C_NAMES = sorted(CASES)


def arguments(ctx, rng, i):
    """Lists, tuples and arrays of the same values; Python's numbers and numpy's."""
    name = C_NAMES[i % len(C_NAMES)]
    forms = CASES[name](rng)
    ctx.info(case=name)
    want = mute(forms[0])
    for k, form in enumerate(forms[1:], 1):
        compare(ctx, mute(form), want, f"{name}: form {k} of the same arguments", 1e-9)
        ctx.seen(name, k, i)
    ctx.obs("forms of arguments", len(forms))
    ctx.sample()


SECTIONS = [
    Section("functions", functions, 6000, 60000),
    Section("operators", operators, 4000, 40000),
    Section("solvers", solvers, 900, 9000),
    Section("arguments", arguments, 1500, 15000),
]
