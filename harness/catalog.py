"""The public numerical interface, as cases any monitor can drive.

``FUNCTIONS[name](rng)`` gives ``(arrays, call)``: ``call(*arrays)`` runs the
function.  ``OPERATORS[name](rng)`` gives ``(arrays, build, inputs)``:
``build(*arrays)`` makes the operator and returns its methods by name, and
``inputs(rng)`` the arguments of one call of each method.
"""

import numpy as np
from gens import layout, pick
from modopt.base import backend, np_adjust, transform, types
from modopt.math import convolve, matrix, metrics, stats
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.signal import filter as filt
from modopt.signal import noise, positivity, svd, wavelet

FUNCTIONS, OPERATORS = {}, {}


def fun(f):
    FUNCTIONS[f.__name__] = f
    return f


def oper(f):
    OPERATORS[f.__name__] = f
    return f


def real(rng, *shape):
    return layout(rng, rng.standard_normal(shape))


def size(rng, lo=2, hi=6):
    return int(rng.integers(lo, hi + 1))


def cplx(rng, *shape):
    return layout(rng, rng.standard_normal(shape) + 1j * rng.standard_normal(shape))


# -- base -------------------------------------------------------------------
@fun
def rotate(rng):
    n = size(rng)
    return [real(rng, n, n)], np_adjust.rotate


@fun
def rotate_stack(rng):
    return [real(rng, size(rng), size(rng), size(rng))], np_adjust.rotate_stack


@fun
def pad2d(rng):
    pad = pick(rng, 1, (2, 1), 3)
    return [real(rng, size(rng), size(rng))], lambda a: np_adjust.pad2d(a, pad)


@fun
def transposes(rng):
    return [real(rng, size(rng), size(rng), size(rng))], lambda a: (
        np_adjust.ftr(a), np_adjust.ftl(a), np_adjust.fancy_transpose(a, 2))


@fun
def cubes(rng):
    a = b = size(rng, 1, 3)
    h = w = size(rng)

    def call(cube, amap, mat):
        return (transform.cube2map(cube, (a, b)), transform.map2cube(amap, (a, b)),
                transform.map2matrix(amap, (a, b)),
                transform.matrix2map(mat, (a * h, b * w)),
                transform.cube2matrix(cube), transform.matrix2cube(mat, (h, w)))

    return [real(rng, a * b, h, w), real(rng, a * h, b * w), real(rng, h * w, a * b)], call


@fun
def type_checks(rng):
    n = size(rng)
    return [real(rng, n), rng.integers(0, 9, n)], lambda a, b: (
        types.check_float(a), types.check_float(b), types.check_int(a),
        types.check_int(b))


# -- math -------------------------------------------------------------------
@fun
def convolve_fn(rng):
    method = pick(rng, "scipy", "astropy")
    rot = bool(rng.integers(2))
    return ([real(rng, 7, 6), real(rng, 3, 3), real(rng, 2, 7, 6), real(rng, 2, 3, 3)],
            lambda a, k, s, ks: (convolve.convolve(a, k, method=method),
                                 convolve.convolve_stack(s, ks, rot_kernel=rot,
                                                         method=method)))


@fun
def gram_schmidt(rng):
    opt = pick(rng, "orthonormal", "orthogonal", "both")
    return [real(rng, 3, 5)], lambda m: matrix.gram_schmidt(m, return_opt=opt)


@fun
def matrix_misc(rng):
    n = size(rng, 3, 6)
    angle = float(rng.uniform(-3, 3))
    return [real(rng, n, n), real(rng, n), real(rng, n)], lambda m, u, v: (
        matrix.nuclear_norm(m), matrix.project(u, v), matrix.rotate(m, angle),
        matrix.rot_matrix(angle))


@fun
def power_method(rng):
    n = size(rng)
    seed = int(rng.integers(2**31))

    def call(m):
        pm = matrix.PowerMethod(lambda x: m @ x, (n,), auto_run=False, verbose=False,
                                rng=np.random.default_rng(seed))
        pm.get_spec_rad(max_iter=12)
        return pm.spec_rad, pm.inv_spec_rad

    m = rng.standard_normal((n, n))
    return [layout(rng, m @ m.T)], call


@fun
def power_method_seeded(rng):
    n = size(rng)
    seed = int(rng.integers(1000))

    def call(m):
        pm = matrix.PowerMethod(lambda x: m @ x, (n,), auto_run=False, rng=seed)
        pm.get_spec_rad(max_iter=12)
        return pm.spec_rad

    m = rng.standard_normal((n, n))
    return [layout(rng, m @ m.T)], call


@fun
def image_metrics(rng):
    shape = (size(rng, 8, 11), size(rng, 8, 11))
    masked = bool(rng.integers(2))
    return ([real(rng, *shape), real(rng, *shape),
             (rng.random(shape) < 0.7).astype(float)],
            lambda t, r, m: tuple(f(t, r, m if masked else None)
                                  for f in (metrics.mse, metrics.snr, metrics.psnr,
                                            metrics.nrmse, metrics.ssim)))


@fun
def min_max(rng):
    return [real(rng, size(rng, 2, 6), 3)], metrics.min_max_normalize


@fun
def statistics(rng):
    s = (size(rng), size(rng))
    method = pick(rng, "starck", "wiki")
    return [real(rng, 2, *s), real(rng, 2, *s)], lambda a, b: (
        stats.mad(a), stats.sigma_mad(a), stats.mse(a, b),
        stats.psnr(a[0], b[0], method=method), stats.psnr_stack(a, b, method=method))


@fun
def gaussian_kernel(rng):
    shape = (size(rng), size(rng))
    norm = pick(rng, "max", "sum")
    return [], lambda: stats.gaussian_kernel(shape, 1.3, norm=norm)


# -- signal -----------------------------------------------------------------
@fun
def filters(rng):
    n = size(rng)
    return [real(rng, n), real(rng, n)], lambda a, b: (
        filt.gaussian_filter(a, 1.7), filt.mex_hat(a, 0.9), filt.mex_hat_dir(a, b, 2.2))


@fun
def add_noise(rng):
    seed = int(rng.integers(2**31))
    n = size(rng)
    kind = pick(rng, "gauss", "poisson")
    return [layout(rng, rng.uniform(0, 9, (n, 3)).astype(int).astype(float))], lambda a: (
        noise.add_noise(a, 1.5, noise_type=kind, rng=np.random.default_rng(seed)))


@fun
def add_noise_levels(rng):
    seed = int(rng.integers(1000))
    n = size(rng)
    return [real(rng, n, 3), layout(rng, rng.uniform(0.1, 2, n))], lambda a, s: (
        noise.add_noise(a, s, rng=seed))


@fun
def thresh(rng):
    shape = (size(rng), size(rng))
    kind = pick(rng, "hard", "soft")
    data = pick(rng, real, cplx)(rng, *shape)
    return [data, layout(rng, rng.uniform(0, 1, shape))], lambda a, t: (
        noise.thresh(a, t, threshold_type=kind))


@fun
def positive(rng):
    data = real(rng, size(rng), size(rng))
    return [data], positivity.positive


@fun
def positive_ragged(rng):
    data = [real(rng, size(rng)), real(rng, size(rng), 2), real(rng, 1)]
    return data, lambda *a: (
        positivity.positive(list(a), ragged=True), positivity.pos_thresh(a[0]),
        positivity.pos_recursive(a[1]))


@fun
def backends(rng):
    return [real(rng, size(rng), 3)], lambda a: (
        np.array(backend.change_backend(a, "numpy")),
        np.array(backend.move_to_cpu(a)))


@fun
def svd_functions(rng):
    kind = pick(rng, "hard", "soft")
    m = real(rng, 9, size(rng, 2, 5))
    k = min(m.shape)
    n_pc = pick(rng, "all", 1, 2)
    thr = layout(rng, np.sort(rng.uniform(0, 2, k)))

    def call(a, t):
        return (svd.calculate_svd(a), svd.svd_thresh(a, t, thresh_type=kind),
                svd.svd_thresh(a, n_pc=n_pc, thresh_type=kind),
                svd.find_n_pc(svd.calculate_svd(a)[0]))

    return [m, thr], call


@fun
def svd_fast(rng):
    kind = pick(rng, "hard", "soft")
    return [real(rng, size(rng, 4, 8), size(rng, 4, 8))], lambda a: (
        svd.svd_thresh_coef_fast(a, 0.8, n_vals=-1, thresh_type=kind))


@fun
def svd_coef(rng):
    kind = pick(rng, "hard", "soft")
    n = size(rng, 2, 3)
    filt_ = real(rng, 1, 3, 3)
    return ([real(rng, 4 * 4, n), filt_, layout(rng, rng.uniform(0.1, 1, (n, 1)))],
            lambda a, f, t: svd.svd_thresh_coef(
                a, lambda x: wavelet.filter_convolve_stack(x, f), t, thresh_type=kind))


@fun
def filter_bank(rng):
    rot = bool(rng.integers(2))
    method = pick(rng, "scipy", "astropy")
    nf = size(rng, 1, 3)
    return ([real(rng, 7, 6), real(rng, 2, 7, 6), real(rng, nf, 3, 3),
             real(rng, nf, 7, 6)],
            lambda a, s, f, c: (wavelet.filter_convolve(a, f, method=method),
                                wavelet.filter_convolve(c, f, True, method=method),
                                wavelet.filter_convolve_stack(s, f, method=method)
                                if not rot else None))


@fun
def trim(rng):
    f = np.zeros((7, 7))
    f[2:5, 1:4] = rng.standard_normal((3, 3)) + 3
    return [layout(rng, f)], wavelet.trim_filter


# -- operators --------------------------------------------------------------
def prox_inputs(*shape, cpl=False):
    def inputs(rng):
        x = (cplx if cpl else real)(rng, *shape)
        return {"op": [x], "cost": [x.copy()]}

    return inputs


def prox_methods(p, factor):
    return {"op": lambda x: p.op(x, extra_factor=factor), "cost": lambda x: p.cost(x)}


@oper
def sparse_threshold(rng):
    shape = (size(rng), size(rng))
    kind = pick(rng, "hard", "soft")
    f = float(rng.uniform(0.3, 2))
    cpl = bool(rng.integers(2))
    return ([layout(rng, rng.uniform(0, 1, shape))],
            lambda w: prox_methods(px.SparseThreshold(lin.Identity(), w, kind), f),
            prox_inputs(*shape, cpl=cpl))


@oper
def ridge(rng):
    shape = (size(rng), size(rng))
    f = float(rng.uniform(0.3, 2))
    a = layout(rng, rng.uniform(0, 1, shape))
    return ([a], lambda w: prox_methods(px.Ridge(lin.Identity(), w), f),
            prox_inputs(*shape))


@oper
def elastic(rng):
    shape = (size(rng), size(rng))
    f = float(rng.uniform(0.3, 2))
    return ([layout(rng, rng.uniform(0, 1, shape)), layout(rng, rng.uniform(0, 1, shape))],
            lambda a, b: prox_methods(px.ElasticNet(lin.Identity(), a, b), f),
            prox_inputs(*shape))


@oper
def owl(rng):
    n = size(rng)
    f = float(rng.uniform(0.3, 2))
    return ([layout(rng, np.sort(rng.uniform(0, 1, n))[::-1])],
            lambda w: prox_methods(px.OrderedWeightedL1Norm(w), f), prox_inputs(n))


@oper
def ksupport(rng):
    n = size(rng, 3, 7)
    f, k = float(rng.uniform(0.3, 2)), int(rng.integers(1, n))
    return [], lambda: prox_methods(px.KSupportNorm(0.7, k), f), prox_inputs(n)


@oper
def group_lasso(rng):
    n, g = size(rng), size(rng)
    f = float(rng.uniform(0.3, 2))
    w = layout(rng, np.tile(rng.uniform(0.1, 1, n), (g, 1)))

    def build(w):
        p = px.GroupLASSO(w)
        return {"op": lambda x: p.op(x, extra_factor=f)}

    return [w], build, lambda r: {"op": [real(r, g, n)]}


@oper
def positivity_op(rng):
    shape = (size(rng), size(rng))
    return [], lambda: prox_methods(px.Positivity(), 1.0), prox_inputs(*shape)


@oper
def low_rank(rng):
    f = float(rng.uniform(0.3, 2))
    kind = pick(rng, "hard", "soft")
    n = size(rng, 2, 4)
    return ([], lambda: prox_methods(px.LowRankMatrix(0.5, thresh_type=kind), f),
            prox_inputs(n, 3, 4))


@oper
def low_rank_ngole(rng):
    f = float(rng.uniform(0.3, 2))
    n = size(rng, 2, 3)
    flt = real(rng, 1, 3, 3)

    def build(flt):
        p = px.LowRankMatrix(0.5, lowr_type="ngole",
                             operator=lambda x: wavelet.filter_convolve_stack(x, flt))
        return prox_methods(p, f)

    return [flt], build, prox_inputs(n, 4, 4)


@oper
def composition(rng):
    n = size(rng)
    q = layout(rng, np.linalg.qr(rng.standard_normal((n, n)))[0])
    w = layout(rng, rng.uniform(0, 1, n))
    f = float(rng.uniform(0.3, 2))
    return ([q, w],
            lambda q, w: prox_methods(px.LinearCompositionProx(
                lin.MatrixOperator(q), px.SparseThreshold(lin.Identity(), w)), f),
            prox_inputs(n))


@oper
def prox_combo(rng):
    n = size(rng)
    w = layout(rng, rng.uniform(0, 1, n))

    def build(w):
        p = px.ProximityCombo([px.SparseThreshold(lin.Identity(), w), px.Positivity()])
        return {"op": lambda x, y: p.op([x, y], extra_factor=1.5),
                "cost": lambda x, y: p.cost([x, y])}

    def inputs(r):
        return {"op": [real(r, n), real(r, n)], "cost": [real(r, n), real(r, n)]}

    return [w], build, inputs


@oper
def gradient(rng):
    n, m = size(rng), size(rng)
    cpl = bool(rng.integers(2))
    gen = cplx if cpl else real

    def build(h, y):
        g = GradBasic(y, lambda x: h @ x, lambda x: h.conj().T @ x, verbose=False)

        def grad(x):
            g.get_grad(x)
            return g.grad

        return {"grad": grad, "cost": lambda x: g.cost(x),
                "trans_op_op": g.trans_op_op}

    def inputs(r):
        return {k: [gen(r, n)] for k in ("grad", "cost", "trans_op_op")}

    return [gen(rng, m, n), gen(rng, m)], build, inputs


@oper
def cost_object(rng):
    n, m = size(rng), size(rng)

    def build(h, y, w):
        g = GradBasic(y, lambda x: h @ x, lambda x: h.T @ x, verbose=False)
        p = px.SparseThreshold(lin.Identity(), w)

        def cost(x):
            c = costObj([g, p], verbose=False)
            return c.get_cost(x), c.cost

        return {"cost": cost}

    return ([real(rng, m, n), real(rng, m), layout(rng, rng.uniform(0, 1, n))], build,
            lambda r: {"cost": [real(r, n)]})


@oper
def parents(rng):
    m = real(rng, 3, 4)
    f = float(rng.uniform(0.3, 2))

    def build(m):
        p = px.ProximityParent(lambda v, extra_factor=1.0: v * extra_factor,
                               lambda v: float(np.sum(v)))
        q = lin.LinearParent(lambda v: m @ v, lambda v: m.T @ v)
        ident = px.IdentityProx()
        return {"prox": lambda x: p.op(x, extra_factor=f), "cost": lambda x: p.cost(x),
                "op": q.op, "adj": q.adj_op,
                "ident": lambda x: np.add(ident.op(x, extra_factor=f), ident.cost(x))}

    return [m], build, lambda r: {
        "prox": [real(r, 3)], "cost": [real(r, 3)], "op": [real(r, 4)],
        "adj": [real(r, 3)], "ident": [real(r, 2, 2)]}


@oper
def matrix_operator(rng):
    n, m = size(rng), size(rng)
    gen = pick(rng, real, cplx)

    def build(h):
        op = lin.MatrixOperator(h)
        return {"op": op.op, "adj_op": op.adj_op}

    return [gen(rng, m, n)], build, lambda r: {"op": [gen(r, n)], "adj_op": [gen(r, m)]}


@oper
def identity_operator(rng):
    n = size(rng)

    def build():
        op = lin.Identity()
        return {"op": op.op, "adj_op": op.adj_op}

    return [], build, lambda r: {"op": [real(r, n)], "adj_op": [real(r, n)]}


@oper
def linear_combo(rng):
    n, m = size(rng), size(rng)
    weighted = bool(rng.integers(2))

    def build(a, b, w):
        op = lin.LinearCombo([lin.MatrixOperator(a), lin.MatrixOperator(b)],
                             weights=w if weighted else None)
        return {"op": op.op,
                "adj_op": lambda u, v: op.adj_op([u, v])}

    return ([real(rng, m, n), real(rng, m, n), layout(rng, rng.uniform(0, 1, 2))], build,
            lambda r: {"op": [real(r, n)], "adj_op": [real(r, m), real(r, m)]})


@oper
def wavelet_convolve(rng):
    nf, n = size(rng, 1, 3), size(rng, 1, 3)
    method = pick(rng, "scipy", "astropy")

    def build(f):
        op = lin.WaveletConvolve(f, method=method)
        return {"op": op.op, "adj_op": op.adj_op}

    return ([real(rng, nf, 3, 3)], build,
            lambda r: {"op": [real(r, n, 6, 5)], "adj_op": [real(r, n, nf, 6, 5)]})


@oper
def wavelet_transform(rng):
    shape = pick(rng, (16,), (9, 12), (8, 8, 6))
    name = pick(rng, "haar", "db2", "sym4")
    gen = pick(rng, real, cplx)

    def build():
        op = lin.WaveletTransform(name, shape, level=2, mode="periodization")
        return {"op": op.op, "adj_op": op.adj_op}

    def inputs(r):
        op = lin.WaveletTransform(name, shape, level=2, mode="periodization")
        total = sum(int(np.prod(s)) for s in op.coeffs_shape)
        return {"op": [gen(r, *shape)], "adj_op": [gen(r, total)]}

    return [], build, inputs


@oper
def wavelet_batch(rng):
    shape, nb = (8, 9), size(rng, 2, 4)

    def build():
        op = lin.wavelet.CPUWaveletTransform("db2", shape, level=2, n_batch=nb,
                                             n_jobs=2)
        return {"op": op.op, "adj_op": op.adj_op}

    def inputs(r):
        op = lin.WaveletTransform("db2", shape, level=2)
        total = sum(int(np.prod(s)) for s in op.coeffs_shape)
        return {"op": [real(r, nb, *shape)], "adj_op": [real(r, nb, total)]}

    return [], build, inputs
