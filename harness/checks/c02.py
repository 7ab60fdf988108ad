"""C02: hard / soft thresholding of values and of singular values."""

import numpy as np
import refs
from core import Section
from gens import array, dims, eps_of, layout, pick, shape_nd, sig
from modopt.signal import svd as msvd
from modopt.signal.noise import thresh
from util import mute

RULE = (
    "A case is one (data, threshold(s), type) triple for element-wise, singular-value "
    "or coefficient thresholding, including values exactly at the threshold; "
    "non-trivial: at least one entry is kept and one is suppressed, or a spectrum was "
    "compared."
)
DT = (float, float, complex, np.float32, np.complex64, int)


def elementwise(ctx, rng, i):
    shape = shape_nd(rng, hi=9)
    x = array(rng, shape, dtype=pick(rng, *DT))
    m = float(np.mean(np.abs(x))) or 1.0
    kind = rng.integers(4)
    if kind == 0:
        t = float(rng.uniform(0, 2) * m)
    elif kind == 1:
        t = np.abs(rng.standard_normal(shape)) * m
    elif kind == 2:  # exactly at the level of some of the entries
        flat = np.abs(x).ravel()
        t = flat[rng.integers(flat.size)]
        t = t.item() if rng.random() < 0.5 else t
    else:
        t = np.abs(x) * pick(rng, 1, 1, 0) + 0.0
        t = np.where(rng.random(shape) < 0.5, t, rng.uniform(0, 2) * m)
    ctx.info(x=np.array(x), threshold=t)
    keep = np.array(x)
    if x.ndim and rng.random() < 0.2 and x.dtype in (float, int):
        given = x.tolist()
    else:
        given = x
    got = thresh(given, t, threshold_type="hard")
    ctx.close(got, refs.hard(keep, t), "hard thresholding", rtol=0, atol=0)
    if rng.random() < 0.3:
        ctx.close(thresh(given, t), got, "hard is the default", rtol=0)
    got_s = thresh(given, t, threshold_type="soft")
    scale = float(np.max(np.abs(keep)))
    ctx.close(
        got_s, refs.soft(keep, t), "soft thresholding",
        rtol=2e-6 if eps_of(keep) > 1e-10 else 1e-13, atol=2e-15, scale=scale,
    )
    ctx.check(np.array_equal(np.asarray(x), keep), "thresholding modified its input")
    ctx.check(
        np.all(np.abs(np.asarray(got_s)) <= np.abs(keep) * (1 + 4 * eps_of(keep)) + 2e-15),
        "soft thresholding increased a magnitude",
    )
    again = thresh(got, t, threshold_type="hard")
    ctx.close(again, got, "hard thresholding is idempotent", rtol=0)
    kept = int(np.count_nonzero(np.abs(keep) >= t))
    if 0 < kept < keep.size:
        ctx.seen("thresh", sig(keep), sig(np.asarray(t)))
    ctx.sample(kept=kept)


def separated(rng, shape, cplx=False, decay=None):
    """Matrix with well separated singular values."""
    n = min(shape)
    s = np.cumsum(rng.uniform(0.3, 1.0, n))[::-1] * float(pick(rng, 1.0, 1e2, 1e-2, 1e5, 1e-5))
    if rng.random() < 0.3:  # several orders of magnitude
        s = s[0] * 10.0 ** -np.sort(rng.uniform(0, 1.2, n).cumsum() - 0.0)
        s = np.maximum(s, s[0] * 1e-5 * np.linspace(2, 1, n))
    a, b = rng.standard_normal((shape[0], n)), rng.standard_normal((shape[1], n))
    if cplx:
        a = a + 1j * rng.standard_normal(a.shape)
        b = b + 1j * rng.standard_normal(b.shape)
    u, v = np.linalg.qr(a)[0], np.linalg.qr(b)[0]
    return layout(rng, (u * s) @ v.conj().T), s


def spectrum(ctx, rng, i):
    shape = shape_nd(rng, ndim=2, lo=1, hi=9)
    mat, s = separated(rng, shape, cplx=rng.random() < 0.25)
    typ = pick(rng, "hard", "soft")
    ctx.info(shape=shape, s=s, type=typ)
    keep = mat.copy()
    # by threshold, away from the singular values themselves
    edges = np.r_[s[0] * 1.2, s, 0]
    j = int(rng.integers(len(edges) - 1))
    t = float(0.5 * (edges[j] + edges[j + 1]))
    if rng.random() < 0.25:
        t = np.full(s.size, t) * rng.uniform(0.97, 1.03, s.size)
        if np.any(np.abs(t - s) < 1e-6 * s[0]):
            t = t * 0 + s[-1] / 2
    kw = {} if typ == "hard" and rng.random() < 0.5 else {"thresh_type": typ}
    got = mute(msvd.svd_thresh, mat, threshold=t, **kw)
    if typ == "hard":
        want = refs.svd_apply(keep, lambda v: np.where(v >= t, v, 0))
    else:
        want = refs.svd_apply(keep, lambda v: np.maximum(v - t, 0))
    ctx.close(got, want, f"svd_thresh {typ} threshold", rtol=1e-9, atol=1e-14, scale=s[0])
    # by number of components
    k = int(rng.integers(1, s.size + 3))
    n_pc = pick(rng, k, k, "all") if typ == "hard" else k
    got = mute(msvd.svd_thresh, mat, n_pc=n_pc, **kw)
    kk = s.size if n_pc == "all" else min(k, s.size)
    if typ == "hard":
        # The threshold is the k-th value itself: it is kept.
        want = refs.svd_apply(keep, lambda v: np.where(np.arange(v.size) < kk, v, 0))
    else:
        want = refs.svd_apply(keep, lambda v: np.maximum(v - v[kk - 1], 0))
    ctx.close(got, want, f"svd_thresh {typ} n_pc={n_pc}", rtol=1e-9, atol=1e-14, scale=s[0])
    if typ == "hard":
        rank = int(np.sum(np.linalg.svd(np.asarray(got), compute_uv=False) > 1e-8 * s[0]))
        ctx.check(rank == kk, f"svd_thresh n_pc={n_pc}: rank {rank} instead of {kk}")
    u, sv, vt = msvd.calculate_svd(mat)
    ctx.close(sv, s, "singular values", rtol=1e-9)
    ctx.close((u * sv) @ vt, keep, "SVD product", rtol=1e-9, scale=s[0])
    ctx.close(u.conj().T @ u, np.eye(s.size), "left vectors orthonormal", rtol=1e-9)
    ctx.close(vt @ vt.conj().T, np.eye(s.size), "right vectors orthonormal", rtol=1e-9)
    ctx.check(np.array_equal(mat, keep), "svd_thresh modified its input")
    ctx.seen("svd", shape, typ, n_pc, t if np.isscalar(t) else "array", sig(keep))
    ctx.sample(threshold=t, n_pc=n_pc)


def pc_count(ctx, rng, i):
    """find_n_pc against the direct auto-correlation, away from its margin."""
    side = dims(rng, 2, 5, 1, 25)[0]
    cols = int(rng.integers(1, min(6, side * side + 1)))
    smooth = rng.random() < 0.5
    a = rng.standard_normal((side * side, cols))
    if smooth:
        yy, xx = np.mgrid[:side, :side]
        a[:, 0] = np.exp(-((yy - side / 2) ** 2 + (xx - side / 2) ** 2) / side).ravel()
    u = np.linalg.qr(a)[0]
    factor = float(pick(rng, 0.1, 0.5, 0.9, rng.uniform(0.05, 0.95)))
    ratios = []
    for vec in u.T:
        img = vec.reshape(side, side)
        ac = refs.conv_same(img, img[::-1, ::-1])
        ratios.append(ac[side // 2, side // 2] ** 2 / np.sum(ac**2))
    ratios = np.array(ratios)
    # even sides: the centre of 'same' is (side-1)//2, taken at side//2
    if np.any(np.abs(ratios - factor) < 1e-6):
        return
    want = int(np.sum(ratios <= factor))
    got = msvd.find_n_pc(u, factor=factor)
    ctx.check(got == want, f"find_n_pc: {got} instead of {want}", u=u, factor=factor)
    ctx.seen("n_pc", side, cols, want, sig(u))
    if want >= 1 and smooth:
        mat = (u * np.arange(cols, 0, -1)) @ np.linalg.qr(
            rng.standard_normal((cols + 2, cols))
        )[0].T
        auto = mute(msvd.svd_thresh, mat)
        k = msvd.find_n_pc(msvd.calculate_svd(mat)[0], factor=0.1)
        if k >= 1:
            ref = refs.svd_apply(mat, lambda v: np.where(np.arange(v.size) < k, v, 0))
            ctx.close(auto, ref, "svd_thresh with automatic n_pc", rtol=1e-8)


def coefficients(ctx, rng, i):
    side = dims(rng, 1, 4, 1, 20)[0]
    mat, s = separated(rng, (side * side, int(rng.integers(1, 8))))
    typ = pick(rng, "hard", "soft")
    filt = rng.standard_normal((side, side))
    op = pick(
        rng,
        lambda cube: cube,
        lambda cube: 3.0 * cube,
        lambda cube: np.array([filt * c for c in cube]),
        lambda cube: np.array([[filt * c, c] for c in cube]),
        lambda cube: np.array([(filt + 0.7j * filt.T) * c for c in cube]),
        lambda cube: 1j * cube,
    )
    t = float(rng.uniform(0, 1.5) * s[0] / np.sqrt(mat.shape[1]))
    u, sv, vt = np.linalg.svd(mat, full_matrices=False)
    coef = sv[:, None] * vt
    imgs = u.T.reshape(-1, side, side)
    ti = np.array([refs.norm2(e) for e in op(imgs)])
    level = np.repeat(ti[:, None], coef.shape[1], axis=1)
    given = t
    if rng.random() < 0.5:
        given = np.full(coef.shape, t) * rng.uniform(0.5, 1.5, coef.shape)
        level = level * given
    else:
        level = level * t
    if np.any(np.abs(np.abs(coef) - level) < 1e-7 * s[0]):
        return
    keep_t = np.array(given)
    keep = mat.copy()
    kw = {} if typ == "hard" and rng.random() < 0.5 else {"thresh_type": typ}
    got = msvd.svd_thresh_coef(mat, op, given, **kw)
    want = u @ (refs.hard(coef, level) if typ == "hard" else refs.soft(coef, level))
    ctx.info(side=side, type=typ, mat=mat, threshold=given)
    ctx.close(got, want, f"svd_thresh_coef {typ}", rtol=1e-9, scale=s[0], atol=1e-13)
    ctx.check(np.array_equal(keep_t, np.asarray(given)), "the threshold was modified")
    ctx.check(np.array_equal(keep, mat), "svd_thresh_coef modified its input")
    ctx.seen("coef", side, typ, sig(keep))


SECTIONS = [
    Section("elementwise", elementwise, 2500, 30000),
    Section("spectrum", spectrum, 1200, 12000),
    Section("pc_count", pc_count, 400, 5000),
    Section("coefficients", coefficients, 600, 8000),
]
