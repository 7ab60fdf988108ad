"""C03: the partial-SVD path equals full thresholding over any call history."""

import numpy as np
import refs
from checks.c02 import separated
from core import Section
from gens import pick, shape_nd, sig
from modopt.opt.proximity import LowRankMatrix
from modopt.signal.svd import svd_thresh_coef_fast
from util import mute

RULE = (
    "A case is a history of calls on one low-rank operator with a rank estimate "
    "(sizes, true ranks, thresholds, explicit rank hints and factors vary from call "
    "to call), or one direct call; every result is compared to thresholding of the "
    "full spectrum.  Non-trivial: the estimate in use differs from the true rank."
)
ASSUMPTIONS = ["no singular value lies within 1e-6 (relative) of the threshold"]


def thresholded(mat, t, typ):
    if typ == "hard":
        return refs.svd_apply(mat, lambda v: np.where(v >= t, v, 0))
    return refs.svd_apply(mat, lambda v: np.maximum(v - t, 0))


def pick_level(rng, s):
    if rng.random() < 0.04:  # nothing is suppressed
        return pick(rng, 0.0, 0, np.float64(0)), s.size
    edges = np.r_[s[0] * 1.3, s, 0]
    j = int(rng.integers(len(edges) - 1))
    lo, hi = edges[j + 1], edges[j]
    level = lo + (hi - lo) * rng.uniform(0.2, 0.8)
    return pick(rng, float, np.float64)(level), j


def direct(ctx, rng, i):
    shape = shape_nd(rng, ndim=2, lo=1, hi=14)
    if rng.random() < 0.03:
        shape = tuple(int(v) for v in rng.integers(50, 130, 2))
    mat, s = separated(rng, shape, cplx=rng.random() < 0.2)
    t, rank = pick_level(rng, s)
    typ = pick(rng, "hard", "soft")
    n_vals = pick(rng, -1, None, 1, int(rng.integers(1, min(shape) + 1)),
                  int(rng.integers(1, min(shape) + 6)), "default")
    extra = int(pick(rng, 1, 2, 5, 5, 11))
    kw = {"extra_vals": extra, "thresh_type": typ}
    if n_vals != "default":
        kw["n_vals"] = n_vals
    if typ == "hard" and rng.random() < 0.5:
        del kw["thresh_type"]
    if extra == 5 and rng.random() < 0.5:
        del kw["extra_vals"]
    ctx.info(shape=shape, s=s, threshold=t, **kw)
    keep = mat.copy()
    got, got_rank = mute(svd_thresh_coef_fast, mat, t, **kw)
    ctx.close(got, thresholded(keep, t, typ), "partial SVD thresholding",
              rtol=1e-7, scale=s[0])
    ctx.check(int(got_rank) == rank, f"rank {got_rank} instead of {rank}")
    ctx.check(np.array_equal(keep, mat), "the input was modified")
    if n_vals != rank:
        ctx.seen("direct", shape, n_vals, extra, typ, rank)
    ctx.sample()


def history(ctx, rng, i):
    typ = pick(rng, "hard", "soft")
    start = pick(rng, None, *range(1, 9))
    t0 = 1.0
    op = LowRankMatrix(t0, thresh_type=typ, initial_rank=start)
    plain = LowRankMatrix(t0, thresh_type=typ)
    log, partial = [], False
    im = shape_nd(rng, ndim=2, lo=2, hi=5)
    n_im = int(rng.integers(2, 12))
    for step in range(int(rng.integers(2, 9))):
        if rng.random() < 0.4:
            im = shape_nd(rng, ndim=2, lo=1, hi=5)
            n_im = int(rng.integers(1, 12))
        mat, s = separated(rng, (im[0] * im[1], n_im))
        level, rank = pick_level(rng, s)
        cube = mat.T.reshape(n_im, *im)
        if rng.random() < 0.1:
            cube, s, rank = np.zeros_like(cube), np.ones(1), 0
            level = 0.5
        hint = pick(rng, None, None, int(rng.integers(1, 9)), rank + 3)
        log.append((im, n_im, rank, hint))
        ctx.info(type=typ, initial_rank=start, history=log)
        kw = {} if hint is None else {"rank": hint}
        got = mute(op.op, cube, extra_factor=level / t0, **kw)
        want = thresholded(cube.reshape(n_im, -1).T, level, typ).T.reshape(cube.shape)
        ctx.close(got, want, f"call {step} of the history", rtol=1e-7, scale=s[0])
        # Once an estimate is in use it is the rank of the latest result.
        partial = partial or start is not None or hint is not None
        if partial and hasattr(op, "rank"):
            ctx.check(op.rank is not None and int(op.rank) == rank,
                      f"rank {op.rank} reported, not {rank}, call {step}")
        full = mute(plain.op, cube, extra_factor=level / t0)
        ctx.close(full, want, f"full path, call {step}", rtol=1e-8, scale=s[0])
        ctx.obs("calls in histories")
        ctx.seen("history", tuple(log))
    ctx.sample(history=log)


def ngole(ctx, rng, i):
    """Coefficient mode is stateless over a history of calls."""
    typ = pick(rng, "hard", "soft")
    side = int(rng.integers(2, 5))
    t0 = float(rng.uniform(0.2, 1.0))
    op = LowRankMatrix(t0, thresh_type=typ, lowr_type="ngole",
                       operator=lambda c: 2.0 * c, initial_rank=pick(rng, None, 2))
    for step in range(3):
        n_im = int(rng.integers(1, 7))
        mat, s = separated(rng, (side * side, n_im))
        fac = float(rng.uniform(0.1, 1.0) * s[0])
        u, sv, vt = np.linalg.svd(mat, full_matrices=False)
        coef, lev = sv[:, None] * vt, 2.0 * t0 * fac
        if np.any(np.abs(np.abs(coef) - lev) < 1e-7 * s[0]):
            continue
        cube = mat.T.reshape(n_im, side, side)
        got = op.op(cube, extra_factor=fac)
        new = refs.hard(coef, lev) if typ == "hard" else refs.soft(coef, lev)
        ctx.close(got, (u @ new).T.reshape(cube.shape), f"coefficient mode, call {step}",
                  rtol=1e-8, scale=s[0], atol=1e-13)
        ctx.seen("ngole", sig(mat))


SECTIONS = [
    Section("direct", direct, 1500, 20000),
    Section("history", history, 500, 8000),
    Section("ngole", ngole, 200, 2000),
]
