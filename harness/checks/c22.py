"""C22: matrix routines: Gram-Schmidt, projections, nuclear norm, rotations."""

import numpy as np
from core import Section
from gens import array, dims, layout, pick, sig
from modopt.math import matrix as mx

RULE = (
    "A case is a random well-conditioned matrix or vector pair (any shape, integer or "
    "float, scales from 1e-6 to 1e6); the results are judged by the laws that define "
    "them (orthogonality, spans, sums of singular values, quarter turns).  "
    "Non-trivial: more than one row, or a non-zero value."
)


def gram(ctx, rng, i):
    n = dims(rng, 1, 7, 1, 60)[0]
    r = int(rng.integers(1, n + 1))
    cplx = rng.random() < 0.25
    a = None
    while a is None or np.linalg.cond(a) > 50:
        a = rng.standard_normal((r, n))
        if cplx:
            a = a + 1j * rng.standard_normal((r, n))
        elif rng.random() < 0.3:
            a = np.rint(3 * a)
        if not np.all(np.linalg.norm(a, axis=1)):
            a = None
    integer = not cplx and np.array_equal(a, np.rint(a))
    if integer and rng.random() < 0.5:
        a = a.astype(int)
    else:
        a = a * 10.0 ** rng.integers(-6, 7, (r, 1))
    a = layout(rng, a)
    a0 = np.array(a)
    ctx.info(matrix=a0)
    both = mx.gram_schmidt(a, return_opt="both")
    ctx.check(isinstance(both, tuple) and len(both) == 2, "both: a pair")
    u, e = both
    ctx.close(mx.gram_schmidt(a), e, "default option", rtol=1e-14)
    ctx.close(mx.gram_schmidt(a, return_opt="orthonormal"), e, "orthonormal", rtol=1e-14)
    ctx.close(mx.gram_schmidt(a, return_opt="orthogonal"), u, "orthogonal", rtol=1e-14)
    ctx.check(u.shape == a0.shape and e.shape == a0.shape, "shapes")
    ctx.close(e @ e.conj().T, np.eye(r), "orthonormal rows", atol=1e-7, rtol=0)
    af = a0.astype(np.result_type(a0, float))
    for j in range(r):
        sc = np.linalg.norm(af[j])
        # u_j is a_j less its projection on the span of the previous rows
        if j:
            q, _ = np.linalg.qr((af[:j] / np.linalg.norm(af[:j], axis=1)[:, None]).T)
            want = af[j] - q @ (q.conj().T @ af[j])
        else:
            want = af[0]
        ctx.close(u[j], want, f"row {j}", rtol=1e-7, scale=sc)
        ctx.close(e[j], want / np.linalg.norm(want), f"unit row {j}", rtol=1e-6, scale=1)
    ctx.check(np.array_equal(a, a0), "input modified")
    ctx.raises(ValueError, lambda: mx.gram_schmidt(a, return_opt=pick(
        rng, "ortho", "", None, "Both")), "return option")
    if r > 1:
        ctx.seen("gram", sig(a0))
    ctx.sample(rows=r, columns=n)


def projections(ctx, rng, i):
    n = dims(rng, 1, 8, 1)[0]
    u = array(rng, (n,), dtype=pick(rng, float, int, complex))
    if not np.any(u):
        u = np.ones(n)
    v = array(rng, (n,), dtype=pick(rng, float, int, complex))
    u0, v0 = np.array(u), np.array(v)
    ctx.info(u=u0, v=v0)
    p = mx.project(u, v)
    uf, vf = u0.astype(np.result_type(u0, float)), v0.astype(np.result_type(v0, float))
    un = uf / np.linalg.norm(uf)
    ctx.close(p, un * np.vdot(un, vf), "projection", rtol=1e-9,
              scale=np.linalg.norm(vf) + 1e-300)
    ctx.close(mx.project(u, p), p, "projection is idempotent", rtol=1e-9,
              scale=np.linalg.norm(vf) + 1e-300)
    ctx.check(np.array_equal(u, u0) and np.array_equal(v, v0), "input modified")
    if np.any(p):
        ctx.seen("project", sig(u0, v0))


def norms(ctx, rng, i):
    m, n = dims(rng, 1, 8, 2)
    dt = pick(rng, float, complex, int)
    if rng.random() < 0.3:
        a = array(rng, (m, 1), dtype=dt) * array(rng, (1, n), dtype=dt)
    else:
        a = array(rng, (m, n), dtype=dt)
    a0 = np.array(a)
    ctx.info(matrix=a0)
    got = mx.nuclear_norm(a)
    af = a0.astype(complex)
    g = af @ af.conj().T if m <= n else af.conj().T @ af
    want = np.sum(np.sqrt(np.maximum(np.linalg.eigvalsh(g), 0)))
    sc = float(np.linalg.norm(af)) + 1e-300
    ctx.close(got, want, "nuclear norm", rtol=1e-6, scale=sc)
    ctx.close(got, np.sum(np.linalg.svd(af, compute_uv=False)), "sum of singular values",
              rtol=1e-10, scale=sc)
    ctx.check(got >= np.linalg.norm(af) * (1 - 1e-9), "at least the Frobenius norm")
    ctx.check(np.array_equal(a, a0), "input modified")
    if got > 0:
        ctx.seen("nuclear", sig(a0))


def turns(ctx, rng, i):
    ang = float(rng.uniform(-20, 20))
    r = mx.rot_matrix(ang)
    c, s = np.cos(ang), np.sin(ang)
    ctx.close(r, np.array([[c, -s], [s, c]]), "rotation matrix", rtol=0, atol=1e-9)
    ctx.close(r @ r.T, np.eye(2), "orthogonal", rtol=0, atol=1e-8)
    ctx.close(np.linalg.det(r), 1.0, "determinant", rtol=0, atol=1e-8)
    b = float(rng.uniform(-20, 20))
    ctx.close(mx.rot_matrix(ang + b), r @ mx.rot_matrix(b), "angles add up", rtol=0,
              atol=1e-8)
    n = 2 * dims(rng, 0, 4, 1, 30)[0] + 1
    a = array(rng, (n, n), dtype=pick(rng, float, int, complex))
    a0 = np.array(a)
    k = int(rng.integers(-6, 7))
    ctx.info(quarter_turns=k, matrix=a0)
    got = mx.rotate(a, k * np.pi / 2)
    ctx.check(np.array_equal(got, np.rot90(a0, k)), "quarter turns", got=got)
    ctx.check(np.asarray(got).dtype == a0.dtype, "type of the result")
    ctx.check(np.array_equal(a, a0), "input modified")
    # Any angle: each point shows a neighbour of the point that turns into it.
    n = dims(rng, 1, 9, 1, 30)[0]
    sq = layout(rng, rng.permutation(n * n).reshape(n, n).astype(pick(rng, float, int)))
    ang = pick(rng, float(rng.uniform(-8, 8)), float(rng.uniform(-8, 8)),
               int(rng.integers(-7, 8)), np.float64(rng.uniform(-1, 1)),
               float(rng.uniform(-1e-9, 1e-9)), float(rng.uniform(-500, 500)))
    got = np.asarray(mx.rotate(sq, ang))
    ctx.check(got.shape == (n, n), "shape of the rotated matrix")
    c, s, mid = np.cos(ang), np.sin(ang), (n - 1) // 2
    ctx.check(got[mid, mid] == sq[mid, mid], "the centre moved", angle=ang)
    points = [(p, q) for p in range(n) for q in range(n)]
    if rng.random() < 0.15:  # large matrices, of which some points are judged
        n = int(rng.integers(60, 300))
        sq = rng.permutation(n * n).reshape(n, n)
        got, mid = np.asarray(mx.rotate(sq, ang)), (n - 1) // 2
        ctx.check(got.shape == (n, n), "shape of the rotated matrix")
        ctx.check(got[mid, mid] == sq[mid, mid], "the centre moved", angle=ang, size=n)
        points = [(int(p), int(q)) for p, q in rng.integers(0, n, (60, 2))]
    for p, q in points:
        a_, b_ = p - mid, q - mid
        x, y = a_ * c + b_ * s, -a_ * s + b_ * c
        lo = [int(np.floor(v - 1e-6)) + mid for v in (x, y)]
        hi = [int(np.ceil(v + 1e-6)) + mid for v in (x, y)]
        if min(lo) >= 0 and max(hi) < n:
            near = sq[lo[0]:hi[0] + 1, lo[1]:hi[1] + 1]
            ctx.obs("turned points")
            ctx.check(got[p, q] in near, f"rotation by {ang}: point {p, q}",
                      matrix=sq, got=got)
    # No turn of any matrix moves anything.
    m = dims(rng, 1, 8, 1, 60)[0]
    sq = array(rng, (m, m))
    ctx.check(np.array_equal(mx.rotate(sq, 0.0), sq), "no rotation")
    w = m + int(rng.integers(1, 4))
    ctx.raises(ValueError, lambda: mx.rotate(np.zeros((m, w)), 0.3), "not square")
    ctx.raises(ValueError, lambda: mx.rotate(np.zeros((w, m)), 0.3), "not square")
    ctx.seen("turn", k, sig(a0))


SECTIONS = [
    Section("gram", gram, 500, 6000),
    Section("projections", projections, 300, 4000),
    Section("norms", norms, 400, 5000),
    Section("turns", turns, 400, 5000),
]
