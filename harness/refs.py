"""Independent reference implementations used as oracles.

None of these imports the code under test.
"""

import numpy as np


# -- thresholding -----------------------------------------------------------
def soft(x, t):
    """Soft thresholding of real or complex data."""
    x = np.asarray(x)
    mag = np.abs(x)
    with np.errstate(all="ignore"):
        fac = np.where(mag > t, (mag - t) / np.where(mag > 0, mag, 1), 0.0)
    return fac * x


def hard(x, t):
    x = np.asarray(x)
    return np.where(np.abs(x) >= t, x, 0)


def svd_apply(mat, fun):
    u, s, vt = np.linalg.svd(mat, full_matrices=False)
    return (u * fun(s)) @ vt


# -- ordered weighted l1 ------------------------------------------------------
def pav_decreasing(y):
    """Pool adjacent violators: closest non-increasing sequence."""
    blocks = []
    for val in y:
        blocks.append([float(val), 1])
        while len(blocks) > 1 and blocks[-2][0] < blocks[-1][0]:
            v2, n2 = blocks.pop()
            v1, n1 = blocks.pop()
            blocks.append([(v1 * n1 + v2 * n2) / (n1 + n2), n1 + n2])
    return np.concatenate([np.full(n, v) for v, n in blocks])


def owl_prox(x, w):
    flat = np.asarray(x).ravel()
    mag = np.abs(flat)
    order = np.argsort(-mag, kind="stable")
    proj = np.maximum(pav_decreasing(mag[order] - w), 0)
    res = np.zeros(flat.shape)
    res[order] = proj
    phase = np.where(mag > 0, flat / np.where(mag > 0, mag, 1), 0)
    return (res * phase).reshape(np.shape(x))


def owl_norm(x, w):
    return float(np.sum(np.sort(np.abs(np.ravel(x)))[::-1] * w))


# -- squared k-support norm ---------------------------------------------------
def ksup_sq(x, k):
    """Squared k-support norm, by trying every r of its definition."""
    z = np.sort(np.abs(np.ravel(x)))[::-1]
    k = min(int(k), z.size)
    for r in range(k):
        tail = float(np.sum(z[k - r - 1 :]))
        lower = z[k - r - 1]
        upper = z[k - r - 2] if k - r - 2 >= 0 else np.inf
        mean = tail / (r + 1)
        tol = 1e-12 * (z[0] + 1e-300)
        if upper > mean - tol and mean >= lower - tol:
            return float(np.sum(z[: k - r - 1] ** 2) + tail**2 / (r + 1))
    raise ArithmeticError("k-support: no r found")


def ksup_prox(x, beta, k):
    """argmin 0.5|z-x|^2 + beta/2 |z|_k^2, by bisection on alpha."""
    w = np.abs(np.ravel(x)).astype(float)
    k = min(int(k), w.size)

    def theta(a):
        return np.clip(a * w - beta, 0, 1)

    nz = w[w > 0]
    if nz.size <= k:
        th = (w > 0).astype(float)
    else:
        lo, hi = 0.0, (beta + 1) / nz.min()
        for _ in range(400):
            mid = 0.5 * (lo + hi)
            if theta(mid).sum() < k:
                lo = mid
            else:
                hi = mid
        th = theta(0.5 * (lo + hi))
    return (np.ravel(x) * th / (th + beta)).reshape(np.shape(x))


# -- convolution --------------------------------------------------------------
def conv_same(a, k):
    """Zero padded 2D convolution cropped as 'same' (centred on (K-1)//2)."""
    a, k = np.asarray(a), np.asarray(k)
    full = np.zeros(
        (a.shape[0] + k.shape[0] - 1, a.shape[1] + k.shape[1] - 1),
        dtype=np.result_type(a, k, float),
    )
    for i in range(k.shape[0]):
        for j in range(k.shape[1]):
            full[i : i + a.shape[0], j : j + a.shape[1]] += k[i, j] * a
    i0, j0 = (k.shape[0] - 1) // 2, (k.shape[1] - 1) // 2
    return full[i0 : i0 + a.shape[0], j0 : j0 + a.shape[1]]


def conv_wrap(a, k):
    """Circular 2D convolution of equal shapes, centred on N//2."""
    n0, n1 = a.shape
    res = np.zeros(a.shape, dtype=np.result_type(a, k, float))
    for i in range(n0):
        for j in range(n1):
            res += k[i, j] * np.roll(a, (i - n0 // 2, j - n1 // 2), axis=(0, 1))
    return res


# -- misc ---------------------------------------------------------------------
def nuclear(mat):
    return float(np.sum(np.linalg.svd(mat, compute_uv=False)))


def norm2(x):
    return float(np.sqrt(np.sum(np.abs(np.asarray(x)) ** 2)))
