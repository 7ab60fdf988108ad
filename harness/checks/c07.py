"""C07: wavelet transforms invert exactly and describe their coefficients."""

import threading
import time
import warnings

import numpy as np
import pywt
from core import Section
from gens import array, eps_of, pick, sig, weary
from modopt.opt.linear import WaveletTransform
from util import frozen, quiet

RULE = (
    "A case is one (wavelet, boundary mode, level, shape of 1-3 dimensions with odd "
    "sizes, batch size, number of jobs, dtype) and random data; the coefficients are "
    "compared to a direct decomposition of every element of the batch, the inverse to "
    "the data.  Batches run on threads with random delays injected in the elementary "
    "transforms.  Non-trivial: at least one detail coefficient is not zero."
)
ASSUMPTIONS = [
    "PyWavelets' own 1-D/n-D transforms are the reference",
    "discrete wavelets with exact reconstruction (not dmey)",
]
ORTHO = ("haar", "db1", "db2", "db3", "db4", "sym2", "sym4", "coif1")
BIORTHO = ("bior1.3", "bior2.2", "rbio1.3", "rbio2.2")
MODES = ("zero", "constant", "symmetric", "periodic", "smooth", "periodization",
         "reflect", "antisymmetric", "antireflect")
DT = (float, float, np.float32, complex, np.complex64, int, np.int16)
REAL = {n: getattr(pywt, n) for n in ("wavedec", "wavedecn", "waverec", "waverecn")}
STATE = {"delays": None, "threads": set(), "calls": 0}
LOCK = threading.Lock()


def delayed(name):
    """The elementary transform, with a pause that reorders the batch."""
    real = REAL[name]

    def run(*args, **kwargs):
        with LOCK:
            STATE["calls"] += 1
            STATE["threads"].add(threading.get_ident())
            pause = STATE["delays"].pop() if STATE["delays"] else 0.0
        if pause:
            time.sleep(pause)
        return real(*args, **kwargs)

    return run


def setup(ctx):
    for name in REAL:
        setattr(pywt, name, delayed(name))


def dims(rng, ndim):
    hi = {1: 40, 2: 18, 3: 9}[ndim]
    return tuple(int(k) for k in rng.integers(2, hi + 1, ndim))


def reference(x, wav, mode, level):
    if x.ndim == 1:
        co = REAL["wavedec"](x, wav, mode=mode, level=level)
    else:
        co = REAL["wavedecn"](x, wav, mode=mode, level=level)
    parts = [co[0]]
    for det in co[1:]:
        parts += [det[k] for k in det] if isinstance(det, dict) else [det]
    return parts


def transform(ctx, rng, i):
    ndim = int(rng.integers(1, 4))
    wav = pick(rng, *ORTHO, *BIORTHO)
    mode = pick(rng, *MODES)
    level = int(rng.integers(1, 5 if ndim < 3 else 4))
    shape = dims(rng, ndim)
    n_batch = int(pick(rng, 1, 1, 2, 3, 5))
    if rng.random() < 0.05:
        n_batch = int(rng.integers(6, 70))
    n_jobs = int(pick(rng, 1, 2, 4, -1)) if n_batch > 1 else int(pick(rng, 1, 1, 1, 3))
    dt = pick(rng, *DT)
    full = shape if n_batch == 1 else (n_batch, *shape)
    x = array(rng, full, dtype=dt, kind=int(pick(rng, 0, 1, 2, 3, 7)),
              scale=pick(rng, 1.0, 1e4, 1e-4))
    kw = {"level": level, "mode": mode, "n_batch": n_batch, "n_jobs": n_jobs}
    if mode == "symmetric" and rng.random() < 0.5:
        del kw["mode"]
    if level == 4 and rng.random() < 0.5:
        del kw["level"]
    if rng.random() < 0.3:
        kw["backend"] = "threading"
    given = shape[0] if ndim == 1 and rng.random() < 0.3 else shape
    if ndim > 1 and rng.random() < 0.2:
        given = list(shape)
    ctx.info(wavelet=wav, shape=given, dtype=str(np.dtype(dt)), **kw)
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        try:
            reference(np.zeros(shape), wav, mode, level)
        except ValueError:  # pywt: too small for [anti]reflect at this level
            ctx.obs("shapes PyWavelets refuses")
            return
        op = WaveletTransform(wav, given, **kw)
        items = [x] if n_batch == 1 else list(x)
        ref = [reference(np.asarray(e), wav, mode, level) for e in items]
        keep = np.array(x)
        scale = float(np.max(np.abs(x))) or 1.0
        flat = np.stack([np.concatenate([p.ravel() for p in r]) for r in ref])
        flat = flat[0] if n_batch == 1 else flat
        tol = 2e4 * eps_of(flat)
        # extrapolating modes amplify: errors scale with the coefficients
        scale = max(scale, float(np.max(np.abs(flat))))
        first_inverse = rng.random() < 0.3
        if first_inverse:  # a fresh operator inverts coefficients it has not made
            STATE["delays"] = list(rng.uniform(0, 0.004, n_batch)) if n_jobs != 1 else None
            back = op.adj_op(flat)
            ctx.close(back, keep, "inverse on a fresh operator", rtol=tol, scale=scale)
        for _ in range(int(rng.integers(1, 3))):
            if n_jobs != 1 and n_batch > 1:
                with LOCK:
                    STATE["threads"] = set()
                    STATE["delays"] = list(rng.uniform(0, 0.004, 2 * n_batch))
            co = op.op(x)
            ctx.close(co, flat, "coefficients", rtol=tol, scale=scale)
            ctx.check(np.asarray(co).dtype.kind == flat.dtype.kind, "kind of dtype lost")
            back = op.adj_op(co)
            ctx.check(tuple(back.shape) == tuple(full),
                      f"inverse has shape {back.shape}, data {full}")
            ctx.close(back, keep, "inverse of the transform", rtol=tol, scale=scale)
            if n_jobs != 1 and n_batch > 1:
                ctx.obs("batches run on several threads", int(len(STATE["threads"]) > 1))
        ctx.check(np.array_equal(keep, x), "the data were modified")
    shapes = [tuple(s) for s in op.coeffs_shape]
    want = [p.shape for p in ref[0]]
    ctx.check(shapes == want, f"coefficient shapes {shapes}, not {want}")
    if np.any(np.abs(flat) > 0):
        ctx.seen(wav, mode, level, shape, n_batch, n_jobs, str(dt))
    ctx.sample(coefficients=np.shape(flat))


def isometry(ctx, rng, i):
    """Orthogonal wavelets with periodization: adjoint and norm are exact."""
    ndim = int(rng.integers(1, 4))
    wav = pick(rng, *ORTHO)
    level = int(rng.integers(1, 3))
    unit = 2**level
    shape = tuple(unit * int(k) for k in rng.integers(1, 4 if ndim > 1 else 9, ndim))
    cplx = rng.random() < 0.4
    n_batch = int(pick(rng, 1, 1, 3))
    full = shape if n_batch == 1 else (n_batch, *shape)

    def new(s):
        v = rng.standard_normal(s)
        return v + 1j * rng.standard_normal(s) if cplx else v

    ctx.info(wavelet=wav, shape=shape, level=level, n_batch=n_batch)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        op = WaveletTransform(wav, shape, level=level, mode="periodization",
                              n_batch=n_batch)
        x, z = new(full), new(full)
        cx, cz = op.op(frozen(x)), op.op(frozen(z))
        weary(ctx, rng, lambda: op.adj_op(op.op(x)), far=60)
        a, b = new(()), new(())
        ctx.close(op.op(a * x + b * z), a * cx + b * cz, "linearity", rtol=1e-10,
                  scale=10 * np.max(np.abs(cx)))
        c = new(cx.shape)
        lhs, rhs = np.vdot(c, cx), np.vdot(op.adj_op(frozen(c)), x)
    norm = np.linalg.norm(x) * np.linalg.norm(c)
    ctx.check(abs(lhs - rhs) <= 1e-9 * norm, f"<Wx,c>={lhs} but <x,W'c>={rhs}")
    ctx.close(np.linalg.norm(cx), np.linalg.norm(x), "norm of the coefficients",
              rtol=1e-9)
    ctx.check(cx.size == x.size, "critically sampled transform changed the size")
    ctx.seen("iso", sig(x), wav, level)


def rejects(ctx, rng, i):
    ctx.raises(ValueError, lambda: WaveletTransform("nowavelet", (8, 8)),
               "unknown wavelet")
    ctx.raises(ValueError, lambda: WaveletTransform("haar", (8, 8),
               compute_backend="nothing"), "unknown backend")
    ctx.raises(NotImplementedError, lambda: WaveletTransform("haar", (8, 8),
               decimated=False), "undecimated transform")
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        WaveletTransform("haar", (8, 8), level=2, n_jobs=4)
    ctx.check(any("n_jobs" in str(w.message) for w in rec), "no warning about n_jobs")
    ctx.seen("rejects")


def finish(ctx):
    """The delays were really met by several threads (else only counted)."""
    ctx.obs("elementary transforms seen", STATE["calls"])


SECTIONS = [
    Section("transform", transform, 700, 12000),
    Section("isometry", isometry, 250, 3000),
    Section("rejects", rejects, 1, 1),
]
