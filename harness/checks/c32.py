"""C32: the torch wavelet transform inverts exactly and equals the CPU one."""

import numpy as np
import pywt
from core import Section
from gens import array, pick, sig

OPTIONAL = "torch ptwt"

RULE = (
    "A case is one (wavelet, boundary mode, level, 2D or 3D shape with odd sizes, batch "
    "size or none, real or complex, single or double precision); the subbands are "
    "compared to PyWavelets' decomposition of each element and the inverse to the data. "
    "Non-trivial: a detail coefficient that is not zero."
)
ASSUMPTIONS = ["runs on the CPU: the cupy wrapper needs a GPU and is not covered"]
MODES = ("zero", "constant", "symmetric", "periodic", "reflect")
WAV = ("haar", "db2", "db3", "sym4", "coif1", "bior2.2")
KEYS3 = ("aad", "ada", "add", "daa", "dad", "dda", "ddd")


def reference(x, wav, mode, level):
    if x.ndim == 2:
        co = pywt.wavedec2(x, wav, mode=mode, level=level)
        return [co[0], *(d for det in co[1:] for d in det)]
    co = pywt.wavedecn(x, wav, mode=mode, level=level)
    return [co[0], *(det[k] for det in co[1:] for k in KEYS3)]


def make(rng):
    ndim = pick(rng, 2, 2, 3)
    shape = tuple(int(v) for v in rng.integers(8, 17 if ndim == 2 else 11, ndim))
    if rng.random() < 0.1:  # many levels
        side = int(pick(rng, 64, 70, 128))
        return 2, (side, side + int(rng.integers(0, 7))), "haar", pick(rng, *MODES[:4]), int(
            rng.integers(4, 7))
    return (ndim, shape, pick(rng, *WAV), pick(rng, *MODES),
            int(rng.integers(1, 4 if ndim == 2 else 3)))


def transform(ctx, rng, i):
    import torch
    from modopt.opt.linear.wavelet import TorchWaveletTransform

    ndim, shape, wav, mode, level = make(rng)
    if mode == "reflect":  # torch needs the padding to fit
        wav, level = pick(rng, "haar", "db2"), 1
    batch = pick(rng, None, 1, 2, 3)
    dt = pick(rng, float, complex, np.float32, np.complex64)
    full = shape if batch is None else (batch, *shape)
    x = np.array(array(rng, full, dtype=dt, scale=1.0, kind=pick(rng, 0, 1, 2, 3)))
    ctx.info(wavelet=wav, mode=mode, level=level, shape=shape, batch=batch, dtype=dt)
    op = TorchWaveletTransform(shape=shape, wavelet=wav, level=level, mode=mode)
    t = torch.tensor(x)
    co = op.op(t)
    ctx.check(np.array_equal(t.numpy(), x), "data modified")
    tol = 2e-4 if dt in (np.float32, np.complex64) else 1e-9
    elems = x[None] if batch is None else x
    sc = float(np.max(np.abs(x))) + 1e-30
    refs = [reference(e, wav, mode, level) for e in elems]
    ctx.check(len(co) == len(refs[0]), f"{len(co)} subbands, not {len(refs[0])}")
    for k, c in enumerate(co):
        want = np.array([r[k] for r in refs])
        got = c.numpy()
        ctx.check(np.iscomplexobj(got) == np.iscomplexobj(x), "complex coefficients")
        ctx.close(got.reshape(want.shape), want, f"subband {k}", rtol=tol, scale=sc)
    y = op.adj_op(co).numpy()
    ctx.check(y.shape[-ndim:] == shape, f"shape of the inverse {y.shape}")
    ctx.close(y.reshape(full), x, "inverse", rtol=tol, scale=sc)
    # a second object of the same kind decodes them too
    op2 = TorchWaveletTransform(shape=shape, wavelet=wav, level=level, mode=mode)
    ctx.close(op2.adj_op(co).numpy().reshape(full), x, "inverse, fresh object",
              rtol=tol, scale=sc)
    # linearity of the inverse
    co2 = [2.5 * c for c in co]
    ctx.close(op.adj_op(co2).numpy().reshape(full), 2.5 * x, "linear", rtol=tol, scale=sc)
    if any(np.any(c.numpy()) for c in co[1:]):
        ctx.seen(ndim, wav, mode, level, sig(x))
    ctx.obs("subbands", len(co))
    ctx.sample(subbands=len(co))


SECTIONS = [Section("transform", transform, 300, 5000)]
