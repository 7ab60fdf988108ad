"""C25: noise added to data: distribution, levels, reproducibility."""

import numpy as np
from core import Section
from gens import array, dims, pick, sig
from modopt.signal.noise import add_noise

RULE = (
    "A case adds noise to random data; the added part is recovered and judged: same "
    "seed or generator state gives the same noise, levels scale it exactly (one or one "
    "per first index), a large sample has the moments of the distribution, and invalid "
    "calls are refused.  Non-trivial: non-zero noise."
)


def level_form(rng, vals):
    return pick(rng, list, tuple, np.array)(vals)


def gauss(ctx, rng, i):
    shape = dims(rng, 1, 6, int(rng.integers(1, 4)))
    x = array(rng, shape, dtype=pick(rng, float, int, np.float32),
              scale=pick(rng, 1.0, 1.0, 100.0, 1e-3))
    x0 = np.array(x)
    arg = x0.tolist() if rng.random() < 0.3 else x
    if isinstance(arg, list) and rng.random() < 0.5:
        arg = tuple(arg)
    seed = pick(rng, 0, 1, int(rng.integers(10**6)), int(rng.integers(10**6)))
    kw = {} if rng.random() < 0.5 else {"noise_type": "gauss"}
    ctx.info(data=x0, seed=seed)
    np.random.seed(seed)
    legacy = np.random.get_state()[1].tobytes()
    unit = add_noise(np.zeros(shape), rng=seed, **kw)
    ctx.check(np.asarray(unit).shape == shape, "shape")
    s = pick(rng, float(rng.uniform(0, 5)), int(rng.integers(0, 5)),
             np.float64(rng.uniform(0, 5)), float(10 ** rng.uniform(-6, 6)))
    got = add_noise(arg, sigma=s, rng=seed, **kw)
    ctx.close(got, x0 + s * unit, "data plus sigma times noise", rtol=1e-6,
              scale=np.max(np.abs(x0)) + s * 5)
    ctx.close(add_noise(arg, rng=seed, **kw), x0 + unit, "default level", rtol=1e-6,
              scale=np.max(np.abs(x0)) + 5)
    per = pick(rng, rng.uniform(0.01, 5, shape[0]), rng.integers(0, 5, shape[0]),
               rng.uniform(0, 5, shape[0]) * (rng.random(shape[0]) < 0.5))
    levels = per.tolist()
    if rng.random() < 0.3:  # whole and fractional levels side by side
        levels = [int(v) if rng.random() < 0.5 else v for v in levels]
        per = np.array(levels, dtype=float)
    got = add_noise(arg, sigma=level_form(rng, levels), rng=seed, **kw)
    lv = per.reshape(-1, *([1] * (len(shape) - 1)))
    ctx.close(got, x0 + lv * unit, "one level per first index", rtol=1e-6,
              scale=np.max(np.abs(x0)) + 25)
    # seeds, generators
    again = add_noise(arg, sigma=s, rng=seed, **kw)
    ctx.check(np.array_equal(again, add_noise(arg, sigma=s, rng=seed, **kw)), "same seed")
    g1, g2 = np.random.default_rng(seed), np.random.default_rng(seed)
    a1, a2 = add_noise(x0, rng=g1, **kw), add_noise(x0, rng=g2, **kw)
    ctx.check(np.array_equal(a1, a2), "same generator state")
    b1 = add_noise(x0, rng=g1, **kw)
    ctx.check(not np.array_equal(a1, b1), "a generator goes on")
    ctx.check(np.array_equal(b1, add_noise(x0, rng=g2, **kw)), "generators stay in step")
    ctx.check(not np.array_equal(unit, add_noise(np.zeros(shape), rng=seed + 1, **kw)),
              "the seed matters")
    ctx.check(not np.array_equal(add_noise(np.zeros(shape)), add_noise(np.zeros(shape))),
              "unseeded calls differ")
    ctx.check(np.random.get_state()[1].tobytes() == legacy
              and np.random.get_state()[2] == 624, "global generator used or reset")
    ctx.check(np.array_equal(x, x0), "input modified")
    for bad in (shape[0] + 1, shape[0] + 2):
        ctx.raises(ValueError, lambda: add_noise(x0, sigma=level_form(
            rng, [1.0] * bad)), "number of levels")
    if shape[0] > 1:
        ctx.raises(ValueError, lambda: add_noise(x0, sigma=level_form(
            rng, [1.0] * (shape[0] - 1))), "number of levels")
    ctx.raises(ValueError, lambda: add_noise(x0, noise_type=pick(
        rng, "cauchy", "", None, "Gauss")), "noise type")
    ctx.seen("gauss", sig(x0), seed)
    ctx.sample(noise=unit)


def moments(ctx, rng, i):
    n = 40000
    s = float(rng.uniform(0.2, 4))
    m = float(rng.uniform(-3, 3))
    z = (add_noise(np.full((200, 200), m), sigma=s, rng=int(rng.integers(10**6))) - m) / s
    z = z.ravel()
    # 6 standard errors and more
    ctx.check(abs(z.mean()) < 0.04, f"mean {z.mean()}")
    ctx.check(abs(z.std() - 1) < 0.03, f"standard deviation {z.std()}")
    ctx.check(abs(np.mean(z**3)) < 0.15, f"skewness {np.mean(z**3)}")
    ctx.check(abs(np.mean(z**4) - 3) < 0.3, f"kurtosis {np.mean(z**4)}")
    w = z.reshape(200, 200)
    ctx.check(abs(np.mean(w[1:] * w[:-1])) < 0.04, "rows correlated")
    ctx.check(abs(np.mean(w[:, 1:] * w[:, :-1])) < 0.04, "columns correlated")
    ctx.obs("noise samples", n)
    lam = float(rng.uniform(0.5, 30)) * pick(rng, 1, -1)
    p = add_noise(np.full(n, lam), noise_type="poisson", rng=int(rng.integers(10**6))) - lam
    pr = np.rint(p)
    ctx.check(np.all(np.abs(p - pr) < 1e-9) and np.all(pr >= 0), "poisson counts")
    a = abs(lam)
    ctx.check(abs(p.mean() - a) < 6.5 * np.sqrt(a / n), f"poisson mean {p.mean()} for {a}")
    se = np.sqrt((a + 2 * a * a) / n)
    ctx.check(abs(p.var() - a) < 7 * se, f"poisson variance {p.var()} for {a}")
    ctx.obs("noise samples", n)
    ctx.seen("moments", s, lam)


def poisson(ctx, rng, i):
    shape = dims(rng, 1, 6, int(rng.integers(1, 4)))
    x = array(rng, shape, dtype=pick(rng, float, int), kind=pick(rng, 0, 1, 2, 5),
              scale=pick(rng, 4.0, 4.0, 4.0, 0.05, 1e4))
    x0 = np.array(x)
    seed = pick(rng, 0, 1, int(rng.integers(10**6)), int(rng.integers(10**6)))
    ctx.info(data=x0, seed=seed)
    got = add_noise(x, noise_type="poisson", rng=seed)
    d = got - x0
    ctx.check(np.allclose(d, np.rint(d), rtol=0, atol=1e-9) and np.all(d > -1e-9),
              "the noise is a count")
    ctx.check(np.all(np.abs(d[x0 == 0]) == 0), "no signal, no noise")
    ctx.check(np.array_equal(got, add_noise(x0, noise_type="poisson", rng=seed)), "seed")
    g = np.random.default_rng(seed)
    h = np.random.default_rng(seed)
    ctx.check(np.array_equal(add_noise(x0, noise_type="poisson", rng=g),
                             add_noise(x0, noise_type="poisson", rng=h)), "generator")
    ctx.close(add_noise(-x0, noise_type="poisson", rng=seed) + x0, d,
              "the noise depends on magnitudes", rtol=0, atol=1e-6)
    ctx.check(np.array_equal(x, x0), "input modified")
    if np.any(d):
        ctx.seen("poisson", sig(x0), seed)


SECTIONS = [
    Section("gauss", gauss, 400, 5000),
    Section("moments", moments, 40, 400),
    Section("poisson", poisson, 400, 5000),
]
