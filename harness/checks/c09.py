"""C09: forward-backward / primal-dual iterates follow the cited algorithms."""

import numpy as np
import refs
from core import Section
from gens import pick, shape_nd, span
from modopt.opt import algorithms as alg
from modopt.opt import linear as lin
from modopt.opt import proximity as px
from modopt.opt.algorithms.forward_backward import FISTA
from modopt.opt.cost import costObj
from optkit import Problem, Recorder, any_scale, regulariser, scaled_regulariser
from util import mute

RULE = (
    "A case is one solver run (forward-backward with every FISTA variant and user "
    "updates, generalised forward-backward, POGM, Condat) on a random problem; the "
    "variables shown to a metric after every iteration are compared, iteration by "
    "iteration, to the published recursion.  A run is compared up to the first "
    "iteration at which a restart test is too close to call.  Non-trivial: at least "
    "3 iterations were compared and the iterate moved."
)
ASSUMPTIONS = [
    "recursions: Bauschke 10.5/10.7, Liang 2018 alg. 4-5 (restart), Chambolle-Dossal, "
    "Raguet alg. 1, Kim 2017 alg. 3, Condat eq. 9",
    "the first FISTA relaxation factor is lambda_param",
]
TOL = 1e-7


class Tie(Exception):
    """A branch of the recursion is too close to call."""


def positive_dot(a, b, size):
    """Whether <a, b> > 0; a and b carry rounding errors relative to size."""
    na, nb = refs.norm2(a), refs.norm2(b)
    val = float(np.real(np.vdot(a, b)))
    if abs(val) <= 1e-9 * na * nb + 1e-10 * size * (na + nb):
        raise Tie
    return val > 0


def fb_model(prob, reg, x0, beta, lam, beta_up, lam_up, fista, n):
    """Yield (x_new, z_new)."""
    x, z = x0.copy(), x0.copy()
    t_now, cd_n = 1.0, 0
    f = dict(fista or {})
    r_lazy = f.get("r_lazy", 4)
    delta0, safeguard = None, False
    strat = f.get("restart_strategy")
    for _ in range(n):
        x_new = reg.prox(z - beta * prob.ref_grad(z), beta)
        z_new = x + lam * (x_new - x)
        if fista is not None and strat is not None:
            d1, d2 = z - x_new, x_new - x
            size = refs.norm2(x) + refs.norm2(z) + refs.norm2(x_new)
            restart = positive_dot(d1, d2, size)
            if restart:
                z_new = x_new
                if "adaptive" in strat:
                    r_lazy *= f["xi_restart"]
                if strat in ("adaptive-ii", "adaptive-2"):
                    t_now = 1.0
            if strat == "greedy":
                delta = refs.norm2(d2)
                if delta0 is None:
                    delta0 = f["s_greedy"] * delta
                else:
                    if abs(delta - delta0) <= 1e-9 * delta0 + 1e-10 * size:
                        raise Tie
                    safeguard = delta > delta0
        x, z = x_new, z_new
        if fista is None:
            beta = beta_up(beta) if beta_up else beta
            lam = lam_up(lam) if lam_up else lam
        else:
            if safeguard:
                beta = max(beta * f["xi_restart"], f["min_beta"])
            if strat == "greedy":
                lam = 2.0
            else:
                t_prev = t_now
                if "a_cd" in f:
                    t_now = (cd_n + f["a_cd"] - 1) / f["a_cd"]
                    cd_n += 1
                else:
                    t_now = f.get("p_lazy", 1) + 0.5 * np.sqrt(
                        r_lazy * t_prev**2 + f.get("q_lazy", 1)
                    )
                lam = 1 + (t_prev - 1) / t_now
        yield {"x_new": x, "z_new": z}


def compare(ctx, rec, model, what, scale):
    done = 0
    try:
        for k, want in enumerate(model):
            if k >= len(rec.rows):
                ctx.fail(f"{what}: the metric saw only {len(rec.rows)} iterations")
            for name, val in want.items():
                ref = max(scale, float(np.max(np.abs(val))))
                ctx.close(rec.rows[k][name], val, f"{what}: {name} after iteration {k}",
                          rtol=TOL, scale=ref)
            ctx.check(int(rec.rows[k]["idx"]) == k, f"{what}: idx of iteration {k}")
            done += 1
    except Tie:
        ctx.obs("runs cut at a tie")
    ctx.obs("iterations compared", done)
    return done


def fista_options(rng, lip):
    kind = pick(rng, "plain", "plain", "lazy", "cd", "ada", "ada2", "greedy", "greedy")
    if kind == "plain":
        return {}
    if kind == "lazy":
        p = float(rng.uniform(0.05, 1))
        return {"p_lazy": p, "q_lazy": float(rng.uniform(0.05, (2 - p) ** 2)),
                "r_lazy": float(pick(rng, 4, 3.9, 2.0))}
    if kind == "cd":
        return {"a_cd": float(rng.uniform(2.1, 60))}
    if kind == "greedy":
        return {"restart_strategy": "greedy", "xi_restart": float(rng.uniform(0.5, 0.99)),
                "s_greedy": float(rng.uniform(1.01, 2)),
                "min_beta": float(rng.uniform(0.6, 1.2)) / lip}
    name = {"ada": ("adaptive", "adaptive-i", "adaptive-1"),
            "ada2": ("adaptive-ii", "adaptive-2")}[kind]
    res = {"restart_strategy": pick(rng, *name),
           "xi_restart": float(rng.uniform(0.5, 0.99))}
    if rng.random() < 0.5:
        res["p_lazy"] = float(rng.uniform(0.2, 1))
    return res


def costs(rng, objs):
    """No cost, or one that never stops the run."""
    if rng.random() < 0.5:
        return None
    return costObj(objs, tolerance=-1.0, verbose=False)


def problem(rng):
    shape = shape_nd(rng, ndim=int(pick(rng, 1, 1, 2, 3)), lo=1, hi=7, top=200)
    cplx = rng.random() < 0.25
    lo = pick(rng, 0.05, 0.4)
    return Problem(rng, shape, cplx, lo=lo, hi=float(rng.uniform(0.7, 2)),
                   extra=int(rng.integers(0, 4)), scale=any_scale(rng))


def momentum(ctx, rng, i):
    """The acceleration alone, over long runs with many restarts."""
    opt = fista_options(rng, 1.0)
    strat = opt.get("restart_strategy")
    fista = FISTA(**opt)
    n, p_restart = int(rng.integers(100, 1500)), float(pick(rng, 0.01, 0.05, 0.3))
    beta, t_now, cd_n, r_lazy = 1.0, 1.0, 0, opt.get("r_lazy", 4)
    ref_beta, delta0, safe, restarts = 1.0, None, False, 0
    ctx.info(options=opt, n=n)
    for k in range(n):
        x_old, step = rng.standard_normal((2, 3))
        x_new = x_old + step * 10.0 ** rng.uniform(-0.5, 0.5)
        again = rng.random() < p_restart
        z_old = x_new + (1 if again else -1) * np.abs(rng.standard_normal()) * step
        got = bool(fista.is_restart(z_old, x_new, x_old))
        ctx.check(got == (strat is not None and again), f"restart at step {k}: {got}")
        if strat and again:
            restarts += 1
            if "adaptive" in strat:
                r_lazy *= opt["xi_restart"]
            if strat in ("adaptive-ii", "adaptive-2"):
                t_now = 1.0
        if strat == "greedy":
            delta = refs.norm2(x_new - x_old)
            if delta0 is None:
                delta0 = opt["s_greedy"] * delta
            else:
                safe = delta >= delta0
        beta = fista.update_beta(beta)
        if safe:
            ref_beta = max(ref_beta * opt["xi_restart"], opt["min_beta"])
        ctx.close(beta, ref_beta, f"step size after step {k}", rtol=1e-11)
        lam = fista.update_lambda(lam if k else 1.0)
        t_prev, want = t_now, 2.0
        if strat != "greedy":
            if "a_cd" in opt:
                t_now = (cd_n + opt["a_cd"] - 1) / opt["a_cd"]
                cd_n += 1
            else:
                t_now = opt.get("p_lazy", 1) + 0.5 * np.sqrt(
                    r_lazy * t_prev**2 + opt.get("q_lazy", 1))
            want = 1 + (t_prev - 1) / t_now
        ctx.close(lam, want, f"relaxation after step {k}", rtol=1e-9)
    ctx.obs("steps of the acceleration", n)
    ctx.obs("restarts", restarts)
    ctx.seen("momentum", sorted(opt.items(), key=str), n)


def forward_backward(ctx, rng, i):
    prob = problem(rng)
    reg = scaled_regulariser(rng, prob)
    n = span(rng, 1, 40, 250)
    beta = float(rng.uniform(0.2, 1.3)) / prob.lip
    lam = float(pick(rng, 1.0, 1.0, rng.uniform(0.4, 1.4)))
    x0 = prob.x0()
    rec = Recorder("x_new", "z_new", "idx")
    kw = {}
    fista = beta_up = lam_up = None
    if rng.random() < 0.7:
        fista = fista_options(rng, prob.lip)
        kw.update(fista)
        if rng.random() < 0.5:
            kw["lambda_update"] = "fista"
        if "greedy" in str(fista.get("restart_strategy")) and rng.random() < 0.7:
            beta = float(rng.uniform(1.3, 1.9)) / prob.lip
    else:
        c1, c2 = float(rng.uniform(0.9, 1)), float(rng.uniform(0.95, 1))
        beta_up = (lambda b: b * c1) if rng.random() < 0.5 else None
        lam_up = (lambda v: 1 + (v - 1) * c2) if rng.random() < 0.5 else None
        kw.update(beta_update=beta_up, lambda_update=lam_up)
    if rng.random() < 0.3:
        kw["step_size"], kw["beta_param"] = beta, 77.0
    else:
        kw["beta_param"] = beta
    grad = prob.grad()
    ctx.info(shape=prob.shape, reg=reg.name, n_iter=n, lambda_param=lam, **kw)
    solver = mute(
        alg.ForwardBackward, x0.copy(), grad, reg.obj, linear=lin.Identity(),
        cost=costs(rng, [grad, reg.obj]), lambda_param=lam, auto_iterate=False,
        metric_call_period=1, metrics=rec.metrics(), progress=False, **kw)
    mute(solver.iterate, max_iter=n)
    model = fb_model(prob, reg, x0, beta, lam, beta_up, lam_up, fista, n)
    done = compare(ctx, rec, model, "forward-backward", np.max(np.abs(x0)))
    ctx.check(len(rec.rows) == n, f"{len(rec.rows)} iterations instead of {n}")
    ctx.close(solver.x_final, rec.rows[-1]["z_new"], "x_final is the last iterate",
              rtol=1e-12)
    if done >= 3:
        ctx.seen("fb", i, prob.shape, reg.name, repr(sorted(map(str, kw.items()))))
    ctx.sample(iterations=done)


def gfb(ctx, rng, i):
    prob = problem(rng)
    n_reg = int(rng.integers(1, 4))
    regs = [scaled_regulariser(rng, prob) for _ in range(n_reg)]
    n = span(rng, 1, 30, 200)
    gamma = float(rng.uniform(0.2, 1.4)) / prob.lip
    lam = float(rng.uniform(0.4, 1.1))
    w = rng.uniform(0.3, 1, n_reg)
    w = w / w.sum()
    w[-1] = 1 - w[:-1].sum()
    kw = {}
    if rng.random() < 0.5:
        if rng.random() < 0.2:  # given to a few digits: used as they are
            w[-1] += rng.uniform(-8e-6, 8e-6)
        kw["weights"] = pick(rng, list, tuple, np.array)(w.tolist())
    else:
        w = np.full(n_reg, 1 / n_reg)
    g_up = (lambda g: g * 0.98) if rng.random() < 0.4 else None
    l_up = (lambda v: v * 0.97) if rng.random() < 0.4 else None
    if rng.random() < 0.3:
        kw["step_size"], kw["gamma_param"] = gamma, 33.0
    else:
        kw["gamma_param"] = gamma
    x0 = prob.x0()
    rec = Recorder("x_new", "z_new", "idx")
    grad = prob.grad()
    ctx.info(shape=prob.shape, regs=[r.name for r in regs], n_iter=n, lam=lam, **kw)
    solver = mute(
        alg.GenForwardBackward, x0.copy(), grad, [r.obj for r in regs],
        cost=costs(rng, [grad] + [r.obj for r in regs]), lambda_param=lam,
        gamma_update=g_up, lambda_update=l_up, auto_iterate=False,
        linear=lin.Identity(), metric_call_period=1, metrics=rec.metrics(),
        progress=False, **kw)
    mute(solver.iterate, max_iter=n)

    def model():
        x, g, lm = x0.copy(), gamma, lam
        z = [x0.copy() for _ in regs]
        for _ in range(n):
            d = prob.ref_grad(x)
            for j, r in enumerate(regs):
                z[j] = z[j] + lm * (r.prox(2 * x - z[j] - g * d, g / w[j]) - x)
            x = sum(wj * zj for wj, zj in zip(w, z))
            g = g_up(g) if g_up else g
            lm = l_up(lm) if l_up else lm
            yield {"x_new": x, "z_new": np.array(z)}

    done = compare(ctx, rec, model(), "generalised forward-backward",
                   np.max(np.abs(x0)))
    ctx.check(len(rec.rows) == n, f"{len(rec.rows)} iterations instead of {n}")
    ctx.close(solver.x_final, rec.rows[-1]["x_new"], "x_final", rtol=1e-12)
    if done >= 3:
        ctx.seen("gfb", i, prob.shape, n_reg, tuple(w))
    ctx.sample(iterations=done)


def pogm(ctx, rng, i):
    prob = problem(rng)
    reg = scaled_regulariser(rng, prob)
    n = span(rng, 1, 40, 250)
    beta = float(rng.uniform(0.3, 1.2)) / prob.lip
    sbar = float(pick(rng, 1.0, 0.96, rng.uniform(0, 1), 0.0))
    same = rng.random() < 0.5
    u0 = prob.x0()
    x0, y0, z0 = (u0.copy() if same else prob.x0() for _ in range(3))
    rec = Recorder("u_new", "x_new", "y_new", "z_new", "xi", "t", "sigma", "idx")
    kw = {"sigma_bar": sbar}
    if rng.random() < 0.3:
        kw["step_size"], kw["beta_param"] = beta, 33.0
    else:
        kw["beta_param"] = beta
    grad = prob.grad()
    ctx.info(shape=prob.shape, reg=reg.name, n_iter=n, same_start=same, **kw)
    solver = mute(
        alg.POGM, u0.copy(), x0.copy(), y0.copy(), z0.copy(), grad, reg.obj,
        cost=costs(rng, [grad, reg.obj]), linear=lin.Identity(), auto_iterate=False,
        metric_call_period=1, metrics=rec.metrics(), progress=False, **kw)
    mute(solver.iterate, max_iter=n)

    def model():
        u, x, y, z = u0.copy(), x0.copy(), y0.copy(), z0.copy()
        xi, sigma, t = 1.0, 1.0, 1.0
        g_old = prob.ref_grad(x)
        for _ in range(n):
            d = prob.ref_grad(x)
            u_new = x - beta * d
            t_new = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
            a, b = (t - 1) / t_new, sigma * t / t_new
            z = (u_new + a * (u_new - u) + b * (u_new - x) - a * beta / xi * (x - z))
            xi = beta * (1 + a + b)
            x_new = reg.prox(z, xi)
            g = d - (x_new - z) / xi
            y_new = x - beta * g
            dy = y_new - y
            size = (refs.norm2(x) + refs.norm2(z) + refs.norm2(d)) * (1 + 1 / xi)
            if positive_dot(g, dy, size * (1 + beta)):
                t_new, sigma = 1.0, 1.0
            elif not positive_dot(g, g_old, size):
                sigma = sigma * sbar
            u, x, y, g_old, t = u_new, x_new, y_new, g, t_new
            yield {"u_new": u, "x_new": x, "y_new": y, "z_new": z,
                   "xi": np.array(xi), "t": np.array(t), "sigma": np.array(sigma)}

    done = compare(ctx, rec, model(), "POGM", np.max(np.abs(x0)))
    ctx.check(len(rec.rows) == n, f"{len(rec.rows)} iterations instead of {n}")
    ctx.close(solver.x_final, rec.rows[-1]["x_new"], "x_final", rtol=1e-12)
    if done >= 3:
        ctx.seen("pogm", i, prob.shape, reg.name, sbar)
    ctx.sample(iterations=done)


def condat(ctx, rng, i):
    prob = problem(rng)
    cplx = prob.cplx
    p = int(rng.integers(1, 8))
    lmat = prob.rnd(p, prob.shape[0])
    use_lin = rng.random() < 0.75
    if use_lin:
        lop = lin.LinearParent(
            lambda v: np.tensordot(lmat, v, axes=1),
            lambda v: np.tensordot(lmat.conj().T, v, axes=1))
    else:
        lop, lmat = None, np.eye(prob.shape[0])
    yshape = (lmat.shape[0], *prob.shape[1:])
    nl = np.linalg.norm(lmat, 2)
    prim = pick(rng, "none", "l1", "l1w", "ridge", "elastic")
    if not cplx and rng.random() < 0.5:
        prim = pick(rng, "pos", "box")
    dual = ("l1", "l1w", "ridge", "elastic")
    if prob.scale != 1.0:
        dual, prim = ("ridge",), pick(rng, "none", "ridge", "ridge" if cplx else "pos")
    rp = regulariser(rng, prob.shape, cplx, kinds=(prim,))
    rd = regulariser(rng, yshape, cplx, kinds=dual)
    tau = float(rng.uniform(0.3, 1)) / (prob.lip / 2 + nl)
    sigma = float(rng.uniform(0.3, 1)) / nl
    rho = float(rng.uniform(0.3, 1.2))
    r_up, s_up, t_up = (
        (lambda v, c=float(rng.uniform(0.95, 1)): v * c) if rng.random() < 0.3 else None
        for _ in range(3))
    n = span(rng, 1, 30, 200)
    x0, y0 = prob.x0(), prob.rnd(*yshape) * prob.scale
    rec = Recorder("x_new", "y_new", "idx")
    kw = {"rho_update": r_up, "sigma_update": s_up, "tau_update": t_up}
    if rng.random() < 0.3:
        kw["step_size"], kw["tau"] = tau, 33.0
    else:
        kw["tau"] = tau
    if rng.random() < 0.3:
        rho = 0.5
    else:
        kw["rho"] = rho
    grad = prob.grad()
    ctx.info(shape=prob.shape, prox=rp.name, dual=rd.name, n_iter=n, sigma=sigma, **kw)
    prim_obj = rp.obj
    if prim == "none" and rng.random() < 0.5:
        prim_obj = px.IdentityProx()
    auto = rng.random() < 0.3
    solver = mute(
        alg.Condat, x0.copy(), y0.copy(), grad, prim_obj, rd.obj, linear=lop,
        cost=None if rng.random() < 0.7 else costObj([grad], tolerance=-1.0,
                                                      verbose=False),
        sigma=sigma, auto_iterate=auto, max_iter=n, metric_call_period=1,
        metrics=rec.metrics(), progress=False, **kw)
    if not auto:
        mute(solver.iterate, max_iter=n)

    def model():
        x, y, r, s, t = x0, y0, rho, sigma, tau
        lt = lmat.conj().T
        for _ in range(n):
            xp = rp.prox(x - t * prob.ref_grad(x) - t * np.tensordot(lt, y, axes=1), t)
            yt = y + s * np.tensordot(lmat, 2 * xp - x, axes=1)
            yp = yt - s * rd.prox(yt / s, 1 / s)
            x, y = r * xp + (1 - r) * x, r * yp + (1 - r) * y
            r = r_up(r) if r_up else r
            s = s_up(s) if s_up else s
            t = t_up(t) if t_up else t
            yield {"x_new": x, "y_new": y}

    done = compare(ctx, rec, model(), "Condat", np.max(np.abs(x0)))
    ctx.check(len(rec.rows) == n, f"{len(rec.rows)} iterations instead of {n}")
    ctx.close(solver.x_final, rec.rows[-1]["x_new"], "x_final", rtol=1e-12)
    ctx.close(solver.y_final, rec.rows[-1]["y_new"], "y_final", rtol=1e-12)
    if done >= 3:
        ctx.seen("condat", i, prob.shape, rp.name, rd.name)
    ctx.sample(iterations=done)


SECTIONS = [
    Section("forward-backward", forward_backward, 600, 8000),
    Section("momentum", momentum, 60, 900),
    Section("generalised", gfb, 300, 4000),
    Section("pogm", pogm, 400, 6000),
    Section("condat", condat, 350, 4000),
]
