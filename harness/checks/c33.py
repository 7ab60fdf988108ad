"""C33: every optional library may be missing; what needs none of them works."""

import json
import os
import subprocess
import sys

from core import ROOT, Section
from util import quiet

LEVEL = "fault_enumeration"
RULE = (
    "A case starts a fresh interpreter in which a chosen set of optional libraries "
    "cannot be imported, imports every module of the package, and exercises what "
    "depends on each library and what does not; the answers are judged against the "
    "documented behaviour.  Non-trivial: at least one library hidden."
)
LIBS = ("astropy", "skimage", "sklearn", "matplotlib", "termcolor", "torch", "tensorflow",
        "cupy", "ptwt", "pywt", "joblib", "pyfftw")
HEAVY = ("torch", "tensorflow", "cupy", "ptwt", "keras")

# What needs none of the libraries: the same numbers, whatever is missing.
DIGEST = r"""
def digest():
    import os, tempfile
    import numpy as np
    from modopt.base import np_adjust, transform, types
    from modopt.base.backend import change_backend, get_array_module, move_to_cpu
    from modopt.math import convolve, matrix, metrics, stats
    from modopt.opt import cost, gradient, linear, proximity, reweight
    from modopt.opt.algorithms import Condat, POGM, AdaGenericGradOpt
    from modopt.signal import filter as flt, noise, positivity, svd, wavelet
    rng = np.random.default_rng(5)
    a, b = rng.standard_normal((6, 5)), rng.standard_normal((6, 5))
    k = rng.standard_normal((2, 3, 3))
    ident = linear.Identity()
    w = np.full(a.shape, 0.4)
    res = {
        "thresh": noise.thresh(a, 0.3, "soft"),
        "noise": noise.add_noise(a, 0.5, rng=3),
        "svd": svd.svd_thresh(a, 0.5),
        "positive": positivity.positive(a),
        "ragged": positivity.positive([a[0, :2], a[1]], ragged=True)[1],
        "mad": stats.sigma_mad(a),
        "psnr": stats.psnr(a, b),
        "mse": stats.mse(a, b),
        "snr": metrics.snr(a, b),
        "nrmse": metrics.nrmse(a, b),
        "mexhat": flt.mex_hat(0.3, 2.0),
        "stack": convolve.convolve_stack(np.array([a, b]), k, rot_kernel=True),
        "bank": wavelet.filter_convolve(a, k),
        "bankT": wavelet.filter_convolve(wavelet.filter_convolve(a, k), k, filter_rot=True),
        "trim": wavelet.trim_filter(np.pad(k[0], 2)),
        "pad": np_adjust.pad2d(a, (1, 2)),
        "cube": transform.cube2matrix(k),
        "float": types.check_float([1, 2]),
        "gram": matrix.gram_schmidt(a[:3]),
        "power": matrix.PowerMethod(lambda v: v * 3.0, (4,), rng=1).spec_rad,
        "cpu": move_to_cpu(change_backend(a, "numpy")),
        "module": float(get_array_module(a) is np),
        "sparse": proximity.SparseThreshold(ident, w).op(a),
        "lowrank": proximity.LowRankMatrix(0.4).op(np.array([a, b])),
        "ridge": proximity.Ridge(ident, 0.3).op(a),
        "elastic": proximity.ElasticNet(ident, 0.3, 0.2).op(a),
        "group": proximity.GroupLASSO(0.3).op(a),
        "ksupport": proximity.KSupportNorm(0.3, 3).op(a.ravel()),
    }
    rw = reweight.cwbReweight(np.array(w))
    rw.reweight(a)
    res["reweight"] = rw.weights
    def grad():
        return gradient.GradBasic(np.array(b), lambda v: 0.9 * v, lambda v: 0.9 * v,
                                  verbose=False)
    g = grad()
    g.get_grad(a)
    res["grad"] = g.grad
    prox = proximity.SparseThreshold(ident, 0.1 * w)
    cst = cost.costObj([g, prox], verbose=False)
    cst.get_cost(a)
    res["cost"] = cst.cost
    alg = Condat(np.zeros(a.shape), np.zeros(a.shape), grad(), proximity.IdentityProx(), prox,
                 linear=ident, cost=None, rho=0.8, sigma=0.4, tau=0.4, auto_iterate=False,
                 progress=False)
    alg.iterate(max_iter=7)
    res["condat"] = alg.x_final
    z = np.zeros(a.shape)
    alg = POGM(z, z, z, z, grad(), prox, cost=None, auto_iterate=False, progress=False)
    alg.iterate(max_iter=7)
    res["pogm"] = alg.x_final
    return {key: np.asarray(val, dtype=float).tolist() for key, val in res.items()}
"""

CHILD = DIGEST + r"""
import sys, json, importlib, pkgutil, io, contextlib
hidden, broken, src = json.loads(sys.argv[1])
from importlib.machinery import PathFinder, ModuleSpec
class Broken:
    def create_module(self, spec): return None
    def exec_module(self, module):
        raise ImportError("lib" + module.__name__ + ".so: cannot open shared object file")
class Hide:
    def __init__(self, inner): self.inner = inner
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in broken: return ModuleSpec(name, Broken(), is_package=True)
        if name.split(".")[0] in hidden: return None
        return self.inner.find_spec(name, path, target)
    def __getattr__(self, a): return getattr(self.inner, a)
sys.meta_path[:] = [Hide(f) if f is PathFinder else f for f in sys.meta_path]
sys.path.insert(0, src)
res = {}
def attempt(name, fn):
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            val = fn()
        res[name] = ["ok", val, err.getvalue()]
    except BaseException as e:
        res[name] = ["raised", type(e).__name__, str(e)[:300]]
def imports():
    import modopt
    n = 0
    for m in pkgutil.walk_packages(modopt.__path__, "modopt."):
        importlib.import_module(m.name); n += 1
    return n
attempt("imports", imports)
import numpy as np
def kern():
    from modopt.math.stats import gaussian_kernel
    return gaussian_kernel((3, 3), 1.0).tolist()
attempt("gaussian_kernel", kern)
def conv(method):
    from modopt.math.convolve import convolve
    a = np.arange(9.).reshape(3, 3)
    return convolve(a, a + 10, method=method).tolist()
attempt("convolve-scipy", lambda: conv("scipy"))
attempt("convolve-astropy", lambda: conv("astropy"))
attempt("convolve-bad", lambda: conv("bad"))
def mr():
    from modopt.signal.wavelet import call_mr_transform
    return call_mr_transform(np.zeros((3, 3)))
attempt("mr_transform", mr)
def ssim():
    from modopt.math.metrics import ssim
    a = np.arange(100.).reshape(10, 10)
    return float(ssim(a, a))
attempt("ssim", ssim)
def snr():
    from modopt.math.metrics import mse
    a = np.arange(100.).reshape(10, 10)
    return float(mse(a, a[::-1]))
attempt("mse", snr)
def owl():
    from modopt.opt.proximity import OrderedWeightedL1Norm
    return OrderedWeightedL1Norm(np.array([1., .5, 0.])).op(np.array([3., 1., -2.])).tolist()
attempt("owl", owl)
def plot():
    import os, tempfile, shutil
    from modopt.plot.cost_plot import plotCost
    d = tempfile.mkdtemp(prefix="verif-plot-")
    try:
        plotCost([3., 2., 1.], os.path.join(d, "x"))
        return os.listdir(d)
    finally:
        shutil.rmtree(d)
attempt("plot", plot)
def warn():
    from modopt.interface.errors import warn
    warn("hello"); return 0
attempt("warn", warn)
def catch():
    from modopt.interface.errors import catch_error
    catch_error(ValueError("oops")); return 0
attempt("catch_error", catch)
def tensor():
    from modopt.base.backend import convert_to_tensor
    return convert_to_tensor(np.ones(2)).tolist()
attempt("tensor", tensor)
def tensor2():
    from modopt.base.backend import convert_to_cupy_array
    return convert_to_cupy_array(np.ones(2)).tolist()
attempt("untensor", tensor2)
def be(name):
    from modopt.base.backend import get_backend
    return get_backend(name)[1]
for b in ("numpy", "cupy", "tensorflow"):
    attempt("backend-" + b, lambda: be(b))
def wt(backend):
    from modopt.opt.linear import WaveletTransform
    op = WaveletTransform("haar", (4, 4), level=1, compute_backend=backend)
    x = np.arange(16.).reshape(4, 4)
    return float(np.abs(op.adj_op(op.op(x)) - x).max())
attempt("wavelet-numpy", lambda: wt("numpy"))
attempt("wavelet-cupy", lambda: wt("cupy"))
def cpu():
    from modopt.opt.linear.wavelet import CPUWaveletTransform
    CPUWaveletTransform("haar", (4, 4), level=1); return 0
attempt("cpu-wavelet", cpu)
def solve():
    from modopt.opt.algorithms import ForwardBackward
    from modopt.opt.gradient import GradBasic
    from modopt.opt.linear import Identity
    from modopt.opt.proximity import SparseThreshold
    y = np.array([3., -2., .1])
    s = ForwardBackward(np.zeros(3), GradBasic(y, lambda v: v, lambda v: v, verbose=False),
                        SparseThreshold(Identity(), .5), cost=None, auto_iterate=False,
                        progress=False)
    s.iterate(100)
    return s.x_final.tolist()
attempt("solve", solve)
attempt("digest", digest)
print("RESULT" + json.dumps(res))
"""


REF = {}


def reference():
    """The same numbers with every library present."""
    if not REF:
        scope = {}
        exec(DIGEST, scope)  # noqa: S102
        with quiet():
            REF.update(scope["digest"]())
    return REF


def subset(ctx, rng, i):
    if i == 0:
        gone = set()
    elif i <= len(LIBS):
        gone = {LIBS[i - 1]}
    elif i == len(LIBS) + 1:
        gone = set(LIBS)
    else:
        gone = {lib for lib in LIBS if rng.random() < 0.5}
    if i == len(LIBS) + 1 or (i > len(LIBS) + 1 and rng.random() < 0.1):
        gone = {*LIBS, "packaging"}  # a helper that some of the others need
    # The heavy ones are only present when that is the point of the case.
    heavy = ctx.thorough and rng.random() < 0.3
    hidden = sorted(gone | (set() if heavy else set(HEAVY)))
    # Some are not missing but installed and unusable.
    broken = [lib for lib in hidden if lib != "keras" and rng.random() < 0.4]
    ctx.info(hidden=hidden, broken=broken)
    src = sys.path[[os.path.isdir(os.path.join(p, "modopt")) for p in sys.path].index(True)]
    env = dict(os.environ, PYTHONPATH="")
    proc = subprocess.run(
        [sys.executable, "-B", "-W", "ignore", "-c", CHILD, json.dumps([hidden, broken, src])],
        capture_output=True, text=True, env=env, timeout=140, cwd=ROOT)
    lines = [ln for ln in proc.stdout.splitlines() if ln.startswith("RESULT")]
    ctx.check(len(lines) == 1, "the interpreter died", stderr=proc.stderr[-800:])
    res = json.loads(lines[0][6:])

    def ok(name, want=None, tol=1e-9):
        kind, val, _ = res[name]
        ctx.check(kind == "ok", f"{name} without {hidden}: {res[name]}")
        if want is not None:
            if isinstance(want, (list, float)):
                ctx.close(val, want, name, rtol=tol, atol=tol)
            else:
                ctx.check(val == want, f"{name}: {val}")

    def no(name, exc):
        kind, val, text = res[name]
        ctx.check(kind == "raised" and val == exc,
                  f"{name} without {hidden}: {res[name]}, {exc} expected")

    has = lambda lib: lib not in hidden  # noqa: E731
    ok("imports")
    ctx.check(res["imports"][1] > 20, f"modules imported: {res['imports'][1]}")
    e1, e2 = 0.6065306597126334, 0.36787944117144233
    if has("astropy"):
        ok("gaussian_kernel", [[e2, e1, e2], [e1, 1.0, e1], [e2, e1, e2]])
        no("mr_transform", "OSError")
    else:
        no("gaussian_kernel", "ImportError")
        no("mr_transform", "ImportError")
    scipy_res = [[86.0, 170, 146], [246, 444, 354], [290, 494, 374]]
    astro_res = [[534.0, 525, 534], [453, 444, 453], [534, 525, 534]]
    ok("convolve-scipy", scipy_res)
    ok("convolve-astropy", astro_res if has("astropy") else scipy_res)
    no("convolve-bad", "ValueError")
    if has("skimage"):
        ok("ssim", 1.0)
    else:
        no("ssim", "ImportError")
    ok("mse")
    if has("sklearn") and has("joblib"):  # sklearn needs joblib
        ok("owl", [2.0, 1.0, -1.5])
    else:
        no("owl", "ImportError")
    if has("matplotlib"):
        ok("plot")
        ctx.check(res["plot"][1] == ["x_cost_function.png"], f"plots {res['plot']}")
    else:
        no("plot", "ImportError")
    ok("warn")
    ok("catch_error")
    ctx.check("WARNING" in res["warn"][2] and "hello" in res["warn"][2], "warning text")
    ctx.check("ERROR" in res["catch_error"][2] and "oops" in res["catch_error"][2], "error")
    if not has("termcolor"):
        ctx.check(res["warn"][2] == "WARNING: hello\n", f"plain warning {res['warn'][2]!r}")
        ctx.check(res["catch_error"][2] == "ERROR: oops\n", "plain error")
    if has("torch"):
        ok("tensor", [1.0, 1.0])
    else:
        no("tensor", "ImportError")
        no("untensor", "ImportError")
    ok("backend-numpy", "numpy")
    ok("backend-cupy", "numpy")
    ctx.check("WARNING" in res["backend-cupy"][2], "warning for cupy")
    ok("backend-tensorflow")
    if set(hidden) <= {"cupy", "ptwt", "torch"}:  # tensorflow needs some of the others
        ok("backend-tensorflow", "tensorflow")
    if not has("tensorflow"):
        ok("backend-tensorflow", "numpy")
        ctx.check("WARNING" in res["backend-tensorflow"][2], "warning for tensorflow")
    if has("pywt") and has("joblib"):
        ok("wavelet-numpy", 0.0, 1e-9)
        ok("cpu-wavelet")
    else:
        no("wavelet-numpy", "ValueError")
        no("cpu-wavelet", "ImportError")
    no("wavelet-cupy", "ValueError")
    ok("solve", [2.5, -1.5, 0.0], 1e-3)
    ok("digest")
    want = reference()
    for key, val in res["digest"][1].items():
        ctx.close(val, want[key], f"{key} without {hidden}", rtol=1e-12)
    if gone:
        ctx.seen(tuple(hidden), tuple(broken))
    ctx.sample(modules=res["imports"][1])


SECTIONS = [Section("subset", subset, 18, 120)]
