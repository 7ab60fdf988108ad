"""C28: the external wavelet program: results, command line, files, faults."""

import os
import shutil
import stat
import tempfile
import threading

import numpy as np
from astropy.io import fits
from core import Section
from gens import array, pick, sig
from modopt.opt import linear as lin
from modopt.signal import wavelet as wv
from util import quiet

LEVEL = "fault_enumeration"
RULE = (
    "A case calls the wrapper with a stand-in executable on PATH (a scratch directory) "
    "that logs its command line and input image and then behaves in a chosen way: a "
    "known transform, or one of the enumerated faults (error text, no output, corrupt "
    "output, killed, not executable, unknown).  Results, errors, the log and the files "
    "left behind are judged.  Non-trivial: the stand-in was started, or refused."
)
ASSUMPTIONS = ["the sparse2d program itself is replaced by a stand-in"]
FAULTS = ("bad", "Error", "Sorry", "nothing", "corrupt", "empty", "killed", "noexec",
          "missing", "format")

SCRIPT = r"""#!/usr/bin/python3 -SE
import sys, os, struct
here = os.path.dirname(os.path.abspath(sys.argv[0]))
mode = open(os.path.join(here, "mode")).read()
args = sys.argv[1:]
src, dst = args[-2], args[-1]
raw = open(src, "rb").read()
with open(os.path.join(here, "log"), "a") as fh:
    fh.write(repr(args) + "\n")
hdr, pos = {}, 0
while True:
    card = raw[pos:pos + 80].decode(); pos += 80
    if card.startswith("END"):
        break
    if "=" in card:
        hdr[card[:8].strip()] = card[10:].split("/")[0].strip()
pos = -(-pos // 2880) * 2880
bp = int(hdr["BITPIX"]); nx = int(hdr["NAXIS1"]); ny = int(hdr["NAXIS2"])
fmt = {-64: "d", -32: "f", 16: "h", 32: "i", 64: "q"}[bp]
vals = struct.unpack(">%d%s" % (nx * ny, fmt), raw[pos:pos + nx * ny * abs(bp) // 8])
img = [list(vals[r * nx:(r + 1) * nx]) for r in range(ny)]
word = mode.split("-")[0]
if word in ("bad", "Error", "Sorry"):
    if "late" in mode:  # after other output
        print("Transform = 2\n\n" + "scale done\n" * 40)
    print("something " + word + " happened")
    if "more" in mode:
        print("\nleaving\n" * 30)
    if "wrote" not in mode:  # otherwise an image is written all the same
        sys.exit(1 if "zero" not in mode else 0)
if mode in ("stderr", "silent-stderr"):
    sys.stderr.write("bad Error Sorry\n")
if mode == "nothing":
    sys.exit(0)
if mode == "empty":
    open(dst, "wb").close(); sys.exit(0)
if mode == "corrupt":
    open(dst, "wb").write(b"garbage" * 100); sys.exit(0)
if mode == "killed":
    open(dst, "wb").write(b"SIMPLE  =  T"); os.kill(os.getpid(), 9)
n = 3
for a in args[:-2]:
    if a.startswith("-n"):
        n = int(a[2:])
out = []
for k in range(n):
    for y in range(ny):
        for x in range(nx):
            s = 0.0
            for j in range(max(0, y - k), min(ny, y + k + 1)):
                for i in range(max(0, x - k), min(nx, x + k + 1)):
                    s += img[j][i]
            out.append(s * (k + 1))
def card(key, val):
    return ("%-8s= %20s" % (key, val)).ljust(80)
h = "".join([card("SIMPLE", "T"), card("BITPIX", -64), card("NAXIS", 3),
             card("NAXIS1", nx), card("NAXIS2", ny), card("NAXIS3", n), "END".ljust(80)])
h = h.ljust(-(-len(h) // 2880) * 2880).encode()
body = struct.pack(">%dd" % len(out), *out)
open(dst, "wb").write(h + body.ljust(-(-len(body) // 2880) * 2880, b"\0"))
if mode == "chatty":
    print("x" * 300000); sys.stderr.write("y" * 300000)
if not mode.startswith("silent"):
    print("done")
"""


def transform(img, n):
    """What the stand-in computes."""
    img = np.asarray(img, dtype=float)
    ny, nx = img.shape
    out = np.zeros((n, ny, nx))
    for k in range(n):
        for y in range(ny):
            for x in range(nx):
                out[k, y, x] = (k + 1) * img[max(0, y - k):y + k + 1,
                                             max(0, x - k):x + k + 1].sum()
    return out


class Place:
    """Scratch: the stand-in's directory on PATH, and a working directory."""

    def __init__(self, mode):
        self.root = tempfile.mkdtemp(prefix="verif-mr-")
        self.bin = os.path.join(self.root, "bin")
        self.work = os.path.join(self.root, "work")
        os.mkdir(self.bin)
        os.mkdir(self.work)
        exe = os.path.join(self.bin, "mr_transform")
        if mode != "missing":
            with open(exe, "w") as fh:
                fh.write("\x7fnot a program\n" if mode == "format" else SCRIPT)
            os.chmod(exe, stat.S_IRUSR | (0 if mode == "noexec" else stat.S_IXUSR))
        with open(os.path.join(self.bin, "mode"), "w") as fh:
            fh.write(mode)
        self.old, self.cwd = os.environ["PATH"], os.getcwd()
        os.environ["PATH"] = os.pathsep.join(["/nonexistent", self.bin])
        os.chdir(self.work)

    def log(self):
        path = os.path.join(self.bin, "log")
        if not os.path.exists(path):
            return []
        with open(path) as fh:
            return [eval(line) for line in fh]  # noqa: S307 - written by the stand-in

    def files(self):
        return sorted(os.listdir(self.work))

    def close(self):
        os.environ["PATH"] = self.old
        os.chdir(self.cwd)
        shutil.rmtree(self.root)


def place(mode):
    class Ctx:
        def __enter__(self):
            self.p = Place(mode)
            return self.p

        def __exit__(self, *exc):
            self.p.close()

    return Ctx()


def options(rng):
    n = int(rng.integers(1, 5))
    opts = [f"-n{n}"]
    if rng.random() < 0.5:
        opts.insert(int(rng.integers(2)), pick(rng, "-t2", "-v", "-x7"))
    if rng.random() < 0.3:  # the same word twice
        opts = [*opts, "-t", "2", "-q", "2"]
    form = pick(rng, "str", "list", "default")
    if form == "list" and rng.random() < 0.3:
        opts.insert(0, pick(rng, "a'b", "-w*", "$HOME", '"q"'))
    if form == "default":
        return {}, 3, []
    return {"opt": " ".join(opts) if form == "str" else list(opts)}, n, opts


def image(rng):
    shape = tuple(int(v) for v in rng.integers(1, 9, 2))
    return array(rng, shape, dtype=pick(rng, float, float, np.float32, np.int32, np.int16),
                 scale=1.0, kind=pick(rng, 0, 1, 2, 3))


def success(ctx, rng, i):
    x = image(rng)
    x0 = np.array(x)
    kw, n, opts = options(rng)
    keep = bool(rng.random() < 0.4)
    if keep or rng.random() < 0.3:
        kw["remove_files"] = not keep
    mode = pick(rng, "ok", "ok", "stderr", "silent", "silent-stderr", "chatty")
    with place(mode) as p:
        where = p.work
        if rng.random() < 0.4:
            sub = os.path.join(p.work, pick(rng, "sub", "sub", "a b", "it's", "x;y $z"))
            os.mkdir(sub)
            kw["path"] = sub + "/"
            where = sub
        ctx.info(image=x0, kw=kw, mode=mode)
        runs = int(rng.integers(1, 3))
        for _ in range(runs):
            got = wv.call_mr_transform(x, **kw)
            want = transform(x0, n)
            ctx.check(got.dtype == x0.dtype, f"type {got.dtype}, not {x0.dtype}")
            tol = 1e-5 if x0.dtype == np.float32 else 1e-12
            ctx.close(got, want.astype(x0.dtype), "transform", rtol=tol)
        log = p.log()
        left = sorted(os.listdir(where))
        others = [f for f in p.files() if f != os.path.basename(where)] if where != p.work else []
        ctx.check(not others, f"files elsewhere: {others}")
        ctx.check(len(log) == runs, f"{len(log)} starts for {runs} calls")
        names = [a for args in log for a in args[-2:]]
        ctx.check(len(set(names)) == 2 * runs, "file names are unique")
        for args in log:
            ctx.check(args[:-2] == opts, f"options {args[:-2]}, not {opts}")
        if keep:
            want_left = sorted(os.path.basename(nm) for nm in names)
            ctx.check(left == want_left, f"files {left}, not {want_left}")
            for args in log:
                data = fits.getdata(args[-2])
                ctx.check(np.array_equal(data, x0), "image given to the program")
        else:
            ctx.check(left == [], f"files left: {left}")
    ctx.check(np.array_equal(x, x0), "input modified")
    ctx.seen("ok", mode, keep, sig(x0))
    ctx.obs("program starts", runs)
    ctx.sample(options=opts, kept=keep)


def faults(ctx, rng, i):
    fault = FAULTS[i % len(FAULTS)]
    if fault in ("bad", "Error", "Sorry"):
        fault += pick(rng, "", "-late", "-more", "-late-more", "-zero", "-wrote",
                      "-late-wrote")
    x = np.array(image(rng))
    x0 = x.copy()
    kw, n, opts = options(rng)
    kw["remove_files"] = bool(i // len(FAULTS) % 2)
    with place(fault) as p:
        ctx.info(fault=fault, kw=kw)
        exc = {"bad": RuntimeError, "Error": RuntimeError, "Sorry": RuntimeError,
               "noexec": OSError, "missing": OSError}.get(fault.split("-")[0], Exception)
        if fault == "noexec" and os.access(os.path.join(p.bin, "mr_transform"), os.X_OK):
            ctx.obs("no such fault for this user")
            return
        ctx.raises(exc, lambda: wv.call_mr_transform(x, **kw), f"fault {fault}")
        left = p.files()
        ctx.check(left == [], f"fault {fault}: files left: {left}")
        starts = len(p.log())
        ctx.check(starts == (0 if fault in ("noexec", "missing", "format") else 1),
                  f"{starts} starts")
        # afterwards a healthy program is used as usual
        with open(os.path.join(p.bin, "mode"), "w") as fh:
            fh.write("ok")
        exe = os.path.join(p.bin, "mr_transform")
        if os.path.exists(exe):
            os.chmod(exe, 0o700)
        with open(exe, "w") as fh:
            fh.write(SCRIPT)
        os.chmod(exe, 0o700)
        got = wv.call_mr_transform(x, **{**kw, "remove_files": True})
        ctx.close(got, transform(x0, n).astype(x0.dtype), "after the fault", rtol=1e-5)
        ctx.check(p.files() == [], f"files left: {p.files()}")
    ctx.check(np.array_equal(x, x0), "input modified")
    ctx.obs("faults injected")
    ctx.seen("fault", fault, kw["remove_files"], bool(opts))


def refusals(ctx, rng, i):
    with place("ok") as p:
        for bad in ([[1.0]], np.ones(3), np.ones((2, 2, 2)), 1.0, None):
            ctx.raises(ValueError, lambda: wv.call_mr_transform(bad), "2D array only")
        ctx.check(p.log() == [] and p.files() == [], "refused, but started")
        for bad in (["ls"], 3, None, ("a",)):
            ctx.raises(TypeError, lambda: wv.execute(bad), "command line is a string")
        out, err = wv.execute(f"{p.bin}/mr_transform a b")
        ctx.check(isinstance(out, str) and "rror" in err, f"execute: {out!r}, {err!r}")
        tok = "x%d" % rng.integers(1000)
        out, err = wv.execute(f"/bin/echo -n a   {tok}")
        ctx.check(out == f"a {tok}" and err == "", f"execute: {out!r}, {err!r}")
        word = pick(rng, "héllo", "σ = 1", "日本", "plain", "tab\tand\r\n")
        out, err = wv.execute(f"/bin/echo -n '{word}'")
        ctx.check(out == word and err == "", f"execute: {out!r}, {err!r}", word=word)
    ctx.seen("refusals", i)


def trimmed(f):
    ys, xs = np.nonzero(f)
    return f[ys.min():ys.max() + 1, xs.min():xs.max() + 1]


def filters(ctx, rng, i):
    shape = tuple(int(v) for v in rng.integers(2, 12, 2))
    form = pick(rng, tuple, list, np.array)(shape)
    given = np.array(shape)
    n = int(rng.integers(2, 5))
    kw = {"opt": pick(rng, f"-n{n}", [f"-n{n}"])}
    coarse, trim = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    if coarse:
        kw["coarse"] = True
    if trim:
        kw["trim"] = True
    odd = tuple(s if s % 2 else s - 1 for s in shape)
    delta = np.zeros(odd)
    delta[odd[0] // 2, odd[1] // 2] = 1
    want = transform(delta, n)
    if not coarse:
        want = want[:-1]
    ctx.info(shape=shape, kw=kw)
    with place("ok") as p:
        got = wv.get_mr_filters(form, **kw)
        ctx.check(p.files() == [], f"files left: {p.files()}")
        ctx.check(len(got) == len(want), f"{len(got)} filters, not {len(want)}")
        for k, (g, w) in enumerate(zip(got, want)):
            w = trimmed(w) if trim else w
            ctx.close(g, w, f"filter {k}", rtol=1e-12)
        ctx.check(np.array_equal(np.array(form), given), "shape modified")
    f = np.zeros((int(rng.integers(3, 9)), int(rng.integers(3, 9))))
    pts = rng.random(f.shape) < 0.2
    pts[int(rng.integers(f.shape[0])), int(rng.integers(f.shape[1]))] = True
    # Entries of every size count, however small.
    f[pts] = rng.standard_normal(int(pts.sum())) * 10.0 ** rng.uniform(
        pick(rng, 0, -12, -300), 0, int(pts.sum()))
    f0 = f.copy()
    ctx.close(wv.trim_filter(f), trimmed(f0), "trim_filter", rtol=0)
    ctx.check(np.array_equal(f, f0), "filter modified")
    ctx.seen("filters", shape, n, coarse, trim)


def parallel(ctx, rng, i):
    """Calls from several threads at once do not meet each other's files."""
    k = 4
    xs = [rng.standard_normal((3, 4)) for _ in range(k)]
    res = [None] * k
    with place("ok") as p:
        def work(j):
            try:
                res[j] = wv.call_mr_transform(xs[j], opt="-n2")
            except Exception as err:  # noqa: BLE001
                res[j] = err

        ts = [threading.Thread(target=work, args=(j,)) for j in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        for j in range(k):
            ctx.check(isinstance(res[j], np.ndarray), f"thread {j}: {res[j]!r}")
            ctx.close(res[j], transform(xs[j], 2), f"thread {j}", rtol=1e-12)
        ctx.check(p.files() == [], f"files left: {p.files()}")
        ctx.check(len({a for args in p.log() for a in args[-2:]}) == 2 * k, "names")
    ctx.obs("parallel calls", k)
    ctx.seen("parallel", i)


def operator(ctx, rng, i):
    """A filter bank made from the program's filters (wavelet name and shape)."""
    shape = (int(rng.integers(5, 9)),) * 2
    n = int(rng.integers(2, 4))
    x = rng.standard_normal((2, *shape))
    with place("ok") as p, quiet():
        filt = wv.get_mr_filters(shape, opt=f"-n{n}", coarse=True, trim=False)
        op = lin.WaveletConvolve(filt)
        y = op.op(x)
        ctx.check(y.shape == (2, n, *shape), f"shape {y.shape}")
        ctx.check(p.files() == [], "files left")
    ctx.seen("operator", shape, n)


SECTIONS = [
    Section("success", success, 60, 1500),
    Section("faults", faults, 40, 800),
    Section("refusals", refusals, 3, 20),
    Section("filters", filters, 40, 800),
    Section("parallel", parallel, 6, 150),
    Section("operator", operator, 5, 50),
]
