"""C27: log files, warnings and error reports, and checks of files and programs."""

import logging
import os
import shutil
import tempfile
import warnings

import numpy as np
from core import Section
from gens import pick
from modopt.interface import errors as er
from modopt.interface import log as lg
from modopt.plot.cost_plot import plotCost
from util import quiet

RULE = (
    "A case is a random history of opening, writing and closing log files (several at "
    "once, reopened under the same name), or of warnings and errors with and without a "
    "log, in a scratch directory; the contents of the files, the standard streams, the "
    "handlers and open descriptors are compared to a model.  Non-trivial: at least one "
    "message logged."
)


class Scratch:
    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="verif-log-")
        self.cwd = os.getcwd()
        os.chdir(self.root)
        return self.root

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        logging.captureWarnings(False)
        shutil.rmtree(self.root)


def fds(root):
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            path = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if path.startswith(root):
            res.append(os.path.basename(path))
    return sorted(res)


def read(path):
    with open(path) as fh:
        return fh.read().splitlines()


UNIQUE = [0]


def history(ctx, rng, i):
    with Scratch() as root:
        UNIQUE[0] += 1
        ends = [pick(rng, "", "", ".log", ".v2", " a", "%s", "{}", ".log.log", "é")
                for _ in range(3)]
        names = [os.path.join(root, f"log{UNIQUE[0]}_{k}{e}") for k, e in enumerate(ends)]
        openl, lines = {}, {}
        trace, n_msg = [], 0
        for step in range(int(rng.integers(4, 20))):
            k = int(rng.integers(3))
            nm = names[k]
            what = pick(rng, "open", "write", "write", "close", "reuse")
            verbose = pick(rng, True, False, None)
            kw = {} if verbose is None else {"verbose": verbose}
            if what == "open" and k not in openl:
                with quiet() as (out, _):
                    openl[k] = lg.set_up_log(nm, **kw)
                ctx.check((f"{nm}.log" in out.getvalue()) == (verbose is not False),
                          f"announcement: {out.getvalue()!r}")
                lines[k] = ["The log file has been set-up."]
            elif what == "write" and k in openl:
                msg = f"message {step} {rng.integers(10**6)}"
                lev = pick(rng, "info", "debug", "warning", "error")
                with quiet():
                    getattr(openl[k], lev)(msg)
                lines[k].append(msg)
                n_msg += 1
            elif what == "close" and k in openl:
                log = openl.pop(k)
                with quiet() as (out, _):
                    lg.close_log(log, **kw)
                ctx.check((f"{nm}.log" in out.getvalue()) == (verbose is not False),
                          f"announcement: {out.getvalue()!r}")
                lines[k].append("The log file has been closed.")
                ctx.check(not log.handlers, "handlers left after closing")
                with quiet():
                    log.error("after closing")
            else:
                continue
            trace.append((what, k))
            ctx.info(history=trace)
            for j, want in lines.items():
                got = read(names[j] + ".log")
                ctx.check(len(got) == len(want), f"log {j}: {len(got)} lines, "
                          f"{len(want)} expected", got=got, want=want)
                for a, b in zip(got, want):
                    ctx.check(a.endswith(" " + b) or a == b, f"line {a!r}, not {b!r}")
            want_open = sorted(os.path.basename(names[j]) + ".log" for j in openl)
            ctx.check(fds(root) == want_open, f"open files {fds(root)}, not {want_open}")
        for log in openl.values():
            with quiet():
                lg.close_log(log)
        ctx.check(fds(root) == [], f"files left open: {fds(root)}")
        if n_msg:
            ctx.seen(tuple(trace))
        ctx.obs("messages", n_msg)
        ctx.sample(history=trace[:10])


def handlers(ctx, rng, i):
    """Closing a log leaves no handler and no file, however it came to have them."""
    with Scratch() as root:
        UNIQUE[0] += 1
        nm = os.path.join(root, f"many{UNIQUE[0]}")
        n_set = int(rng.integers(1, 4))
        n_add = int(rng.integers(0, 4))
        levels = [logging.NOTSET, logging.WARNING, logging.ERROR]
        logging.getLogger(nm + ".log").setLevel(pick(rng, *levels))  # left by others
        with quiet():
            logs = [lg.set_up_log(nm, verbose=False) for _ in range(n_set)]
            ctx.check(all(one is logs[0] for one in logs), "another log of one name")
            extra = []
            for j in range(n_add):
                extra.append(logging.FileHandler(os.path.join(root, f"x{j}")))
                logs[0].addHandler(extra[-1])
            msg = f"message {rng.integers(10**6)}"
            logs[0].info(msg)
            lg.close_log(logs[0], verbose=bool(rng.integers(2)))
            logs[0].error("after closing")
        ctx.check(not logs[0].handlers, f"handlers left: {logs[0].handlers}",
                  set_up=n_set, added=n_add)
        ctx.check(fds(root) == [], f"files left open: {fds(root)}")
        for j in range(n_add):
            got = read(os.path.join(root, f"x{j}"))
            ctx.check(got == [msg, "The log file has been closed."],
                      f"lines of a handler of the user: {got}")
        body = read(nm + ".log")
        ctx.check(any(msg in line for line in body), "message lost", body=body)
        ctx.check(not any("after closing" in line for line in body), "written late")
        ctx.seen(n_set, n_add, UNIQUE[0])


def reports(ctx, rng, i):
    with Scratch() as root:
        UNIQUE[0] += 1
        text = f"note {rng.integers(10**6)}"
        with quiet() as (out, err):
            er.warn(text)
        ctx.check(out.getvalue() == "", "warning on stdout")
        ctx.check(text in err.getvalue() and "WARNING" in err.getvalue(),
                  f"warning: {err.getvalue()!r}")
        exc = pick(rng, ValueError, TypeError, OSError)(text)
        with quiet() as (out, err):
            er.catch_error(exc)
        ctx.check(out.getvalue() == "", "error on stdout")
        ctx.check(text in err.getvalue() and "ERROR" in err.getvalue(),
                  f"error: {err.getvalue()!r}")
        nm = os.path.join(root, f"rep{UNIQUE[0]}")
        with quiet() as (out, err):
            log = lg.set_up_log(nm, verbose=False)
            try:
                raise exc
            except Exception as e:  # noqa: BLE001
                er.catch_error(e, log)
            lg.close_log(log, verbose=False)
        ctx.check(text in err.getvalue() and "ERROR" in err.getvalue(), "error, logged")
        body = "\n".join(read(nm + ".log"))
        ctx.check(f"ERROR: {text}" in body and "Traceback" in body, "logged error",
                  body=body)
        logging.captureWarnings(False)
        with quiet() as (out, err), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            er.warn(text, log=log)
            er.warn(text + " unlogged")
        ctx.check([str(w.message) for w in ws] == [text],
                  f"python warnings {[str(w.message) for w in ws]}")
        ctx.check(err.getvalue().count("WARNING") == 2, "warnings shown")
    ctx.seen("reports", i, text)


def paths(ctx, rng, i):
    with Scratch() as root:
        name = f"f{rng.integers(1000)}"
        full = os.path.join(root, name)
        for p in (name, full):
            ctx.raises(OSError, lambda: er.file_name_error(p), "missing file")
        with open(full, "w") as fh:
            fh.write("x")
        for p in (name, full, "./" + name):
            er.file_name_error(p)
            ctx.obs("files accepted")
        for p in ("", "-o", "--x", root):
            ctx.raises(OSError, lambda: er.file_name_error(p), f"file name {p!r}")
        exe = os.path.join(root, "prog")
        with open(exe, "w") as fh:
            fh.write("#!/bin/sh\n")
        os.chmod(exe, 0o600)
        ctx.check(er.is_exe(exe) is False, "no permission")
        ctx.check(er.is_exe(root) is False, "a directory")
        ctx.check(er.is_exe(os.path.join(root, "nope")) is False, "no file")
        ctx.raises(OSError, lambda: er.is_executable(exe), "not executable")
        old = os.environ["PATH"]
        try:
            parts = ["/nonexistent/a", root, "/nonexistent/b"]
            rng.shuffle(parts)
            os.environ["PATH"] = os.pathsep.join(parts)
            ctx.raises(OSError, lambda: er.is_executable("prog"), "not executable")
            os.chmod(exe, 0o700)
            ctx.check(er.is_exe(exe) is True, "executable")
            er.is_executable("prog")
            er.is_executable(exe)
            er.is_executable("./prog")
            ctx.raises(OSError, lambda: er.is_executable("prog2"), "unknown program")
            ctx.raises(OSError, lambda: er.is_executable("/nonexistent/prog"), "path")
            for here in (".", "", "../" + os.path.basename(root)):  # relative entries
                parts = ["/nonexistent/a", here, "/nonexistent/b"]
                rng.shuffle(parts)
                os.environ["PATH"] = os.pathsep.join(parts)
                er.is_executable("prog")
                ctx.raises(OSError, lambda: er.is_executable("prog2"), "unknown program")
            os.environ["PATH"] = "/nonexistent/a"
            ctx.raises(OSError, lambda: er.is_executable("prog"), "not on PATH")
        finally:
            os.environ["PATH"] = old
        # a name with a directory is looked up there and nowhere else
        os.makedirs(os.path.join(root, "here", "sub"))
        os.makedirs(os.path.join(root, "sub"))
        one, two = os.path.join("sub", "one"), os.path.join("sub", "two")
        for p in (one, os.path.join("here", two)):
            with open(os.path.join(root, p), "w") as fh:
                fh.write("#!/bin/sh\n")
            os.chmod(os.path.join(root, p), 0o700)
        try:
            os.environ["PATH"] = os.path.join(root, "here")
            er.is_executable(one)
            er.is_executable(os.path.join(".", one))
            ctx.raises(OSError, lambda: er.is_executable(two), "other directory")
            ctx.raises(OSError, lambda: er.is_executable("one"), "name only")
        finally:
            os.environ["PATH"] = old
        for bad in (1, None, ["prog"], b"prog"):
            ctx.raises(TypeError, lambda: er.is_executable(bad), f"name {bad!r}")
    ctx.seen("paths", i, name)


def plots(ctx, rng, i):
    with Scratch() as root:
        out_name = pick(rng, None, "run", os.path.join(root, "deep"))
        data = np.abs(rng.standard_normal(int(rng.integers(1, 9)))) + 0.1
        keep = data.copy()
        with quiet() as (out, _):
            plotCost(data if rng.random() < 0.5 else data.tolist(),
                     *([] if out_name is None else [out_name]))
        want = "cost_function.png" if out_name is None else (
            os.path.basename(out_name) + "_cost_function.png")
        ctx.check(os.listdir(root) == [want], f"files {os.listdir(root)}")
        with open(want, "rb") as fh:
            ctx.check(fh.read(4) == b"\x89PNG", "a PNG file")
        ctx.check(want in out.getvalue(), "announcement")
        ctx.check(np.array_equal(data, keep), "costs modified")
        import matplotlib.pyplot as plt

        ctx.check(plt.get_fignums() == [], "figures left open")
    ctx.seen("plots", i)


SECTIONS = [
    Section("history", history, 200, 2500),
    Section("handlers", handlers, 40, 500),
    Section("reports", reports, 40, 500),
    Section("paths", paths, 30, 300),
    Section("plots", plots, 6, 30),
]
