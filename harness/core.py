"""Core of the runtime monitors: sections of cases, observations, verdicts.

A check is a module in ``harness/checks`` with a list ``SECTIONS`` of
``Section(name, fn, quick, thorough)``; ``fn(ctx, rng, i)`` runs one workload
case on the real code and lets its monitors judge what they saw through
``ctx.check`` / ``ctx.close``.  Every case is a function of (seed, section,
index) alone, so that a violation can be replayed on its own.
"""

import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from collections import namedtuple

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Section = namedtuple("Section", "name fn quick thorough")
CASE_TIMEOUT = 150
FACTOR = 6  # cases per unit of the sections' counts (8 processes share them)


class Violation(Exception):
    """The monitored execution broke the property."""


class Hang(Exception):
    """The monitored execution did not come back."""


class Inconclusive(Exception):
    """The harness itself could not observe anything."""


def short(obj, n=400):
    """Printable form of anything, cut to a sensible size."""
    if isinstance(obj, np.ndarray):
        text = f"array{obj.shape}{obj.dtype}:" + np.array2string(
            obj, threshold=24, precision=17
        )
    else:
        text = repr(obj)
    return text if len(text) <= n else text[:n] + "..."


class Ctx:
    """What a case can do: observe, judge, and report known findings."""

    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.section = None
        self.index = None
        self.evaluations = 0
        self.obs_count = {}
        self.distinct_keys = set()
        self.samples = []
        self.sample_kinds = {}
        self.findings = {}
        self.finding_count = {}
        self.case_info = {}
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- observing ---------------------------------------------------------
    def obs(self, kind, n=1):
        """Count ``n`` judged observations of a kind."""
        self.obs_count[kind] = self.obs_count.get(kind, 0) + n

    def seen(self, *key):
        """Record a distinct, non-trivial case (by its canonical key)."""
        raw = repr(key).encode()
        self.distinct_keys.add(hashlib.blake2b(raw, digest_size=8).digest())

    def info(self, **kwargs):
        """Describe the current case (kept for the replay file and samples)."""
        self.case_info.update({k: short(v) for k, v in kwargs.items()})

    def sample(self, **kwargs):
        """Keep a few concrete cases per section for the evidence."""
        n = self.sample_kinds.get(self.section, 0)
        if n < 2 and len(self.samples) < 24:
            self.sample_kinds[self.section] = n + 1
            self.samples.append(
                {
                    "case": f"{self.section}#{self.index}",
                    **{k: short(v, 160) for k, v in self.case_info.items()},
                    **{k: short(v, 160) for k, v in kwargs.items()},
                }
            )

    # -- judging -----------------------------------------------------------
    def fail(self, msg, **detail):
        self.info(**detail)
        raise Violation(msg)

    def check(self, cond, msg, kind="assertions", **detail):
        self.obs(kind)
        if not cond:
            self.fail(msg, **detail)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, scale=None, **detail):
        """Arrays agree within ``atol + rtol * scale`` (scale: max |want|)."""
        self.obs("value comparisons")
        got_a, want_a = np.asarray(got), np.asarray(want)
        if got_a.shape != want_a.shape:
            self.fail(
                f"{msg}: shape {got_a.shape}, expected {want_a.shape}",
                got=got_a,
                want=want_a,
                **detail,
            )
        if got_a.size == 0:
            return
        if got_a.dtype == object:
            got_a = got_a.astype(complex)
        if scale is None:
            scale = float(np.max(np.abs(want_a)))
        got_c, want_c = got_a.astype(complex), want_a.astype(complex)
        with np.errstate(all="ignore"):
            err = np.abs(got_c - want_c)
        same = (got_c == want_c) | (np.isnan(got_c) & np.isnan(want_c))
        bad = ~(same | (err <= atol + rtol * scale))
        if np.any(bad):
            idx = tuple(np.argwhere(bad)[0])
            self.fail(
                f"{msg}: {got_a[idx]!r} where {want_a[idx]!r} is expected "
                f"(at {tuple(int(k) for k in idx)})",
                got=got_a,
                want=want_a,
                **detail,
            )

    def raises(self, exc, fn, msg):
        """``fn`` must raise ``exc`` (exactly a subclass of it)."""
        self.obs("rejections")
        try:
            fn()
        except exc:
            return
        except Hang:
            raise
        except BaseException as err:  # noqa: BLE001
            if isinstance(err, (KeyboardInterrupt, SystemExit)):
                raise
            self.fail(f"{msg}: raised {type(err).__name__}({err}) instead")
        self.fail(f"{msg}: no exception was raised")

    def finding(self, key, text):
        """A violation that may be listed as a known finding."""
        if key in self.known:
            self.findings.setdefault(key, text)
            self.finding_count[key] = self.finding_count.get(key, 0) + 1
            self.obs("known findings met")
        else:
            self.fail(text)


def load_known(prop):
    """Known findings of a property: ``known: property=<id> key=<key> ...``."""
    res = {}
    path = os.path.join(ROOT, "known-findings.txt")
    with open(path) as fh:
        for line in fh:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def _alarm(*_):
    raise Hang(f"the code under test did not return within {CASE_TIMEOUT} s")


def case_rng(seed, section, index):
    return np.random.default_rng([seed, zlib.crc32(section.encode()), index])


def run_case(ctx, sec, index):
    """Run one case; return None or the text of a violation."""
    ctx.section, ctx.index, ctx.case_info = sec.name, index, {}
    ctx.evaluations += 1
    rng = case_rng(ctx.seed, sec.name, index)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with np.errstate(all="ignore"):
            sec.fn(ctx, rng, index)
    except Violation as err:
        return str(err)
    except Inconclusive:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as err:  # noqa: BLE001
        # The workloads are valid uses: an exception out of the code under
        # test is a violation of whatever is being decided.
        ctx.info(traceback=traceback.format_exc()[-1500:])
        return f"unexpected {type(err).__name__}: {err}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def write_replay(ctx, text):
    out = os.path.join(ROOT, "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{ctx.prop}-{ctx.section}-{ctx.index}-{ctx.seed}.json")
    path = path.replace(" ", "_")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": ctx.prop,
                "seed": ctx.seed,
                "tier": ctx.tier,
                "section": ctx.section,
                "index": ctx.index,
                "what": text,
                "case": ctx.case_info,
                "rerun": f"VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} bash "
                f"{ROOT}/check.sh {ctx.prop} --replay {path}",
            },
            fh,
            indent=1,
        )
    return path


def write_evidence(ctx, mod, wall, n_viol):
    path = os.path.join(ROOT, "evidence", f"{ctx.prop}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.distinct_keys),
            "rule": mod.RULE,
            "samples": ctx.samples,
            "observations": dict(sorted(ctx.obs_count.items())),
            "known_findings_met": dict(sorted(ctx.finding_count.items())),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": n_viol,
    }
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as fh:
        json.dump(data, fh, indent=1)
    os.replace(tmp, path)


def settings(argv):
    """Seed, tier and replayed case of this run."""
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as fh:
            replay = json.load(fh)
        seed, tier = replay["seed"], replay["tier"]
    return seed, tier, replay


def run_sections(ctx, mod, replay, shard, verbose):
    """Run this process's share of the cases; return the violations."""
    k, n_shards = shard
    start = time.monotonic()
    # A hard stop well inside the time a check is given.
    limit = 500 if ctx.tier == "quick" else 6 * 3600
    violations = []

    def report(text, where):
        violations.append((text, where))
        for key, val in ctx.case_info.items():
            print(f"      {key}: {val}")
        print(f"VIOLATION property={ctx.prop} replay={where}", flush=True)

    if hasattr(mod, "setup"):
        mod.setup(ctx)
    for sec in mod.SECTIONS:
        n_cases = sec.quick if ctx.tier == "quick" else sec.thorough
        if sec.quick >= 20:  # smaller ones enumerate or are expensive
            n_cases *= getattr(mod, "FACTOR", FACTOR)
        indices = range(k, n_cases, n_shards)
        if replay is not None:
            if sec.name != replay["section"]:
                continue
            indices = [replay["index"]]
        t_sec = time.monotonic()
        per_section = 0
        for i in indices:
            if time.monotonic() - start > limit:
                ctx.obs("sections cut short by the time limit")
                break
            text = run_case(ctx, sec, i)
            if text is not None:
                print(f"  {sec.name}#{i}: {text}")
                report(text, write_replay(ctx, text))
                per_section += 1
                if per_section >= 2:
                    break
        if verbose:
            print(f"  [{sec.name}] {time.monotonic() - t_sec:.1f} s", flush=True)
        if len(violations) >= 6:
            break
    if hasattr(mod, "finish") and replay is None and not violations:
        ctx.section, ctx.index, ctx.case_info = "finish", 0, {}
        try:
            mod.finish(ctx)
        except Violation as err:
            print(f"  finish: {err}")
            report(str(err), write_replay(ctx, str(err)))
    return violations


def run_check(prop, mod, argv):
    """One process: all the cases, one shard of them, or a replayed one."""
    seed, tier, replay = settings(argv)
    ctx = Ctx(prop, seed, tier)
    shard = (0, 1)
    if "--shard" in argv:
        at = argv.index("--shard")
        shard = (int(argv[at + 1]), int(argv[at + 2]))
    start = time.monotonic()
    violations = run_sections(ctx, mod, replay, shard, "-v" in argv)
    if "--shard" in argv:
        data = {
            "evaluations": ctx.evaluations,
            "obs": ctx.obs_count,
            "keys": [key.hex() for key in ctx.distinct_keys],
            "samples": ctx.samples,
            "findings": ctx.findings,
            "finding_count": ctx.finding_count,
            "violations": violations,
            "level": getattr(mod, "LEVEL", "exploration"),
            "rule": mod.RULE,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        }
        with open(argv[at + 3], "w") as fh:
            json.dump(data, fh)
        return 1 if violations else 0
    return conclude(ctx, mod, violations, time.monotonic() - start, replay)


class Merged:
    """What the shards said about their check module."""


def run_parallel(prop, argv, script, jobs):
    """Share the cases among ``jobs`` processes and merge what they saw."""
    seed, tier, _ = settings(argv)
    ctx = Ctx(prop, seed, tier)
    start = time.monotonic()
    mod = Merged()
    violations, dead = [], []
    with tempfile.TemporaryDirectory(prefix="verif-shards-") as tmp:
        procs = []
        for k in range(jobs):
            out = open(os.path.join(tmp, f"{k}.txt"), "w+")
            cmd = [sys.executable, "-B", "-W", "ignore", script, prop, "--shard",
                   str(k), str(jobs), os.path.join(tmp, f"{k}.json"), *argv]
            procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT), out))
        for k, (proc, out) in enumerate(procs):
            code = proc.wait()
            out.seek(0)
            text = out.read()
            out.close()
            path = os.path.join(tmp, f"{k}.json")
            if not os.path.exists(path):
                dead.append((k, code))
                sys.stdout.write(text[-6000:])
                continue
            if code or "-v" in argv:
                sys.stdout.write(text)
            with open(path) as fh:
                data = json.load(fh)
            ctx.evaluations += data["evaluations"]
            for key, n in data["obs"].items():
                ctx.obs(key, n)
            ctx.distinct_keys.update(bytes.fromhex(key) for key in data["keys"])
            ctx.samples += [
                smp for smp in data["samples"]
                if sum(s["case"].split("#")[0] == smp["case"].split("#")[0]
                       for s in ctx.samples) < 2 and len(ctx.samples) < 24]
            for key, txt in data["findings"].items():
                ctx.findings.setdefault(key, txt)
            for key, n in data["finding_count"].items():
                ctx.finding_count[key] = ctx.finding_count.get(key, 0) + n
            violations += data["violations"]
            mod.LEVEL, mod.RULE = data["level"], data["rule"]
            mod.ASSUMPTIONS = data["assumptions"]
    wall = time.monotonic() - start
    if not hasattr(mod, "RULE"):
        # No shard got anywhere: each has said why (1: the package is broken).
        codes = {code for _, code in dead}
        print(f"{prop}: no shard finished, exit codes {sorted(codes)}", file=sys.stderr)
        return 1 if codes == {1} else 2
    for k, code in dead:
        crashed = code < 0 and -code not in (signal.SIGKILL, signal.SIGTERM)
        print(f"  shard {k} of {jobs} died with exit code {code}")
        if crashed:
            ctx.section, ctx.index, ctx.case_info = "crash", k, {}
            where = write_replay(ctx, f"the process died with signal {-code}")
            violations.append((f"signal {-code}", where))
            print(f"VIOLATION property={prop} replay={where}", flush=True)
    if dead and not violations:
        write_evidence(ctx, mod, wall, 0)
        return 2
    return conclude(ctx, mod, violations, wall, None)


def conclude(ctx, mod, violations, wall, replay):
    """Write the evidence and say what was observed."""
    write_evidence(ctx, mod, wall, len(violations))
    if violations:
        return 1
    for key, text in sorted(ctx.findings.items()):
        print(f"KNOWN-FINDING: property={ctx.prop} {key}: {ctx.known[key]}")
    total = sum(ctx.obs_count.values())
    if (not total or not ctx.distinct_keys) and replay is None:
        print(f"{ctx.prop}: nothing was observed", file=sys.stderr)
        return 2
    print(
        f"{ctx.prop}: held on {ctx.evaluations} cases, {len(ctx.distinct_keys)} "
        f"distinct, {total} observations, {wall:.1f} s (seed {ctx.seed}, {ctx.tier})"
    )
    return 0
