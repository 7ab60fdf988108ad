"""Planted bugs: make them from specs, and run demos, tests and checks on them.

seed.py make SPECS.py [id ...]   write seeded/<id>/ from a list BUGS of dicts
                                 (id, prop, file, old, new, demo, needs, breaks;
                                 or edits=[(file, old, new), ...])
seed.py run [id ...]             in scratch copies: does the patch apply, do the
                                 stable tests pass, does the demo tell the trees
                                 apart, does the property's check catch it?
                                 (-a: run every check, not only the property's)
"""

import concurrent.futures as cf
import json
import os
import shutil
import subprocess as sp
import sys
import tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
BASE = "9a1ba4d"
ENV = {
    **os.environ,
    "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg",
    "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "",
}
DEMO_SH = """#!/bin/bash
# Run with cwd /repo. Exit 0: the property held; nonzero: it did not.
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return sp.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy_repo():
    where = tempfile.mkdtemp(prefix="seed.")
    sp.run(["cp", "-a", REPO, os.path.join(where, "repo")], check=True)
    return where


def baseline():
    with open("/opt/vp/BASELINE.json") as fh:
        data = json.load(fh)
    for key in ("stable", "stable_pass", "passed", "tests", "pass"):
        if isinstance(data.get(key), list):
            return set(data[key])
    raise SystemExit(f"BASELINE.json: {list(data)}")


def make(spec):
    where = copy_repo()
    try:
        repo = os.path.join(where, "repo")
        for name, old, new in spec.get("edits") or [
            (spec["file"], spec["old"], spec["new"])
        ]:
            path = os.path.join(repo, "src/modopt", name)
            with open(path) as fh:
                text = fh.read()
            if text.count(old) != 1:
                return f"{spec['id']}: {text.count(old)} matches in {name}: {old[:60]!r}"
            with open(path, "w") as fh:
                fh.write(text.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        out = os.path.join(SEEDED, spec["id"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "patch.diff"), "w") as fh:
            fh.write(diff)
        with open(os.path.join(out, "demo.sh"), "w") as fh:
            fh.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "demo.py"), "w") as fh:
            fh.write(spec["demo"].lstrip("\n"))
        with open(os.path.join(out, "meta.json"), "w") as fh:
            json.dump(
                {
                    "property": spec["prop"],
                    "needs": spec["needs"],
                    "what_it_breaks": spec["breaks"],
                },
                fh,
                indent=1,
            )
            fh.write("\n")
    finally:
        shutil.rmtree(where)
    return None


def run_one(args):
    ident, every = args
    seed = os.path.join(SEEDED, ident)
    with open(os.path.join(seed, "meta.json")) as fh:
        prop = json.load(fh)["property"]
    where = copy_repo()
    res = {"id": ident, "property": prop}
    try:
        repo = os.path.join(where, "repo")
        demo = os.path.join(where, "demo")
        shutil.copytree(seed, demo)
        clean = sh(f"bash {demo}/demo.sh", cwd=repo, env=ENV, timeout=300)
        if clean.returncode:
            res["bad"] = "demo fails on the clean tree: " + clean.stderr[-300:]
            return res
        applied = sh(f"git apply {demo}/patch.diff", cwd=repo)
        if applied.returncode:
            res["bad"] = "does not apply: " + applied.stderr[-300:]
            return res
        removed = [
            line[1:]
            for line in open(f"{demo}/patch.diff")
            if line.startswith("-") and not line.startswith("---")
        ]
        names = sh("git diff --name-only", cwd=repo).stdout.split()
        base = "".join(sh(f"git show {BASE}:{n}", cwd=repo).stdout for n in names)
        base_lines = set(line.strip() for line in base.splitlines())
        alien = [r.strip() for r in removed if r.strip() not in base_lines]
        if alien:
            res["note"] = f"not original: {alien[:2]}"
        planted = sh(f"bash {demo}/demo.sh", cwd=repo, env=ENV, timeout=300)
        if planted.returncode == 0:
            res["bad"] = "demo passes with the bug"
            return res
        res["demo"] = (planted.stderr.strip().splitlines() or [""])[-1][:160]
        xml = os.path.join(where, "junit.xml")
        sh(
            "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:sugar --no-cov "
            "--timeout=300 --continue-on-collection-errors --doctest-modules "
            "--ignore=src/modopt/signal/validation.py -o junit_family=xunit2 "
            f"--junitxml={xml} tests src",
            cwd=repo, env={**ENV, "PYTHONPATH": os.path.join(repo, "src")},
        )
        failed = [
            f"{c.get('classname')}::{c.get('name')}"
            for c in ET.parse(xml).getroot().iter("testcase")
            if c.find("failure") is not None or c.find("error") is not None
        ]
        stable = baseline()
        broken = [f for f in failed if f in stable]
        res["failed"] = len(failed)
        if broken or len(failed) > 4:
            res["bad"] = f"tests fail: {(broken or failed)[:3]}"
            return res
        verif = os.path.join(where, "verif")
        os.makedirs(verif)
        sh(f"cp -a {ROOT}/check.sh {ROOT}/harness {ROOT}/known-findings.txt {verif}/")
        props = [prop]
        if every:
            props = [f"C{i:02d}" for i in range(1, 100) if os.path.exists(
                f"{verif}/harness/checks/c{i:02d}.py")]
        caught = []
        for name in props:
            out = sh(
                f"bash {verif}/check.sh {name}",
                env={**ENV, "VERIF_JOBS": "2", "VERIF_REPO_SRC": os.path.join(repo, "src"),
                     "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
                     "VERIF_TIER": os.environ.get("VERIF_TIER", "quick")},
            )
            if out.returncode == 1 and f"VIOLATION property={name}" in out.stdout:
                caught.append(name)
            elif out.returncode:
                res["odd"] = f"{name}: exit {out.returncode} {out.stderr[-200:]}"
            if name == prop:
                res["last"] = out.stdout.strip().splitlines()[-3:-1]
        res["caught"] = prop in caught
        res["by"] = caught
    except Exception as err:  # noqa: BLE001
        res["bad"] = repr(err)[:300]
    finally:
        shutil.rmtree(where)
    return res


def main(argv):
    if argv[0] == "make":
        scope = {}
        with open(argv[1]) as fh:
            exec(fh.read(), scope)
        bad = [
            msg for spec in scope["BUGS"]
            if (not argv[2:] or spec["id"] in argv[2:]) and (msg := make(spec))
        ]
        print("\n".join(bad) or "ok")
    elif argv[0] == "run":
        every = "-a" in argv
        ids = [a for a in argv[1:] if a != "-a"] or sorted(os.listdir(SEEDED))
        rows = []
        with cf.ThreadPoolExecutor(7) as pool:
            for res in pool.map(run_one, [(i, every) for i in ids]):
                rows.append(res)
                state = "BAD" if "bad" in res else "caught" if res["caught"] else "MISSED"
                print(f"{state:7}{res['id']:34}", res.get("bad", res.get("by")),
                      res.get("note", ""), res.get("odd", ""), flush=True)
        with open("/tmp/seed_results.json", "w") as fh:
            json.dump(rows, fh, indent=1)


main(sys.argv[1:])
