"""Run the check of one property: ``run.py C01 [--replay FILE]``."""

import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)

# Heavy optional libraries that most checks do not need.
HIDDEN = ("tensorflow", "torch", "cupy", "ptwt", "keras")


class Hide:
    """Path finder under which the optional libraries are not installed."""

    def __init__(self, inner):
        self.inner = inner

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in HIDDEN:
            return None
        return self.inner.find_spec(name, path, target)

    def __getattr__(self, attr):
        return getattr(self.inner, attr)


def hide_optional(wanted=()):
    global HIDDEN
    HIDDEN = tuple(name for name in HIDDEN if name not in wanted)
    from importlib.machinery import PathFinder

    sys.meta_path[:] = [
        Hide(f) if f is PathFinder or getattr(f, "__name__", "") == "PathFinder" else f
        for f in sys.meta_path
    ]


def main(argv):
    prop = argv[0]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, len(os.sched_getaffinity(0)))
    if jobs > 1 and "--shard" not in argv and "--replay" not in argv:
        from core import run_parallel

        return run_parallel(prop, argv[1:], os.path.abspath(__file__), jobs)
    with open(os.path.join(HERE, "checks", f"{prop.lower()}.py")) as fh:
        head = fh.read(4000)
    wanted = re.search(r'^OPTIONAL = "(.*)"', head, re.M)
    hide_optional(wanted.group(1).split() if wanted else [])
    from core import run_check

    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception as err:  # noqa: BLE001
        # The package under test cannot be imported: nothing works at all.
        import traceback

        tb = traceback.format_exc()
        print(tb)
        if REPO_SRC in tb:
            import json

            where = os.path.join(os.path.dirname(HERE), "replays")
            os.makedirs(where, exist_ok=True)
            where = os.path.join(where, f"{prop}-import.json")
            with open(where, "w") as fh:
                json.dump({"property": prop, "what": str(err), "traceback": tb}, fh)
            print(f"VIOLATION property={prop} replay={where}")
            return 1
        raise
    import modopt

    src = os.path.realpath(modopt.__file__)
    if not src.startswith(os.path.realpath(REPO_SRC) + os.sep):
        print(f"modopt was imported from {src}", file=sys.stderr)
        return 2
    return run_check(prop, mod, argv[1:])


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
