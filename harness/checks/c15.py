"""C15: observers: each registered one is told once, in order, and never re-entered."""

import threading

import numpy as np
from core import Section
from gens import pick
from modopt.base.observable import Observable

RULE = (
    "A case is a random history of add / remove / notify operations on one or two "
    "observables, with observers that raise, that notify again from inside, and "
    "notifications from another thread while one is in progress; every delivery is "
    "compared to a model.  Non-trivial: at least one delivery."
)


MODES = ("plain", "plain", "nested", "raise", "false", "true", "text", "zero")


class Boom(Exception):
    pass


class Obs:
    """An observer with a behaviour; records what it is told."""

    def __init__(self, tag, log, mode, pool):
        self.tag, self.log, self.mode, self.pool = tag, log, mode, pool
        self.inner = []
        self.bound = False

    def given(self):
        """What is handed over: itself, or a bound method (a new object each time)."""
        return self.__call__ if self.bound else self

    def __call__(self, signal):
        attrs = {k: v for k, v in vars(signal).items() if k not in ("object", "signal")}
        self.log.append((self.tag, signal.signal, signal.object, attrs))
        if self.mode == "nested":
            self.inner.append(signal.object.notify_observers(signal.signal, deep=True))
        elif self.mode == "other":
            for other in self.pool:
                if other is not signal.object:
                    self.inner.append(("other", other))
        if self.mode == "raise":
            raise Boom(self.tag)
        # whatever an observer returns is of no consequence
        return {"false": False, "true": True, "text": "stop", "zero": 0}.get(self.mode)


def history(ctx, rng, i):
    names = ["a", "b", "c"][: int(rng.integers(1, 4))]
    n_obj = int(rng.integers(1, 3))
    objs = [Observable(list(names)) for _ in range(n_obj)]
    log = []
    obs = [Obs(k, log, pick(rng, *MODES), objs)
           for k in range(int(rng.integers(1, 6)))]
    for o in obs:
        o.bound = bool(rng.random() < 0.3)
    model = [{s: [] for s in names} for _ in objs]
    trace = []
    delivered = 0
    for step in range(int(rng.integers(5, 40))):
        j = int(rng.integers(n_obj))
        s = pick(rng, *names)
        o = pick(rng, *obs)
        what = pick(rng, "add", "add", "remove", "notify", "notify", "bad")
        trace.append((what, j, s, o.tag, o.mode))
        ctx.info(history=trace[-30:])
        if what == "add":
            objs[j].add_observer(s, o.given())
            if o not in model[j][s]:
                model[j][s].append(o)
        elif what == "remove":
            objs[j].remove_observer(s, o.given())
            if o in model[j][s]:
                model[j][s].remove(o)
        elif what == "bad":
            ctx.raises(ValueError, lambda: objs[j].add_observer("zzz", o), "bad signal")
            ctx.raises(ValueError, lambda: objs[j].remove_observer("zzz", o), "bad signal")
            ctx.check(list(objs[j].allowed_signals) == names, "allowed signals changed")
        else:
            del log[:]
            kw = {pick(rng, "k", "_k", "K.", "é")+f"{n}": pick(rng, float(rng.standard_normal()), None, False, 0, "",
                                (), [], lambda: 0, "text", {"a": None})
                  for n in range(int(rng.integers(0, 4)))}
            want = []
            boom = None
            for ob in model[j][s]:
                want.append((ob.tag, s))
                if ob.mode == "raise":
                    boom = ob.tag
                    break
            try:
                res = objs[j].notify_observers(s, **kw)
                ctx.check(boom is None, f"step {step}: the exception of {boom} was lost")
                ctx.check(bool(res) is True, f"step {step}: notification returned {res}")
            except Boom as err:
                ctx.check(err.args[0] == boom, f"step {step}: exception of {err.args}")
            got = [(t, sg) for t, sg, _, _ in log]
            ctx.check(got == want, f"step {step}: told {got}, expected {want}")
            for t, sg, ob, attrs in log:
                ctx.check(ob is objs[j], "signal carries another object")
                ctx.check(set(attrs) == set(kw) and all(attrs[k] is kw[k] for k in kw),
                          f"signal carries {attrs}, not {kw}")
            for ob in obs:
                for r in ob.inner:
                    ctx.check(r is False, f"a nested notification returned {r}")
                ob.inner.clear()
            delivered += len(got)
            ctx.obs("deliveries", len(got))
    if delivered:
        ctx.seen(tuple(trace))
    ctx.sample(deliveries=delivered)


def chain(ctx, rng, i):
    """An observer may notify other objects: only its own is busy meanwhile."""
    n = int(rng.integers(2, 8))
    subs = [Observable(["s", "t"]) for _ in range(n)]
    told, answers = [], []

    def make(k):
        def observer(sig):
            told.append((k, sig.object is subs[k], sig.step))
            if k + 1 < n:
                answers.append(subs[k + 1].notify_observers("s", step=k + 1))
            answers.append(not subs[k].notify_observers("s", step=-1))  # its own: refused
            if k:
                answers.append(not subs[0].notify_observers("t", step=-1))
        return observer

    for k, sub in enumerate(subs):
        sub.add_observer("s", make(k))
        sub.add_observer("t", lambda sig: told.append("t"))
    for _ in range(2):
        del told[:], answers[:]
        ctx.check(subs[0].notify_observers("s", step=0) is True, "the first notification")
        ctx.check(told == [(k, True, k) for k in range(n)], "observers told", told=told)
        ctx.check(all(a is True for a in answers), "answers given", answers=answers)
    ctx.seen("chain", n, i)
    ctx.obs("deliveries", 2 * n)


def crowd(ctx, rng, i):
    """Hundreds of observers are all told, in order."""
    n = int(rng.integers(40, 1500))
    sub, told = Observable(["s", "t"]), []
    obs = [lambda sig, k=k: told.append(k) for k in range(n)]
    for o in obs:
        sub.add_observer("s", o)
    gone = {int(k) for k in rng.integers(0, n, int(rng.integers(0, n // 2)))}
    for k in gone:
        sub.remove_observer("s", obs[k])
    ctx.info(n=n, removed=len(gone))
    ctx.check(sub.notify_observers("t") is True and not told, "the other signal")
    sub.notify_observers("s")
    ctx.check(told == [k for k in range(n) if k not in gone], "observers told", n=len(told))
    for o in obs:
        sub.remove_observer("s", o)
    sub.notify_observers("s")
    ctx.check(len(told) == n - len(gone), "observers told after removal")
    ctx.seen("crowd", n, len(gone))
    ctx.obs("deliveries", len(told))


def threads(ctx, rng, i):
    """While a notification is in progress, another thread is refused, not queued."""
    sub = Observable(["s", "t"])
    started, go = threading.Event(), threading.Event()
    log = []

    def slow(sig):
        log.append(("slow", getattr(sig, "n", None)))
        started.set()
        go.wait(20)

    def fast(sig):
        log.append(("fast", getattr(sig, "n", None)))

    sub.add_observer("s", slow)
    sub.add_observer("s", fast)
    sub.add_observer("t", fast)
    res = []
    th = threading.Thread(target=lambda: res.append(sub.notify_observers("s", n=1)))
    th.start()
    ok = started.wait(20)
    second = [sub.notify_observers(pick(rng, "s", "t"), n=2) for _ in range(3)]
    go.set()
    th.join(20)
    if not ok or th.is_alive():
        ctx.obs("threads that did not get going")
        return
    ctx.check(second == [False] * 3, f"refused notifications returned {second}")
    ctx.check(res == [True], f"the first notification returned {res}")
    ctx.check(log == [("slow", 1), ("fast", 1)], f"deliveries {log}")
    ctx.check(sub.notify_observers("t", n=3) is True, "refused after completion")
    ctx.check(log[-1] == ("fast", 3), "later notification lost")
    ctx.seen("threads", i)


def changing(ctx, rng, i):
    """Observers that add or remove observers while the notification is in progress.

    Whether those they add or remove take part in the notification is open; those
    registered all along are told once, in order.
    """
    sub = Observable(["s", "t"])
    log, acts = [], {}
    n = int(rng.integers(2, 7))
    spare = []

    def make(tag):
        def run(sig):
            log.append(tag)
            for what, which in acts.get(tag, ()):
                fn = sub.remove_observer if what == "remove" else sub.add_observer
                fn("s", which)
        return run

    obs = [make(k) for k in range(n)]
    for o in obs:
        sub.add_observer("s", o)
    reg = list(range(n))
    trace = []
    for turn in range(int(rng.integers(1, 5))):
        acts.clear()
        touched = set()
        for k in range(n):
            if rng.random() < 0.5:
                what = pick(rng, "remove", "remove", "add", "other")
                which = k if rng.random() < 0.6 else int(rng.integers(n))
                if what == "other":
                    spare.append(make(100 + len(spare)))
                    acts[k] = [("add", spare[-1])]
                else:
                    acts[k] = [(what, obs[which])]
                    touched.add(which)
                trace.append((turn, k, what, which))
        ctx.info(registered=reg, actions=trace)
        del log[:]
        ctx.check(sub.notify_observers("s", n=turn) is True, "notification refused")
        firm = [k for k in reg if k not in touched]
        got = [k for k in log if k in firm]
        ctx.check(got == firm, f"told {log}; registered all along: {firm}")
        ctx.check(len(set(log)) == len(log), f"told twice: {log}")
        del log[:]
        acts.clear()
        sub.notify_observers("t")
        ctx.check(log == [], "told of another signal")
        sub.notify_observers("s")  # the changes have taken place
        reg = [k for k in log if k < 100]
        ctx.check(set(firm) <= set(reg), f"observers lost: {firm} -> {reg}")
        ctx.obs("deliveries", len(log))
    ctx.seen("changing", n, tuple(trace))


def separate(ctx, rng, i):
    """Observables share nothing, and the list given at creation is not kept."""
    names = ["x", "y"]
    a, b = Observable(names), Observable(names)
    log = []
    f = lambda sig: log.append(sig.v)  # noqa: E731
    a.add_observer("x", f)
    b.notify_observers("x", v=1)
    a.notify_observers("y", v=2)
    ctx.check(log == [], f"deliveries {log}")
    names.append("z")
    ctx.raises(ValueError, lambda: a.add_observer("z", f), "signal added afterwards")
    a.notify_observers("x", v=3)
    ctx.check(log == [3], f"deliveries {log}")
    ctx.seen("separate", i, float(np.asarray(log[0])))


SECTIONS = [
    Section("history", history, 1200, 15000),
    Section("changing", changing, 300, 3000),
    Section("chain", chain, 20, 200),
    Section("crowd", crowd, 40, 400),
    Section("threads", threads, 30, 300),
    Section("separate", separate, 1, 1),
]
