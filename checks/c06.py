"""C06: Event — a waiter completes iff the event was set at some time since it began to wait; none is forgotten."""
from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 4 waiters, up to 3 set() and 2 clear() calls, one event loop"]


def make(kinds, nset, nclear, cancels=(), reentrant=None, start_set=False):
    from a_sync import Event

    def body(ctx):
        with Run(ctx) as r:
            ev = r.setup(lambda: Event("e"))
            st = dict(set=False)
            waiters = {}  # name -> eligible

            def do_set():
                ctx.log("set")
                st["set"] = True
                for k in waiters:
                    waiters[k] = True
                ev.set()
                ctx.check(ev.is_set() is True, "is_set() is not True right after set()", "is_set")

            def do_clear():
                ctx.log("clear")
                st["set"] = False
                ev.clear()
                ctx.check(ev.is_set() is False, "is_set() is not False right after clear()", "is_set")

            def begin(c):
                waiters[c.name] = st["set"]
                ctx.log(c.name, "wait")

            def end(c, x):
                ctx.log(c.name, "woke")
                ctx.check(waiters.pop(c.name), lambda: f"{c.name}'s wait() returned although the event was not set since", "spurious")
                ctx.check(x is True, lambda: f"wait() returned {x!r}", "value")
                ctx.check(bool(ev.is_set()) == st["set"], "is_set() disagrees with the last set()/clear()", "is_set")

            def client_fn(kind, i):
                async def fn(c):
                    try:
                        for rnd in range(2 if kind == "twice" else 1):
                            if kind == "split":
                                co = ev.wait()
                                begin(c)
                                try:
                                    await r.gate(c, "await")
                                except BaseException:
                                    co.close()
                                    raise
                                x = await co
                            elif kind == "task":
                                begin(c)
                                x = await r.loop.create_task(ev.wait())
                            else:
                                begin(c)
                                x = await ev.wait()
                            end(c, x)
                            if reentrant == (i, "clear"):
                                do_clear()
                            if reentrant == (i, "set"):
                                do_set()
                    finally:
                        waiters.pop(c.name, None)

                return fn

            if start_set:
                r.setup(do_set)
            for i, k in enumerate(kinds):
                c = r.client("ABCD"[i], client_fn(k, i))
                if i in cancels:
                    r.cancel_event(c)
            left = dict(s=nset, c=nclear)

            def dec(k, fn):
                def f():
                    left[k] -= 1
                    fn()
                return f

            r.event("set", dec("s", do_set), lambda: left["s"] > 0, repeat=True)
            r.event("clear", dec("c", do_clear), lambda: left["c"] > 0, repeat=True)

            def quiescent():
                gates = {c.name for c in r.clients if c.gate_fut is not None}
                stuck = [k for k, e in waiters.items() if e and k not in gates]
                ctx.check(not stuck, lambda: f"{stuck} still wait although the event was set after they began", "lost")
                ctx.check(bool(ev.is_set()) == st["set"], "is_set() disagrees with the last set()/clear()", "is_set")

            r.loop.on_quiescent = quiescent
            r.go(deadlock_ok=True)
            quiescent()
            r.setup(do_set)
            r.settle()
            quiescent()
            res = r.try_run(ev.wait())
            ctx.check(res == ("ok", True), lambda: f"wait() on a set event: {res}", "wait-set")

    return body


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    add("w2-set2-clear2", 3 if q else 5, ["wait", "wait"], 2, 2)
    add("w3-set2-clear1-cancel", 1 if q else 3, ["wait", "wait", "wait"], 2, 1, cancels=(0, 1))
    add("w2-twice", 2 if q else 4, ["twice", "wait"], 2, 2)
    add("split", 2 if q else 4, ["split", "wait"], 2, 1, cancels=(0,))
    add("task-cancel", 2 if q else 4, ["task", "wait", "task"], 1, 1, cancels=(0, 2))
    add("reentrant-clear", 2 if q else 4, ["wait", "wait", "wait"], 1, 0, reentrant=(0, "clear"))
    add("reentrant-set", 2 if q else 4, ["wait", "wait", "wait"], 1, 2, reentrant=(1, "set"), cancels=(2,))
    add("start-set", 2 if q else 4, ["wait", "split", "task"], 1, 1, start_set=True, cancels=(1,))
    add("w4", 1 if q else 2, ["wait", "task", "wait", "split"], 1, 1)
    return S
