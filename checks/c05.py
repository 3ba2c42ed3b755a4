"""C05: PrioritySemaphore — mutual exclusion, no lost wakeup, no leaked permit, best priority first."""
from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = [
    "at most 5 callers, priorities from {None,-1,0,1,2}, permits 1..2, one event loop",
    "a caller that arrives between a release and the moment the woken waiter runs may take the permit (barging); "
    "the order among waiters is checked in every execution step in which nobody barged since the last quiescent point",
]


def make(n, prios, cancels=(), rounds=1, held=(), kinds=None):
    """held: clients that keep one context manager object for all their rounds."""
    from a_sync import PrioritySemaphore

    def body(ctx):
        with Run(ctx) as r:
            sem = r.setup(lambda: PrioritySemaphore(n, name="p"))
            holders = []
            waiting = {}  # name -> [effective priority, arrival, cancelled, fifo_known]
            st = dict(arr=0, barged=False, snap={})

            def eff(p):
                return -1 if p in (None, "top") else p

            def req(c, p):
                st["arr"] += 1
                waiting[c.name] = [eff(p), st["arr"], False, True]
                ctx.log(c.name, "wait", p)

            def got(c):
                me = waiting.pop(c.name)
                ctx.log(c.name, "got")
                snap = st["snap"]
                if c.name not in snap and any(k in snap for k in waiting):
                    st["barged"] = True
                    for w in waiting.values():
                        w[3] = False
                elif not st["barged"] and c.name in snap and not me[2]:
                    for k, w in waiting.items():
                        if k in snap and not w[2]:
                            ctx.check(not w[0] < me[0], lambda: f"{c.name} (priority {me[0]}) got the permit before "
                                      f"{k} (priority {w[0]}), which was waiting too", "priority")
                            ctx.check(not (w[0] == me[0] and w[1] < me[1] and w[3] and me[3]),
                                      lambda: f"{c.name} got the permit before {k}, of the same priority and waiting longer", "fifo")
                holders.append(c.name)
                ctx.check(len(holders) <= n, lambda: f"holders {holders} with {n} permits", "mutex")

            def client_fn(i, p):
                kind = (kinds or {}).get(i, "with")

                async def fn(c):
                    mgr = None
                    if i in held:
                        mgr = sem[p]
                        await r.gate(c, "go")
                    for rnd in range(rounds):
                        if rnd:
                            await r.gate(c, "again")
                        ours = False
                        try:
                            m = mgr if mgr is not None else (sem if p == "top" else sem[p])
                            req(c, p)
                            if kind == "with":
                                async with m:
                                    got(c)
                                    ours = True
                                    try:
                                        await r.gate(c, "rel")
                                    finally:
                                        holders.remove(c.name)
                                        ctx.log(c.name, "rel")
                            else:
                                x = await m.acquire()
                                ctx.check(x is True, lambda: f"acquire returned {x!r}")
                                got(c)
                                try:
                                    await r.gate(c, "rel")
                                finally:
                                    holders.remove(c.name)
                                    ctx.log(c.name, "rel")
                                    (sem if kind == "acq-parent" else m).release()
                        finally:
                            waiting.pop(c.name, None)

                return fn

            def on_cancel(name):
                if name in waiting:
                    waiting[name][2] = True

            for i, p in enumerate(prios):
                c = r.client("ABCDEF"[i], client_fn(i, p))
                if i in cancels:
                    r.cancel_event(c, on=lambda c=c: on_cancel(c.name))

            def quiescent():
                st["snap"] = dict(waiting)
                st["barged"] = False
                if waiting and len(holders) < n:
                    ctx.fail(f"{list(waiting)} wait for ever although only {len(holders)} of {n} permits are held", "lost-wakeup")
                ctx.check(bool(sem.locked()) == (len(holders) == n), lambda: f"locked() is {bool(sem.locked())} with "
                          f"{len(holders)} of {n} permits held", "locked")

            r.loop.on_quiescent = quiescent
            r.go()
            quiescent()
            for i in range(n):
                res = r.try_run(sem.acquire() if i == 0 else sem[3].acquire())
                ctx.check(res[0] == "ok", lambda: f"a permit leaked: only {i} of {n} can be acquired at the end ({res})", "leak")
            res = r.try_run(sem[1].acquire())
            ctx.check(res[0] == "blocked", lambda: f"more than {n} permits at the end", "extra")

    return body


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    add("n1-4prios", 1 if q else 2, 1, [5, 2, 1, 0])
    add("n1-cancel", 1 if q else 3, 1, [None, 2, 1], cancels=(1, 2))
    add("n1-zero", 1 if q else 3, 1, [1, 0, -1, None] if not q else [0, -1, 1])
    add("n1-samepr", 1 if q else 3, 1, [1, 1, 1], cancels=(1,))
    add("n2-4", 1 if q else 2, 2, [2, 1, "top", 2], cancels=() if q else (1,))
    add("n1-held-rounds", 1 if q else 3, 1, [1, 2], rounds=2, held=(0, 1))
    add("n1-held-3", 1 if q else 2, 1, [1, 2, 1], held=(0, 2))
    add("n1-acq", 2 if q else 4, 1, ["top", 1, 2], kinds={0: "acq", 1: "acq", 2: "acq-parent"}, cancels=(1,))
    add("n1-barge", 3 if q else 5, 1, [1, 2, 3])
    add("n1-barge-rounds", 2 if q else 3, 1, [1, 2, 0], rounds=1, cancels=(0,))
    add("n2-cancel-all", 0 if q else 2, 2, [1, 2, 1, 3], cancels=(0, 1, 2, 3))
    add("n1-pair", 0 if q else 2, 1, [3, 2, 1, 1], cancels=(3,))
    add("n1-pairs", 0 if q else 1, 1, [1, 2, 1, 2, 1] if not q else [1, 2, 1, 2])
    add("n1-triple", 0, 1, [2, 1, 1, 1, 2])
    if not q:
        add("n1-rounds3", 1, 1, [1, 2, 3], rounds=2, cancels=(1,))
    return S
