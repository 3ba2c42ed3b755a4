"""C07: CounterLock / CounterLockCluster — waiters for v complete iff the value has reached v; the value only grows."""
from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 4 waiters, up to 3 set() calls with values from a small domain, one event loop"]


def make(start, waits, sets, cancels=(), via="set", cluster=None, reentrant=None):
    from a_sync import CounterLock
    from a_sync.primitives.locks.counter import CounterLockCluster

    def body(ctx):
        with Run(ctx) as r:
            nl = cluster or 1
            locks = [r.setup(lambda i=i: CounterLock(start, f"c{i}")) for i in range(nl)]
            model = [start] * nl
            target = CounterLockCluster(locks) if cluster else locks[0]
            waiters = {}

            def do_set(j, v):
                old = model[j]
                try:
                    if via == "set":
                        locks[j].set(v)
                    else:
                        locks[j].value = v
                    ok = True
                except ValueError:
                    ok = False
                ctx.log("set", j, v, ok)
                ctx.check(ok == (v >= old), lambda: f"set({v}) at value {old}: {'accepted' if ok else 'refused'}", "monotone")
                model[j] = max(old, v)
                state_ok()

            def state_ok():
                for j in range(nl):
                    ctx.check(locks[j].value == model[j], lambda: f"value is {locks[j].value}, expected {model[j]}", "value")
                    for v in (-1, 0, 1, 2, 3, 5):
                        ctx.check(bool(locks[j].is_ready(v)) == (model[j] >= v), lambda: f"is_ready({v}) at {model[j]}", "is_ready")

            def client_fn(seq, i):
                async def fn(c):
                    try:
                        for n, v in enumerate(seq):
                            if n:
                                await r.gate(c, "next")
                            waiters[c.name] = v
                            ctx.log(c.name, "wait", v)
                            x = await target.wait_for(v)
                            ctx.log(c.name, "woke", v)
                            waiters.pop(c.name)
                            ctx.check(x is True or x == 1, lambda: f"wait_for returned {x!r}", "value")
                            ctx.check(min(model) >= v, lambda: f"wait_for({v}) returned at value {min(model)}", "early")
                            if reentrant and reentrant[0] == i:
                                do_set(0, reentrant[1])
                    finally:
                        waiters.pop(c.name, None)

                return fn

            for i, seq in enumerate(waits):
                c = r.client("ABCD"[i], client_fn(seq, i))
                if i in cancels:
                    r.cancel_event(c)
            for n, (j, v) in enumerate(sets):
                r.event(f"set{n}:{j}={v}", lambda j=j, v=v: do_set(j, v))

            def quiescent():
                gates = {c.name for c in r.clients if c.gate_fut is not None}
                stuck = {k: v for k, v in waiters.items() if v <= min(model) and k not in gates}
                ctx.check(not stuck, lambda: f"at value {model}, still waiting: {stuck}", "lost")

            r.loop.on_quiescent = quiescent
            r.go(deadlock_ok=True)
            quiescent()
            top = max([v for s in waits for v in s] + model)
            for j in range(nl):
                r.setup(lambda j=j: do_set(j, top))
            r.settle()
            quiescent()
            for v in (start, top):
                res = r.try_run(target.wait_for(v))
                ctx.check(res[0] == "ok", lambda: f"wait_for({v}) at {model}: {res[0]}", "final")
            res = r.try_run(target.wait_for(top + 1))
            ctx.check(res[0] == "blocked", lambda: f"wait_for({top+1}) at {model}: {res[0]}", "final")

    return body


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    add("w3-s3", 1 if q else 3, 0, [[1], [2], [3]], [(0, 1), (0, 3), (0, 2)])
    add("same-value", 2 if q else 4, 0, [[1], [1], [2]], [(0, 1), (0, 2)], cancels=(0,))
    add("rewait", 1 if q else 3, 0, [[1, 2], [2, 1]], [(0, 1), (0, 2), (0, 1)], via="value")
    add("cancel-all", 1 if q else 3, 0, [[2], [2], [1]], [(0, 1), (0, 2)], cancels=(0, 1, 2))
    add("negative", 2 if q else 4, -2, [[-1], [0], [-2]], [(0, -1), (0, 5), (0, -2)], cancels=(1,))
    add("gap", 2 if q else 4, 0, [[5], [3], [2]], [(0, 2), (0, 4), (0, 5)])
    add("reentrant", 2 if q else 4, 0, [[1], [2], [3]], [(0, 1)], reentrant=(0, 2))
    add("cluster2", 2 if q else 4, 0, [[1], [2]], [(0, 1), (1, 2), (0, 2)], cluster=2, cancels=(0,))
    add("cluster-rewait", 1 if q else 3, 0, [[1, 2]], [(0, 2), (1, 1), (1, 2)], cluster=2)
    add("w4", 0 if q else 2, 0, [[1], [2], [1], [3]], [(0, 1), (0, 2), (0, 3)], cancels=(2,))
    return S
