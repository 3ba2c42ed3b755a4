"""C08: Queue — no item lost, duplicated or reordered, batch gets return what they promise, no lost wakeup, join exact."""
import asyncio

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["at most 4 producers/consumers, at most 6 items, capacity 0 (unbounded), 1 or 2, one event loop"]


def sequences(depth, maxsize):
    """Every sequence of operations, against a list."""
    from a_sync import Queue

    OPS = ["put", "get_nowait", "all_nowait", "m2", "m2less", "m3less", "all", "g2", "g3", "g2less", "g3less", "done", "get", "bad"]

    def body(ctx):
        with Run(ctx) as r:
            q = r.setup(lambda: Queue(maxsize))
            model = []
            nput = unfin = 0
            for _ in range(depth):
                op = OPS[ctx.choose(OPS)]
                ctx.step()
                empty = not model
                want = None
                try:
                    if op == "put":
                        want = asyncio.QueueFull if maxsize and len(model) >= maxsize else "ok"
                        if want == "ok":
                            nput += 1
                            unfin += 1
                            model.append(nput)
                        q.put_nowait(nput if want == "ok" else -1)
                        res = "ok"
                    elif op == "get_nowait":
                        want = asyncio.QueueEmpty if empty else model.pop(0)
                        res = q.get_nowait()
                    elif op == "all_nowait":
                        want = asyncio.QueueEmpty if empty else model[:]
                        model.clear()
                        res = q.get_all_nowait()
                    elif op in ("m2", "m2less", "m3less"):
                        n = int(op[1])
                        less = op.endswith("less")
                        if empty or (len(model) < n and not less):
                            want = asyncio.QueueEmpty
                        else:
                            want = model[:n]
                            del model[:n]
                        res = q.get_multi_nowait(n, can_return_less=less) if less else q.get_multi_nowait(n)
                    elif op == "bad":
                        # not a number of items more than one: refused, and nothing is taken
                        want = res = "refused"
                        for bad in ((1,), (0,), (-2,), ("2",), (2.0,), (2, "yes")):
                            try:
                                x = q.get_multi_nowait(*bad)
                            except (TypeError, ValueError) as e:
                                x = None
                            y = r.try_run(q.get_multi(*bad))
                            if x is not None or y[0] != "exc" or not isinstance(y[1], (TypeError, ValueError)):
                                res = (bad, x, y)
                    elif op == "done":
                        want = "ok" if unfin else ValueError
                        if unfin:
                            unfin -= 1
                        q.task_done()
                        res = "ok"
                    else:
                        if op == "all":
                            co = q.get_all()
                            want = ("ok", model[:]) if model else ("blocked",)
                            model.clear()
                        elif op == "get":
                            co = q.get()
                            want = ("ok", model.pop(0)) if model else ("blocked",)
                        else:
                            n = int(op[1])
                            less = op.endswith("less")
                            if empty or (len(model) < n and not less):
                                want = ("blocked",)
                            else:
                                want = ("ok", model[:n])
                                del model[:n]
                            co = q.get_multi(n, less) if less else q.get_multi(n)
                        res = r.try_run(co)
                        if res[0] == "blocked":
                            # give up: whatever it had taken must be available again, in order
                            res[1].cancel()
                            r.settle()
                            res = ("blocked",)
                except Exception as e:
                    res = type(e)
                ctx.log(op, res)
                ctx.check(res == want, lambda: f"{op} on {model}: {res}, expected {want}", op)
                ctx.check(len(q) == q.qsize() == len(model) and bool(q), lambda: f"len {len(q)}, expected {len(model)}", "len")
                ctx.check(q.empty() == (not model), "empty()", "empty")
            res = r.try_run(q.join())
            ctx.check((res[0] == "ok") == (unfin == 0), lambda: f"join() with {unfin} unfinished: {res[0]}", "join")
            rest = q.get_all_nowait() if model else []
            ctx.check(rest == model, lambda: f"left in the queue {rest}, expected {model}", "rest")

    return body


def conc(prod, cons, maxsize=0, cancels=(), joiner=False):
    """prod: per producer a list of items (blocking puts); cons: per consumer a list of ops."""
    from a_sync import Queue

    def body(ctx):
        with Run(ctx) as r:
            q = r.setup(lambda: Queue(maxsize))
            put, got = [], []
            blocked_get, blocked_put = set(), set()
            undone = [0]

            def producer(items):
                async def fn(c):
                    try:
                        for n, it in enumerate(items):
                            if n:
                                await r.gate(c, "put")
                            blocked_put.add(c.name)
                            await q.put(it)
                            blocked_put.discard(c.name)
                            put.append(it)
                            undone[0] += 1
                            ctx.log(c.name, "put", it)
                            ctx.check(not maxsize or cancelled or len(q) <= maxsize, lambda: f"{len(q)} items in a queue of {maxsize}", "full")
                    finally:
                        blocked_put.discard(c.name)

                return fn

            cancelled = []

            def consumer(ops):
                async def fn(c):
                    mine = []
                    try:
                        for n, op in enumerate(ops):
                            if n:
                                await r.gate(c, "get")
                            blocked_get.add(c.name)
                            if op == "get":
                                res = [await q.get()]
                                lo, hi = 1, 1
                            elif op == "all":
                                res = await q.get_all()
                                lo, hi = 1, 99
                            else:
                                k = int(op[1])
                                less = op.endswith("less")
                                res = await (q.get_multi(k, can_return_less=True) if less else q.get_multi(k))
                                lo, hi = (1 if less else k), k
                            blocked_get.discard(c.name)
                            ctx.log(c.name, op, res)
                            ctx.check(isinstance(res, list) and lo <= len(res) <= hi, lambda: f"{op} returned {res}", "count")
                            got.extend(res)
                            mine.extend(res)
                            for p in prod:
                                seq = [x for x in mine if x in p]
                                # (a cancelled batch returns its items to the front of what others have taken from)
                                ctx.check(cancelled or seq == sorted(seq, key=p.index), lambda: f"{c.name} received {seq} out of order", "order")
                            for _ in res:
                                q.task_done()
                                undone[0] -= 1
                    finally:
                        blocked_get.discard(c.name)

                return fn

            joined = []

            async def join(c):
                await q.join()
                ctx.log(c.name, "joined", undone[0])
                joined.append(1)

            for i, items in enumerate(prod):
                c = r.client(f"P{i}", producer(items))
                if f"P{i}" in cancels:
                    r.cancel_event(c)
            for i, ops in enumerate(cons):
                c = r.client(f"C{i}", consumer(ops))
                if f"C{i}" in cancels:
                    r.cancel_event(c, on=lambda: cancelled.append(1))
            if joiner:
                r.client("J", join)

            def quiescent():
                atgate = {c.name for c in r.clients if c.gate_fut is not None}
                bg = blocked_get - atgate
                bp = blocked_put - atgate
                ctx.check(not (bg and len(q)), lambda: f"{sorted(bg)} wait for items although the queue has {len(q)}", "lost-getter")
                ctx.check(not (bp and (not maxsize or len(q) < maxsize)), lambda: f"{sorted(bp)} wait although the queue has room", "lost-putter")
                if not bp and not bg:
                    n = len(put) - len(got)
                    ctx.check(len(q) == n, lambda: f"{len(q)} items in the queue, expected {n}: put {put}, got {got}", "lost")
                ctx.check(len(set(got)) == len(got), lambda: f"an item was delivered twice: {got}", "dup")

            r.loop.on_quiescent = quiescent
            r.go(deadlock_ok=True)
            quiescent()
            for c in r.clients:
                if not c.done and c.task is not None:
                    c.cancel_requested = True
                    c.task.cancel()
            r.settle()
            rest = q.get_all_nowait() if len(q) else []
            r.settle()
            while len(q):
                rest += q.get_all_nowait()
                r.settle()
            ctx.check(sorted(got + rest) == sorted(put), lambda: f"put {sorted(put)} but got {sorted(got)} and left {rest}", "conserve")
            for p in prod:
                seq = [x for x in rest if x in p]
                ctx.check(cancelled or seq == sorted(seq, key=p.index), lambda: f"left in the queue out of order: {rest}", "order")
            for _ in rest:
                q.task_done()
            res = r.try_run(q.join())
            ctx.check(res[0] == "ok", "join() blocks although every item is done", "join")

    return body


def scenarios(tier):
    q = tier == "quick"
    S = [
        Scenario("seq-unbounded", sequences(4 if q else 6, 0)),
        Scenario("seq-max2", sequences(4 if q else 5, 2)),
    ]

    def add(name, bound, *a, **k):
        S.append(Scenario(name, conc(*a, **k), bound))

    # several producers blocked at once on a full queue
    add("max2-all-2", 1 if q else 2, [[1], [11], [21], [31]], [["all"], ["all"]], maxsize=2)
    add("max1-m2-2", 1 if q else 2, [[1], [11], [21]], [["g2less"], ["g2less"]], maxsize=2, cancels=("P1",))
    add("max2-m3-2", 1 if q else 2, [[1], [11], [21], [31]], [["g3"]], maxsize=2)
    add("m2-vs-get", 1 if q else 3, [[1, 2, 3]], [["g2"], ["get"]], cancels=("C0",))
    add("m3-two-producers", 1 if q else 3, [[1, 2], [11, 12]], [["g3"], ["get"]])
    add("m2-m2", 1 if q else 3, [[1, 2, 3]], [["g2"], ["g2"]], cancels=("C0", "C1"))
    add("all-vs-m2", 1 if q else 3, [[1, 2], [11]], [["all", "all"], ["g2less"]], cancels=("C1",))
    add("max1-m2", 1 if q else 3, [[1, 2], [11]], [["g2"], ["get"]], maxsize=1, cancels=("C0",))
    add("max1-all", 1 if q else 3, [[1, 2], [11]], [["all", "g2less"]], maxsize=1, cancels=("P1",))
    add("max2-m3", 1 if q else 3, [[1, 2, 3], [11]], [["g3"]], maxsize=2, cancels=("C0",))
    add("join", 1 if q else 3, [[1, 2]], [["g2less", "get"]], joiner=True)
    add("get-get", 2 if q else 4, [[1], [11]], [["get"], ["get"]], cancels=("C0",))
    return S
