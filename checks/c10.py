"""C10: SmartProcessingQueue — concurrent requests for the same arguments share one execution, the job with the most
waiters goes first, nobody is handed a dead result; VariablePriorityQueue pops by current priority."""
import asyncio
import functools

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 5 callers on up to 3 distinct argument sets, 1-2 workers, one event loop",
               "a caller whose cancellation has been requested counts as waiter or not until the loop is quiescent"]


class Boom(Exception):
    pass


class Arg:
    """compares by name only, so that the harness can tell which put() an execution belongs to"""

    def __init__(self, name, uid):
        self.name, self.uid = name, uid

    def __eq__(self, o):
        return isinstance(o, Arg) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"{self.name}#{self.uid}"


class Entry:
    def __init__(self, name):
        self.name = name
        self.waiters = set()  # clients certainly waiting
        self.maybe = set()  # clients whose cancellation is under way
        self.cancelled = False  # somebody who awaits the future directly was cancelled
        self.state = "queued"
        self.dropped = False


def make(clients, workers, cancels=(), nameless=False, kw=False):
    """clients: list of (arg name, how to wait, outcome)."""
    from a_sync import SmartProcessingQueue
    from a_sync._smart import shield

    def body(ctx):
        with Run(ctx) as r:
            entries, by_uid, running, gates, execs = [], {}, [], {}, {}

            async def func(arg, x=0, y=0):
                e = by_uid.get(arg.uid)
                ctx.check(e is not None, f"an execution for {arg}, which was not put", "args")
                if kw:
                    ctx.check((x, y) == (1, 2), lambda: f"executed with x={x} y={y}", "args")
                ctx.log("start", arg)
                ctx.check(e.state == "queued", f"{arg} was executed twice", "twice")
                for o in entries:
                    if o is not e and o.state == "queued":
                        ctx.check(len(e.waiters) + len(e.maybe) >= len(o.waiters), lambda: (
                            f"{e.name} with {len(e.waiters)} waiters was started before {o.name} with {len(o.waiters)}"), "order")
                e.state = "running"
                running.append(e)
                ctx.check(len(running) <= workers, lambda: f"{len(running)} executions at once, with {workers} workers", "workers")
                try:
                    g = gates[arg.uid] = r.loop.create_future()
                    await g
                    out = clients[arg.uid][2]
                    if out == "exc":
                        execs[arg.uid] = Boom(arg)
                        raise execs[arg.uid]
                    if out == "ise":
                        execs[arg.uid] = asyncio.InvalidStateError(arg)
                        raise execs[arg.uid]
                    if out == "cancel":
                        raise asyncio.CancelledError
                    return ("result", arg.uid)
                finally:
                    running.remove(e)
                    e.state = "done"
                    e.outcome = clients[arg.uid][2]
                    e.uid = arg.uid
                    ctx.log("finish", arg)

            q = r.setup(lambda: SmartProcessingQueue(functools.partial(func) if nameless else func, workers, name="q"))

            def client_fn(i):
                name, how, outcome = clients[i]

                async def fn(c):
                    arg = Arg(name, i)
                    live = [e for e in entries if e.name == name and e.waiters and not e.cancelled and e.state != "done"]
                    by_uid[i] = new = Entry(name)
                    kws = {} if not kw else ({"x": 1, "y": 2} if i % 2 else {"y": 2, "x": 1})
                    if how.startswith("put"):
                        fut = await q.put(arg, **kws)
                    elif how.startswith("call"):
                        fut = q(arg, **kws)
                    else:
                        fut = q.put_nowait(arg, **kws)
                    e = getattr(fut, "_mc", None)
                    if e is None:
                        fut._mc = e = new
                        entries.append(e)
                    by_uid[i] = e
                    ctx.log(c.name, "put", name, "new" if e is new else "shared")
                    ctx.check(not fut.cancelled() and not e.cancelled, f"{c.name} was handed the cancelled future of an earlier caller", "dead")
                    ctx.check(not live or e is live[0], lambda: f"{c.name} did not share the pending execution for {name}", "share")
                    if how.endswith("drop"):
                        return
                    if how.endswith("late"):
                        await r.gate(c, "await")
                        if e.cancelled:
                            return
                    e.waiters.add(c.name)
                    c.entry = e
                    try:
                        res = await (shield(fut) if how.endswith("shield") else fut)
                        ctx.log(c.name, "result", res)
                        ctx.check(e.state == "done" and e.outcome == "ok" and res == ("result", e.uid), lambda: f"{c.name} got {res}", "result")
                    except asyncio.CancelledError:
                        ctx.log(c.name, "cancelled")
                        if c.cancel_requested:
                            raise
                        ctx.check(e.cancelled or (e.state == "done" and e.outcome == "cancel"), f"{c.name} was cancelled for no reason", "spurious-cancel")
                    except Exception as x:
                        ctx.log(c.name, "exc", type(x).__name__)
                        ctx.check(e.state == "done" and execs.get(e.uid) is x, lambda: f"{c.name} got {x!r}", "result")
                    finally:
                        fut = None
                        e.waiters.discard(c.name)
                        e.maybe.discard(c.name)

                return fn

            for i in range(len(clients)):
                c = r.client(f"P{i}", client_fn(i))
                c.entry = None
                if i in cancels:
                    def on(c=c, i=i):
                        e = c.entry
                        if e is not None and c.name in e.waiters:
                            e.waiters.discard(c.name)
                            e.maybe.add(c.name)
                            if not clients[i][1].endswith("shield"):
                                # asyncio: cancelling a task that awaits a future cancels the future
                                e.cancelled = True
                    r.cancel_event(c, on=on)
                r.event(f"finish{i}", lambda i=i: gates[i].set_result(None), lambda i=i: i in gates and not gates[i].done())

            def quiescent():
                for e in entries:
                    e.maybe.clear()
                wait = [e.name for e in entries if e.state == "queued" and e.waiters and not e.cancelled]
                ctx.check(not wait or len(running) == workers, lambda: f"{wait} wait although only {len(running)} of {workers} workers are busy", "idle")
                hung = [x for e in entries if e.state == "done" or e.cancelled for x in e.waiters]
                ctx.check(not hung, lambda: f"{hung} still wait for a result that is there", "hang")

            r.loop.on_quiescent = quiescent
            r.go()
            quiescent()
            res = r.try_run(q.join())
            ctx.check(res[0] == "ok", lambda: f"join() after everything was processed: {res[0]}", "join")
            # a later request is processed afresh
            clients.append((clients[0][0], "nowait", "ok"))
            n = len(clients) - 1
            try:
                async def again():
                    e = by_uid[n] = Entry("again")
                    kws = {"x": 1, "y": 2} if kw else {}
                    fut = q.put_nowait(Arg(clients[0][0], n), **kws)
                    fut.get_loop().call_later(1, lambda: gates[n].set_result(None))
                    return await fut
                res = r.try_run(again())
                ctx.check(res == ("ok", ("result", n)), lambda: f"a later request: {res}", "later")
            finally:
                clients.pop()
            q.close()

    return body


def vpq():
    """every sequence of puts, priority changes and gets of bounded length"""
    from a_sync.primitives.queue import VariablePriorityQueue

    class Item:
        def __init__(self, n, p):
            self.n, self.p = n, p

        def __lt__(self, o):
            return self.p < o.p

    def body(ctx, depth):
        with Run(ctx) as r:
            q = r.setup(VariablePriorityQueue)
            items = []
            n = 0
            for step in range(depth):
                opts = [f"put{p}" for p in (1, 2)]
                if items:
                    opts.append("get")
                for i, it in enumerate(items):
                    for p in (0, 3):
                        if it.p != p:
                            opts.append(f"set{i}={p}")
                op = opts[ctx.choose(opts)]
                ctx.step()
                if op.startswith("put"):
                    it = Item(n, int(op[3:]))
                    n += 1
                    items.append(it)
                    r.setup(lambda: q.put_nowait(it))
                elif op == "get":
                    it = r.setup(q.get_nowait)
                    best = min(x.p for x in items)
                    ctx.log("got", it.n, it.p)
                    ctx.check(it in items, "an item came out twice", "twice")
                    ctx.check(it.p == best, lambda: f"popped an item of priority {it.p} although one has {best}", "order")
                    items.remove(it)
                else:
                    items[int(op[3])].p = int(op[5:])
            while items:
                it = r.setup(q.get_nowait)
                ctx.log("got", it.n, it.p)
                ctx.check(it.p == min(x.p for x in items), "popped out of order", "order")
                items.remove(it)
            ctx.check(q.empty(), "not empty", "twice")

    return body


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    N, P, C = "nowait", "put", "call"
    add("share", 1 if q else 3, [("a", N, "ok"), ("a", P, "ok"), ("b", C, "ok")], 1)
    add("share-exc", 1 if q else 2, [("a", N, "exc"), ("a", P, "ok"), ("b", C, "ise")], 1)
    add("share-cancel", 1 if q else 2, [("a", N, "ok"), ("a", P, "ok"), ("a", C, "ok")], 1, cancels=(0, 1))
    add("shield-cancel", 1 if q else 2, [("a", N + "-shield", "ok"), ("a", P + "-shield", "ok"), ("b", C, "ok")], 1, cancels=(0, 1))
    add("popular", 0 if q else 1, [("x", N, "ok"), ("a", N, "ok"), ("b", P, "ok"), ("b", N, "ok"), ("a", N, "ok")], 1)
    add("popular-cancel", 0 if q else 1, [("x", N, "ok"), ("a", N, "ok"), ("b", P + "-shield", "ok"), ("b", N + "-shield", "ok")], 1, cancels=(2, 3))
    add("late", 0 if q else 2, [("x", N, "ok"), ("a", N + "-late", "ok"), ("b", N + "-late", "ok"), ("b", N + "-late", "ok")], 1)
    add("drop", 1 if q else 3, [("x", N, "ok"), ("a", "nowait-drop", "ok"), ("a", N, "ok"), ("b", "call-drop", "exc")], 1)
    add("workers2", 1 if q else 2, [("a", N, "ok"), ("b", P, "exc"), ("c", N, "ok"), ("a", C, "ok")], 2)
    add("funccancel", 1 if q else 2, [("a", N, "cancel"), ("a", P, "ok"), ("b", N, "ok")], 1)
    add("kwargs", 1 if q else 3, [("a", N, "ok"), ("a", P, "ok"), ("a", C, "ok")], 1, kw=True)
    add("nameless", 1 if q else 3, [("a", N, "exc"), ("b", P, "ok")], 1, nameless=True, cancels=(0, 1))
    b = vpq()
    S.append(Scenario("variable-priority", functools.partial(b, depth=4 if q else 6), 0))
    return S
