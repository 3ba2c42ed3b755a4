"""C09: ProcessingQueue / PriorityProcessingQueue — every item processed exactly once, result to the right caller,
at most num_workers at a time, no idle worker while work waits, one item's fate never disturbs another's."""
import asyncio
import functools

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 4 items from up to 4 callers, 1-2 workers, one event loop; processing functions that finish when "
               "the environment says so, with a result, an exception, an InvalidStateError or a cancellation"]


class Boom(Exception):
    pass


def make(items, workers, cancels=(), prio=False, nodata=False, close_after=False, nameless=False, smartkw=False):
    """items: list of (how to put, outcome, priority)"""
    from a_sync.primitives.queue import ProcessingQueue, PriorityProcessingQueue

    def body(ctx):
        with Run(ctx) as r:
            running, started, finished = [], [], []
            queued = []  # (priority, seq, i)
            futs = {}

            def unwanted(i):
                """cancelled by its caller before its turn"""
                return i in futs and futs[i].cancelled() and i not in started

            gates = {}
            excs = {}
            put = []
            st = dict(seq=0, closed=False)

            async def func(i, *, kw=None):
                ctx.check(kw == i * 10, lambda: f"item {i} was processed with kw={kw}", "args")
                ctx.log("start", i)
                ctx.check(i in put, f"item {i} was processed but never put", "args")
                ctx.check(i not in started, f"item {i} was processed twice", "twice")
                ctx.check(not unwanted(i), f"item {i} was processed although its caller had cancelled it", "unwanted")
                mine = [x for x in queued if x[2] == i][0]
                wanted = [x for x in queued if not unwanted(x[2])]
                best = min(wanted) if prio else min(wanted, key=lambda x: x[1])
                ctx.check(mine == best, lambda: f"item {mine} was started before {best}", "order")
                queued.remove(mine)
                started.append(i)
                running.append(i)
                ctx.check(len(running) <= workers, lambda: f"{len(running)} items are processed at once, with {workers} workers", "workers")
                try:
                    outcome = items[i][1]
                    if not outcome.startswith("now-"):
                        gates[i] = r.loop.create_future()
                        await gates[i]
                    outcome = outcome.replace("now-", "")
                    if outcome == "exc":
                        excs[i] = Boom(i)
                        raise excs[i]
                    if outcome == "ise":
                        excs[i] = asyncio.InvalidStateError(i)
                        raise excs[i]
                    if outcome == "cancel":
                        raise asyncio.CancelledError
                    return ("result", i)
                finally:
                    running.remove(i)
                    finished.append(i)
                    ctx.log("finish", i)

            f = functools.partial(func) if nameless else func
            cls = PriorityProcessingQueue if prio else ProcessingQueue
            q = r.setup(lambda: cls(f, workers, return_data=False, name="q") if nodata else cls(f, workers))

            def client_fn(i):
                how, outcome, pr = items[i]

                async def fn(c):
                    args = (pr, i) if prio else (i,)
                    refused = st["closed"]
                    if not refused:
                        st["seq"] += 1
                        queued.append((pr, st["seq"], i))
                        put.append(i)
                    try:
                        if how.startswith("put"):
                            fut = await q.put(*args, kw=i * 10)
                        elif how.startswith("call"):
                            fut = q(*args, kw=i * 10)
                        else:
                            fut = q.put_nowait(*args, kw=i * 10)
                    except RuntimeError:
                        ctx.check(refused, "put was refused although the queue is not closed", "closed")
                        ctx.log(c.name, "refused")
                        return
                    ctx.check(not refused, "put was accepted although the queue is closed", "closed")
                    ctx.log(c.name, "put", i)
                    if nodata:
                        ctx.check(fut is None, lambda: f"put returned {fut!r} with return_data=False", "nodata")
                        return
                    futs[i] = fut
                    if how.endswith("drop"):
                        fut = None
                        return
                    try:
                        res = await fut
                        ctx.log(c.name, "result", res)
                        ctx.check(outcome.endswith("ok") and res == ("result", i), lambda: f"the caller of item {i} got {res}", "result")
                    except asyncio.CancelledError:
                        ctx.log(c.name, "cancelled")
                        if not c.cancel_requested:
                            ctx.check(outcome.endswith("cancel") and i in finished, f"the caller of item {i} was cancelled for no reason", "result")
                        else:
                            raise
                    except Exception as e:
                        ctx.log(c.name, "exc", type(e).__name__)
                        ctx.check(excs.get(i) is e, lambda: f"the caller of item {i} got {e!r} instead of the exception raised", "result")

                return fn

            for i in range(len(items)):
                c = r.client(f"P{i}", client_fn(i))
                if i in cancels:
                    r.cancel_event(c)
                r.event(f"finish{i}", lambda i=i: gates[i].set_result(None), lambda i=i: i in gates and not gates[i].done())
            if close_after:
                def close():
                    st["closed"] = True
                    ctx.log("close")
                    q.close()
                r.event("close", close)

            def quiescent():
                n = len([x for x in queued if not unwanted(x[2])]) + len(running)
                ctx.check(len(running) == min(n, workers), lambda: f"{len(running)} running and {len(queued)} waiting with {workers} workers", "idle")
                blocked = [c.name for c in r.clients if c.task is not None and not c.done and int(c.name[1:]) in finished]
                ctx.check(not blocked, lambda: f"{blocked} still wait for items that were processed", "hang")

            r.loop.on_quiescent = quiescent
            r.go()
            quiescent()
            want = sorted(i for i in put if not unwanted(i))
            ctx.check(sorted(finished) == want, lambda: f"put {want} but processed {sorted(finished)}", "exactly-once")
            res = r.try_run(q.join())
            ctx.check(res[0] == "ok", lambda: f"join() after everything was processed: {res[0]}", "join")
            # the queue still works
            if not st["closed"]:
                i = len(items)
                items.append(("nowait", "now-ok", 0))
                try:
                    queued.append((0, st["seq"] + 1, i))
                    put.append(i)

                    async def again():
                        fut = q.put_nowait(*((0, i) if prio else (i,)), kw=i * 10)
                        if nodata:
                            return await q.join()
                        return await fut

                    res = r.try_run(again())
                    ctx.check(res == ("ok", None if nodata else ("result", i)), lambda: f"a later item: {res}", "later")
                finally:
                    items.pop()
            q.close()

    return body


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    N, P, C = "nowait", "put", "call"
    add("w1-ok3", 1 if q else 3, [(N, "ok", 0), (P, "ok", 0), (C, "ok", 0)], 1)
    add("w2-mixed", 1 if q else 2, [(N, "ok", 0), (P, "exc", 0), (C, "ok", 0)], 2)
    add("w1-cancel", 1 if q else 3, [(N, "ok", 0), (P, "exc", 0), (N, "now-ok", 0)], 1, cancels=(0, 1))
    add("w1-drop", 1 if q else 3, [("nowait-drop", "ok", 0), ("call-drop", "exc", 0), ("put-drop", "now-ok", 0), (N, "ok", 0)], 1)
    add("w1-ise", 1 if q else 3, [(N, "ise", 0), (P, "ok", 0), (N, "now-ise", 0)], 1, cancels=(0,))
    add("w1-funccancel", 1 if q else 3, [(N, "cancel", 0), (P, "ok", 0), (N, "now-cancel", 0)], 1)
    add("w2-funccancel", 1 if q else 2, [(N, "cancel", 0), (P, "ok", 0), (N, "ok", 0)], 2, cancels=(1,))
    add("w2-4", 0 if q else 1, [(N, "ok", 0), (N, "now-exc", 0), (P, "ok", 0), (C, "exc", 0)], 2)
    add("nodata", 1 if q else 3, [(N, "ok", 0), (P, "exc", 0), (C, "now-cancel", 0)], 1, nodata=True)
    add("nodata-w2", 1 if q else 2, [(N, "ise", 0), (P, "ok", 0), (C, "cancel", 0)], 2, nodata=True)
    add("close", 1 if q else 3, [(N, "ok", 0), (P, "ok", 0), (C, "now-ok", 0)], 1, close_after=True)
    add("nameless", 1 if q else 3, [(N, "ok", 0), (N, "exc", 0)], 1, cancels=(0, 1), nameless=True)
    add("prio-w1", 1 if q else 2, [(N, "ok", 3), (P, "ok", 1), (C, "exc", 2), (N, "now-ok", 0)], 1, prio=True)
    add("prio-ties", 1 if q else 2, [(N, "ok", 1), (P, "ok", 1), (N, "ok", 0)], 1, prio=True, cancels=(1,))
    add("prio-w2", 0 if q else 1, [(N, "ok", 1), (P, "cancel", 2), (N, "ise", 0), (N, "ok", 0)], 2, prio=True)
    add("prio-nodata", 0 if q else 2, [(N, "ok", 2), (P, "exc", 1), (N, "ok", 0)], 1, prio=True, nodata=True)
    return S
