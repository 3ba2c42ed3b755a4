"""C11: create_task — the task has the awaitable's outcome; skip_gc_until_done keeps it alive until it is done and no
longer; one task's failure or cancellation never shows up in another create_task call."""
import asyncio
import functools
import gc
import sys
import weakref

from mc.explore import Scenario
from mc.loop import Run, _Running

ASSUMPTIONS = ["up to 3 tasks on one event loop; every order of create, finish, cancel, drop the last reference, collect "
               "garbage and run a loop step, up to a length bound"]


class Boom(Exception):
    pass


def body(ctx, specs, depth, simple=False):
    from a_sync.asyncio import create_task
    from a_sync.exceptions import PersistedTaskException

    # nothing of an earlier execution that failed (only a convenience: independent replays)
    getattr(sys.modules["a_sync.asyncio.create_task"], "__persisted_tasks", set()).clear()
    with Run(ctx) as r:
        loop = r.loop
        reports, destroyed = [], []
        tags = {}

        def handler(lp, context):
            e = context.get("exception")
            if "never retrieved" in context["message"]:
                reports.append(type(e))
            elif "destroyed" in context["message"]:
                destroyed.append(context["task"].get_name())

        loop.set_exception_handler(handler)
        gates, held, weak, state = {}, {}, {}, {}

        def awaitable(i, outcome, kind):
            async def work():
                fut = loop.create_future()
                gates[i] = weakref.ref(fut)
                state[i] = "running"
                try:
                    await fut
                except asyncio.CancelledError:
                    state[i] = "cancelled"
                    raise
                state[i] = "done"
                if outcome == "exc":
                    raise Boom(i)
                if outcome == "rt":
                    raise RuntimeError(i)
                if outcome == "selfcancel":
                    raise asyncio.CancelledError
                return ("result", i)

            if kind == "coro":
                return work()
            if kind == "future":
                fut = loop.create_future()
                gates[i] = weakref.ref(fut)
                return fut

            class Obj:
                def __await__(self):
                    return work().__await__()

            return Obj()

        def create(i):
            outcome, kind, name, skip, logd = specs[i]
            state[i] = "created"
            a = awaitable(i, outcome, kind)
            try:
                t = create_task(a, name=name, skip_gc_until_done=skip, log_destroy_pending=logd)
            except BaseException as e:
                ctx.fail(f"create_task for task {i} raised {e!r}", "raises")
            ctx.check(isinstance(t, asyncio.Task), "create_task did not return a task", "result")
            if name:
                ctx.check(t.get_name() == name, lambda: f"the name is {t.get_name()!r}, not {name!r}", "name")
            held[i] = t
            weak[i] = weakref.ref(t)

        def finish(i):
            f = gates[i]()
            if specs[i][1] == "future":
                state[i] = "done"
                {"ok": lambda: f.set_result(("result", i)), "exc": lambda: f.set_exception(Boom(i)),
                 "rt": lambda: f.set_exception(RuntimeError(i)), "selfcancel": f.cancel}[specs[i][0]]()
            else:
                f.set_result(None)
            finished.add(i)

        def outcome_ok(i):
            """the caller's view of a finished task it still holds"""
            t, out, kind = held[i], specs[i][0], specs[i][1]
            if i in cancelled and (t.cancelled()):
                return
            if out == "selfcancel":
                ctx.check(t.cancelled(), lambda: f"task {i} whose awaitable was cancelled: {t}", "result")
            elif out == "ok":
                ctx.check(not t.cancelled() and t.exception() is None and t.result() == ("result", i), lambda: f"task {i}: {t}", "result")
            else:
                ctx.check(not t.cancelled(), f"task {i} was cancelled for no reason", "result")
                e = t.exception()
                if out == "exc":
                    ctx.check(isinstance(e, Boom) and e.args == (i,), lambda: f"task {i}: {e!r}", "result")
                else:
                    # RuntimeErrors of non-coroutine awaitables are re-raised with context
                    ctx.check(isinstance(e, RuntimeError) and (e.args == (i,) or kind != "coro" and e.args[0].args == (i,)),
                              lambda: f"task {i}: {e!r}", "result")
            ctx.log("outcome", i, out)

        n = 0
        finished, cancelled, dropped = set(), set(), set()
        try:
            for step in range(depth):
                opts = []
                if n < len(specs):
                    opts.append("create")
                for i in range(n):
                    alive = i in gates and gates[i]() is not None
                    if alive and i not in finished and i not in cancelled:
                        opts.append(f"finish{i}")
                    if i in held and i not in finished and i not in cancelled:
                        opts.append(f"cancel{i}")
                    if i in held:
                        opts.append(f"drop{i}")
                if dropped:
                    opts.append("gc")
                if loop._ready:
                    opts.append("run")
                    if not simple:
                        opts.append("step")
                if not opts:
                    break
                op = opts[ctx.choose(opts)]
                ctx.step()
                with _Running(loop):
                    if op == "create":
                        create(n)
                        n += 1
                    elif op.startswith("finish"):
                        finish(int(op[6:]))
                    elif op.startswith("cancel"):
                        i = int(op[6:])
                        cancelled.add(i)
                        held[i].cancel()
                    elif op.startswith("drop"):
                        i = int(op[4:])
                        del held[i]
                        dropped.add(i)
                    elif op == "gc":
                        gc.collect()
                        for i in range(n):
                            if specs[i][3] and state[i] in ("created", "running"):
                                if not (i in finished or i in cancelled):
                                    ctx.check(weak[i]() is not None, f"task {i} was garbage collected before it was done", "collected")
                    elif op == "run":
                        while loop._ready:
                            loop._exec(loop._ready.popleft())
                    else:
                        loop._exec(loop._ready.popleft())
            # wind up: everything that is alive finishes
            while n < len(specs):
                with _Running(loop):
                    create(n)
                n += 1
            r.settle()
            gc.collect()
            for i in range(n):
                if i not in finished and i not in cancelled:
                    if specs[i][3] or i in held:
                        ctx.check(gates[i]() is not None, f"task {i} was garbage collected before it was done", "collected")
                    if gates[i]() is not None:
                        finish(i)
                        r.settle()
            r.settle()
            for i in range(n):
                if i in held:
                    ctx.check(held[i].done(), f"task {i} is still pending", "result")
                    outcome_ok(i)
                elif specs[i][3] and i not in cancelled:
                    ctx.check(state[i] == "done", f"task {i} did not run to its end", "collected")
            # the next call sees nothing of the earlier ones
            async def probe():
                return await create_task(asyncio.sleep(0, "probe"))
            for k in range(2):
                res = r.try_run(probe())
                ctx.check(res == ("ok", "probe"), lambda: f"a later create_task: {res}", "raises")
            # asyncio's own reports of tasks nobody looked at are not under check: only those of persisted tasks
            want = sorted((i, ) for i in range(n) if specs[i][3] and specs[i][0] in ("exc", "rt")
                          and i in finished and not (i in cancelled))
            got = [x for x in reports if x is PersistedTaskException]
            ctx.check(len(got) == len(want), lambda: f"{len(want)} persisted tasks failed but {len(got)} failures were reported", "report")
            held.clear()
            t = None
            gc.collect()
            leak = [i for i in range(n) if weak[i]() is not None]
            ctx.check(not leak, lambda: f"finished tasks {leak} are never released", "leak")
            named = [specs[i][2] for i in range(n) if specs[i][2] and not specs[i][4]]
            bad = [x for x in destroyed if x in named]
            ctx.check(not bad, lambda: f"the destruction of {bad} was logged although log_destroy_pending=False", "destroy")
            ctx.log("end", len(got), len(destroyed))
        finally:
            held.clear()


def scenarios(tier):
    q = tier == "quick"
    S = []
    d = 7 if q else 9

    def add(name, specs, depth=d, **k):
        S.append(Scenario(name, functools.partial(body, specs=specs, depth=depth, **k), 0))

    # (outcome, kind, name, skip_gc_until_done, log_destroy_pending)
    for out in ("ok", "exc", "rt", "selfcancel"):
        for kind in ("coro", "object", "future"):
            add(f"one-{out}-{kind}-persist", [(out, kind, "t", True, True)], d + 2)
            add(f"one-{out}-{kind}", [(out, kind, "t", False, False)], d + 2)
    add("persist-ok-exc", [("ok", "coro", "a", True, True), ("exc", "coro", "b", True, True)], simple=q)
    add("persist-cancel-exc", [("selfcancel", "coro", "", True, True), ("exc", "object", "b", True, False)], simple=q)
    add("mixed", [("ok", "coro", "a", False, False), ("exc", "coro", "b", True, True), ("ok", "future", "c", True, True)], simple=True)
    add("plain-persist", [("exc", "coro", "a", False, True), ("ok", "coro", "b", True, True)], simple=q)
    return S
