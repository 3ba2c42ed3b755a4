"""C04: Semaphore — mutual exclusion to N holders, no lost wakeup, no leaked permit, FIFO, under all schedules
of callers and cancellations."""
import asyncio

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = [
    "callers run on one event loop (FIFO ready queue as in asyncio); environment events are callback-atomic",
    "at most 4 callers, 2 rounds each, permits 0..2",
]


def make(n, kinds, rounds=1, cancels=(), releaser=0, name_arg="", threadsafe=False):
    from a_sync import Semaphore, ThreadsafeSemaphore

    cls = ThreadsafeSemaphore if threadsafe else Semaphore

    def body(ctx):
        with Run(ctx) as r:
            loop = r.loop
            sem = r.setup(lambda: cls(n, name_arg))
            st = dict(permits=n, waiting=[], holders=[], unordered=set())

            def req(c):
                st["waiting"].append(c.name)
                ctx.log(c.name, "wait")

            def got(c):
                # FIFO among the callers that are still waiting
                # (a caller whose acquire runs in a task of its own has no known place in the queue)
                w = st["waiting"]
                w = w if c.name in st["unordered"] else [x for x in w if x not in st["unordered"]]
                ctx.check(w and (w[0] == c.name or c.name in st["unordered"]), lambda: f"{c.name} acquired before {w[0]}, which waited longer", "fifo")
                st["waiting"].remove(c.name)
                st["holders"].append(c.name)
                ctx.log(c.name, "got")
                ctx.check(
                    len(st["holders"]) <= st["permits"],
                    lambda: f"{len(st['holders'])} holders {st['holders']} with only {st['permits']} permits",
                    "mutex",
                )

            def gone(c):
                if c.name in st["waiting"]:
                    st["waiting"].remove(c.name)
                    ctx.log(c.name, "gave-up")

            def rel(c):
                if c.name in st["holders"]:
                    st["holders"].remove(c.name)
                    ctx.log(c.name, "rel")

            @sem
            async def decorated(c):
                got(c)
                try:
                    await r.gate(c, "rel")
                    return ("ret", c.name)
                finally:
                    rel(c)

            def client_fn(kind):
                async def fn(c):
                    for i in range(rounds):
                        if i:
                            await r.gate(c, "again")
                        try:
                            if kind == "with":
                                req(c)
                                async with sem:
                                    got(c)
                                    try:
                                        await r.gate(c, "rel")
                                    finally:
                                        rel(c)
                            elif kind == "exc":
                                req(c)
                                try:
                                    async with sem:
                                        got(c)
                                        try:
                                            await r.gate(c, "rel")
                                        finally:
                                            rel(c)
                                        raise KeyError(1)
                                except KeyError:
                                    pass
                            elif kind == "acq":
                                req(c)
                                x = await sem.acquire()
                                ctx.check(x is True, lambda: f"acquire returned {x!r}")
                                got(c)
                                try:
                                    await r.gate(c, "rel")
                                finally:
                                    rel(c)
                                    sem.release()
                            elif kind == "task":
                                # as wait_for does: acquire in a task of its own, cancelled with the caller
                                st["unordered"].add(c.name)
                                st["waiting"].append(c.name)
                                t = loop.create_task(sem.acquire())
                                try:
                                    await t
                                except asyncio.CancelledError:
                                    if t.done() and not t.cancelled():
                                        gone(c)
                                        sem.release()
                                    raise
                                got(c)
                                try:
                                    await r.gate(c, "rel")
                                finally:
                                    rel(c)
                                    sem.release()
                            elif kind == "split":
                                # the acquire object is made before it is awaited
                                co = sem.acquire()
                                try:
                                    await r.gate(c, "await")
                                except BaseException:
                                    close = getattr(co, "close", None)
                                    if close:
                                        close()
                                    raise
                                req(c)
                                await co
                                got(c)
                                try:
                                    await r.gate(c, "rel")
                                finally:
                                    rel(c)
                                    sem.release()
                            elif kind == "deco":
                                req(c)
                                x = await decorated(c)
                                ctx.check(x == ("ret", c.name), lambda: f"decorated call returned {x!r}")
                        finally:
                            gone(c)

                return fn

            for i, k in enumerate(kinds):
                c = r.client("ABCDE"[i], client_fn(k))
                if i in cancels:
                    # a cancelled caller no longer queues, wherever its task has got to
                    r.cancel_event(c, on=lambda c=c: st["unordered"].add(c.name))
            for i in range(releaser):
                def release():
                    st["permits"] += 1
                    ctx.log("release")
                    sem.release()
                r.event(f"release{i}", release)

            def quiescent():
                w, h = st["waiting"], st["holders"]
                if w and len(h) < st["permits"]:
                    ctx.fail(f"{w} wait for ever although only {len(h)} of {st['permits']} permits are held", "lost-wakeup")
                free = st["permits"] - len(h)
                ctx.check(
                    bool(sem.locked()) == (free == 0),
                    lambda: f"locked() is {bool(sem.locked())} with {free} free permits at quiescence",
                    "locked",
                )

            loop.on_quiescent = quiescent
            r.go()
            quiescent()
            # conservation: exactly the configured number of permits can be acquired
            for i in range(st["permits"]):
                res = r.try_run(sem.acquire())
                ctx.check(res[0] == "ok", f"a permit leaked: only {i} of {st['permits']} can be acquired at the end", "leak")
            res = r.try_run(sem.acquire())
            ctx.check(res[0] == "blocked", f"more than {st['permits']} permits exist at the end", "extra")
            ctx.log("end", st["permits"])

    return body


def per_thread(n):
    """Every thread has its own n permits, whatever the other thread holds; n is exact in each."""
    from a_sync import ThreadsafeSemaphore
    import threading

    def body(ctx):
        with Run(ctx) as r:
            sem = r.setup(lambda: ThreadsafeSemaphore(n))

            def op(run, kind):
                async def enter():
                    await sem.__aenter__()
                    return True

                async def leave():
                    await sem.__aexit__(None, None, None)

                if kind in ("enter", "acquire"):
                    res = run.try_run(enter() if kind == "enter" else sem.acquire())
                    if res[0] == "blocked":
                        res[1].cancel()
                        run.settle()
                    return res[0]
                if kind == "exit":
                    return run.try_run(leave())[0]
                with_loop = run.setup(sem.release)
                return "ok" if with_loop is None else "?"

            # two threads, each with a loop of its own; they take turns under the explorer's control
            cmd = {0: None, 1: None}
            res = {}
            ev_go = [threading.Semaphore(0), threading.Semaphore(0)]
            ev_done = threading.Semaphore(0)

            def other():
                with Run(ctx) as r2:
                    while True:
                        ev_go[1].acquire()
                        if cmd[1] == "stop":
                            break
                        try:
                            res[1] = op(r2, cmd[1])
                        except BaseException as e:  # noqa
                            res[1] = repr(e)
                        ev_done.release()
                ev_done.release()

            def start():
                # the same name as the first thread's, and often the identifier of a thread that ended
                t = threading.Thread(target=other, daemon=True, name=threading.current_thread().name)
                t.start()
                return t

            def stop(t):
                cmd[1] = "stop"
                ev_go[1].release()
                ev_done.acquire()
                t.join()

            t = start()
            held = [0, 0]
            replaced = False
            try:
                for step in range(5):
                    opts = []
                    for th in (0, 1):
                        opts += [(th, "enter"), (th, "acquire")]
                        if held[th]:
                            opts += [(th, "exit"), (th, "release")]
                    if held[1] and not replaced:
                        opts.append((1, "replace"))
                    th, kind = ctx.pick(opts, "op ")
                    if kind == "replace":
                        # the thread ends without giving back what it holds, another one takes its part
                        replaced = True
                        stop(t)
                        t = start()
                        held[1] = 0
                        ctx.log(th, kind)
                        ctx.step()
                        continue
                    if th == 0:
                        out = op(r, kind)
                    else:
                        cmd[1] = kind
                        ev_go[1].release()
                        ev_done.acquire()
                        out = res[1]
                    ctx.log(th, kind, out)
                    ctx.step()
                    if kind in ("enter", "acquire"):
                        want = "ok" if held[th] < n else "blocked"
                        ctx.check(out == want, lambda: f"thread {th}: {kind} with {held[th]} of {n} permits held "
                                  f"in this thread and {held[1-th]} in the other: {out}, expected {want}", "per-thread")
                        if out == "ok":
                            held[th] += 1
                    else:
                        ctx.check(out == "ok", lambda: f"thread {th}: {kind}: {out}", "release")
                        held[th] -= 1
            finally:
                stop(t)

    return body


def dummy(ctx):
    from a_sync.primitives.locks import DummySemaphore

    with Run(ctx) as r:
        sem = r.setup(lambda: DummySemaphore("x"))

        async def use():
            async with sem:
                return 1

        for i in range(6):
            k = ctx.pick(["acquire", "release", "with"])
            if k == "acquire":
                res = r.try_run(sem.acquire())
                ctx.check(res == ("ok", True), lambda: f"acquire: {res}")
            elif k == "with":
                res = r.try_run(use())
                ctx.check(res == ("ok", 1), lambda: f"with: {res}")
            else:
                sem.release()
            ctx.log(k)
            ctx.step()


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    add("n1-with3-cancelB", 2 if q else 4, 1, ["with", "with", "with"], cancels=(1,))
    add("n1-with3-cancelall", 1 if q else 3, 1, ["with", "acq", "with"], cancels=(0, 1, 2))
    add("n1-two-rounds", 1 if q else 3, 1, ["with", "acq"], rounds=2, cancels=(0, 1))
    add("n2-with4", 1 if q else 2, 2, ["with", "acq", "deco", "exc"], cancels=(2,) if q else (1, 2))
    add("n2-acq3", 1 if q else 3, 2, ["acq", "acq", "acq"], cancels=(0, 1, 2))
    add("n1-task", 2 if q else 4, 1, ["task", "task", "with"], cancels=(0, 1) if q else (0, 1, 2))
    add("n1-split", 2 if q else 4, 1, ["split", "with", "split"], cancels=(0,) if q else (0, 1))
    add("n1-split-task", 2 if q else 4, 1, ["split", "task"], cancels=(0, 1))
    add("n1-deco-exc", 2 if q else 4, 1, ["deco", "exc", "deco"], cancels=(1,))
    add("n0-release", 2 if q else 4, 0, ["with", "acq"], cancels=(0, 1), releaser=2)
    add("n1-extra-release", 1 if q else 3, 1, ["with", "task", "acq"], cancels=(1,), releaser=1)
    add("threadsafe-n1", 1 if q else 3, 1, ["with", "acq", "task"], cancels=(0, 2), threadsafe=True)
    add("threadsafe-n2", 1 if q else 2, 2, ["with", "acq", "deco"], rounds=1, cancels=(1,), threadsafe=True)
    add("threadsafe-split", 1 if q else 3, 1, ["split", "acq", "with"], cancels=(0,), threadsafe=True)
    S.append(Scenario("threadsafe-per-thread-n1", per_thread(1)))
    S.append(Scenario("threadsafe-per-thread-n2", per_thread(2)))
    S.append(Scenario("dummy", dummy))
    if not q:
        add("n1-with4-cancel2", 2, 1, ["with", "task", "acq", "split"], cancels=(1, 2))
        add("n2-rounds2", 2, 2, ["with", "acq", "with"], rounds=2, cancels=(1,))
    return S
