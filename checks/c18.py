"""C18: executors — every submitted call runs exactly once and its outcome reaches its future; up to max_workers calls run at once
whenever there are that many, also after idle threads were pruned; idle threads end, shutdown ends, nothing is lost on the way."""
import asyncio
import functools
import gc
import os
import sys

from mc.explore import Scenario
from mc import threads as T

ASSUMPTIONS = ["PruningThreadPoolExecutor: up to 3 workers, 4 calls, 2 submitting threads; a switch is possible before every line of "
               "a_sync/executor.py and at every lock operation of concurrent.futures; the futures are concurrent ones (asyncio's "
               "wrap_future is trusted in those scenarios)"]


class Boom(Exception):
    pass


class World:
    """the source of a_sync/executor.py on cooperative threads"""

    def __init__(self, ctx, max_timeouts=2, free=True):
        import a_sync.executor as real

        self.ctx = ctx
        self.critical = []
        fm = T.futures()
        fm["concurrent.futures._base"].LOGGER.disabled = True
        log = self.critical

        class Logger:
            def critical(self, msg, *a, **k):
                log.append((msg, repr(sys.exc_info()[1])))

            exception = error = critical
        fm["concurrent.futures._base"].LOGGER = Logger()
        coop = fm["concurrent.futures._base"].Future
        orig = asyncio.futures.wrap_future
        asyncio.futures.wrap_future = asyncio.wrap_future = lambda f, **k: f if isinstance(f, coop) else orig(f, **k)
        ctx.cleanups.append(lambda: (setattr(asyncio.futures, "wrap_future", orig), setattr(asyncio, "wrap_future", orig)))

        class Daemon:
            __slots__ = ()

            def __getattr__(self, name):  # whatever it is called
                if "daemon" in name:
                    return lambda *a, **k: None
                raise AttributeError(name)
        fm["a_sync.primitives._debug"] = T._module("a_sync.primitives._debug", _DebugDaemonMixin=Daemon, __getattr__=lambda name: Daemon)
        self.path = real.__file__
        with_killed = T.CUR
        assert with_killed is None
        self.mod = T.load("a_sync.executor", self.path, fm, "a_sync")
        self.fm = fm
        self.s = T.Sched(ctx, [self.path], max_timeouts=max_timeouts, free=free)


class Work:
    """the submitted calls, seen by the monitor"""

    def __init__(self, ctx, s, limit):
        self.ctx, self.s, self.limit = ctx, s, limit
        self.started, self.ended = [], []
        self.running = set()
        self.gates = {}
        self.futs = {}
        self.refused = set()

    def __call__(self, i, kind):
        self.started.append(i)
        if self.started.count(i) > 1:
            self.s.fail(f"call {i} runs twice")
        self.running.add(i)
        if len(self.running) > self.limit:
            self.s.fail(f"{len(self.running)} calls run at once with max_workers={self.limit}")
        if kind == "gate":
            self.s.block(lambda: self.gates.get(i))
        self.running.discard(i)
        self.ended.append(i)
        if kind == "exc":
            raise Boom(i)
        return i

    def submit(self, ex, i, kind):
        try:
            self.futs[i] = ex.submit(self, i, kind)
        except RuntimeError:
            self.refused.add(i)

    def check(self, kinds, all_done=False):
        """at rest"""
        ctx = self.ctx
        accepted = [i for i in self.futs]
        open_ = [i for i in accepted if i not in self.ended and not self.futs[i].cancelled()]
        ctx.log("rest", sorted(self.running), sorted(self.ended))
        ctx.check(len(self.running) == min(self.limit, len(open_)),
                  lambda: f"{len(open_)} calls are open, max_workers={self.limit}, but {len(self.running)} run: {sorted(self.running)}", "parallel")
        for i in accepted:
            f = self.futs[i]
            if i in self.ended:
                ctx.check(f.done(), f"the future of call {i} is not done", "future")
                if not f.cancelled():
                    e = f.exception()
                    if kinds[i] == "exc":
                        ctx.check(type(e) is Boom and e.args == (i,), f"future {i}: {e!r}", "future")
                    else:
                        ctx.check(e is None and f.result() == i, f"future {i}: {e!r}", "future")
        if all_done:
            ctx.check(not open_, lambda: f"calls {open_} were never run", "lost")


def pool(ctx, workers, kinds, script, timeouts=2, submitters=1, initializer=None, free=True):
    """script: list of s<i> (submit), g<i> (open the gate of call i), q (rest), t (everybody times out), d (drop), x (shutdown)"""
    w = World(ctx, timeouts, free)
    gc.disable()
    try:
        with w.s as s:
            ex = w.mod.PruningThreadPoolExecutor(workers, timeout=60)
            k = Work(ctx, s, workers)
            others = []
            for op in script:
                if op[0] == "s":
                    k.submit(ex, int(op[1:]), kinds[int(op[1:])])
                elif op[0] == "S":  # in another thread
                    i = int(op[1:])
                    th = T.Thread(target=k.submit, args=(ex, i, kinds[i]), name=f"sub{i}")
                    th.start()
                    others.append(th)
                elif op[0] == "g":
                    k.gates[int(op[1:])] = True
                elif op[0] == "c":
                    k.futs[int(op[1:])].cancel()
                elif op[0] == "q":
                    s.quiesce()
                    k.check(kinds)
                elif op[0] == "t":
                    s.quiesce()
                    s.expire()
                    k.check(kinds)
                elif op[0] == "1":
                    s.quiesce()
                    for _ in range(workers + 1):
                        s.expire()
                    ctx.check(len(ex) == 1, lambda: f"{len(ex)} threads remain of an idle executor", "pruned")
                    n = sum(1 for t in s.threads if t.name.startswith("w") and not t.done) - sum(1 for t in others if t.is_alive())
                    ctx.check(n == 1, lambda: f"{n} threads live", "pruned")
                elif op[0] == "x":
                    try:
                        ex.shutdown(wait=op != "xn", cancel_futures=op == "xc")
                    except T.Kill:
                        raise
                    except Exception as e:
                        ctx.fail(f"shutdown: {e!r}", "shutdown")
                    if op != "xn":
                        ctx.check(not any(t.name.startswith("w") and not t.done and t.thread not in others for t in s.threads), "threads live after shutdown", "shutdown")
                elif op[0] == "d":
                    ex = None
            s.quiesce()
            if "d" in script or any(o[0] == "x" for o in script):
                for g in range(len(kinds)):
                    k.gates[g] = True
                s.quiesce()
                live = [t.name for t in s.threads[1:] if not t.done]
                ctx.check(not live, lambda: f"threads {live} never end", "ends")
                if "xc" in script:
                    bad = [i for i, f in k.futs.items() if not f.done()]
                    ctx.check(not bad, lambda: f"the futures of {bad} never end", "lost")
                else:
                    k.check(kinds, all_done=True)
            else:
                k.check(kinds)
            errs = [repr(t.exc) for t in s.threads[1:] if t.exc is not None]
            ctx.check(not errs, lambda: f"a thread died: {errs}", "died")
            ctx.check(not w.critical, lambda: f"logged: {w.critical}", "critical")
            ctx.log(sorted(k.ended), len(s.threads))
    finally:
        gc.enable()


def double(x, y=0):
    if x < 0:
        raise Boom(x)
    return x + y


def aio(ctx, kinds):
    """the executors as they are, under a real event loop: run() and submit(), also in sync mode (max_workers=0)"""
    import threading

    from a_sync import executor as X

    cls = getattr(X, ctx.pick(kinds, "class="))
    workers = ctx.pick([0, 1, 2] if "Process" not in cls.__name__ else [0, 1], "max_workers=")
    n = ctx.pick([1, 2, 3] if "Process" not in cls.__name__ else [1, 2], "calls=")
    plan = [(ctx.pick(["run", "submit"], "how="), ctx.pick(["ok", "exc"], "outcome=")) for _ in range(n)]
    main = threading.get_ident()
    calls = []
    ex = cls(workers)

    def fn(i, y=0):
        calls.append((i, threading.get_ident()))
        return double(i, y)

    use = double if "Process" in cls.__name__ else fn

    async def go():
        aws = []
        for i, (how, o) in enumerate(plan):
            x = i + 1 if o == "ok" else -i - 1
            a = getattr(ex, how)(use, x, y=10)
            if how == "submit":
                ctx.check(asyncio.isfuture(a), f"{a!r}", "future")
                if workers == 0:
                    ctx.check(a.done() and (use is double or len(calls) == sum(h == "submit" for h, _ in plan[:i + 1])), "sync mode did not run at once", "sync")
            aws.append(a)
        return await asyncio.wait_for(asyncio.gather(*aws, return_exceptions=True), 60)

    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        res = loop.run_until_complete(go())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
        ex.shutdown(wait=True)
    ctx.log([repr(r) for r in res])
    for i, ((how, o), r) in enumerate(zip(plan, res)):
        if o == "ok":
            ctx.check(r == i + 11, f"{cls.__name__}({workers}).{how}: {r!r}", "result")
        else:
            ctx.check(type(r) is Boom and r.args == (-i - 1,), f"{cls.__name__}({workers}).{how}: {r!r}", "exception")
    if use is fn:
        ctx.check(sorted(abs(c[0]) for c in calls) == list(range(1, n + 1)), f"calls {calls}", "once")
        ctx.check(all((c[1] == main) == (workers == 0) for c in calls), f"wrong thread: {calls}", "thread")


PROGRAM = """
import asyncio, os, threading, time
from a_sync import a_sync
from a_sync.executor import AsyncThreadPoolExecutor, PruningThreadPoolExecutor
ex = {executor}
def work(i):
    time.sleep(0.01 * (i + 1) if i < 50 else 0.03)
    os.write(1, b"ran %d\\n" % i)
    return i
fn = a_sync(work, default="async", executor=ex)
keep = []
async def main(n):
    if {first}:
        await asyncio.wait([ex.submit(work, 100 // {first} + i) for i in range({first})])
        time.sleep({pause})
    for i in range(n):
        keep.append(ex.submit(work, i) if {submit} else asyncio.ensure_future(fn(i)))
    await asyncio.sleep(0)  # the calls start
    await asyncio.sleep(0)
    if {end!r} == "await":
        await asyncio.wait(keep)
def program():
    if {end!r} == "raise":
        asyncio.run(main({n}))
        raise SystemExit(3)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    loop.run_until_complete(main({n}))
if {thread}:
    t = threading.Thread(target=program)
    t.start()
    t.join()
else:
    program()
"""


def leaves(ctx):
    """a program that ends without waiting for its executor: what was submitted runs, as with any executor, and the program ends"""
    import os
    import subprocess
    import sys

    import a_sync

    executor = ctx.pick(["PruningThreadPoolExecutor(2)", "PruningThreadPoolExecutor(1)", "PruningThreadPoolExecutor(2, timeout=0.02)"], "executor=")
    n = ctx.pick([0, 1, 3], "calls=")
    first = ctx.pick([0, 2, 1], "idle threads=")
    submit = ctx.pick([True, False], "submit=") if n else True
    end = ctx.pick(["return", "raise", "await"] if n else ["return"], "end=")
    thread = ctx.pick([False, True], "in thread=")
    if end == "raise":
        submit = True  # asyncio.run() cancels the tasks it finds
    code = PROGRAM.format(executor=executor, n=n, first=first, pause=0.1 if "timeout" in executor else 0.0, submit=submit, end=end, thread=thread)
    root = os.path.dirname(os.path.dirname(a_sync.__file__))
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=60, cwd=root,
                           env=dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        ctx.fail("the program does not end", "exit")
        return
    ran = sorted(p.stdout.split("\n")[:-1])
    ctx.log(ran, p.returncode)
    want = sorted([f"ran {i}" for i in range(n)] + [f"ran {100 // first + i}" for i in range(first)])
    # what is only about to be submitted when the loop is closed is not
    ctx.check(ran == want, lambda: f"{ran} instead of {want}: {p.stderr[-300:]}", "lost")
    ctx.check(p.returncode == (3 if end == "raise" and not thread else 0), lambda: f"the program ended with {p.returncode}: {p.stderr[-300:]}", "exit")


def broken(ctx, n):
    """the initializer of a worker fails: nobody waits for ever"""
    w = World(ctx, 1)
    bad = ctx.pick([True, False], "initializer fails=")
    gc.disable()
    try:
        with w.s as s:
            inits = []

            def init(x):
                inits.append(x)
                if bad:
                    raise Boom
            ex = w.mod.PruningThreadPoolExecutor(2, "", init, (5,), timeout=60)
            k = Work(ctx, s, 2)
            for i in range(n):
                k.submit(ex, i, "quick")
            s.quiesce()
            ctx.check(set(inits) == {5}, f"initializer: {inits}", "init")
            if bad:
                ctx.check(not k.ended and all(f.done() and f.exception() is not None for f in k.futs.values()), "a broken executor ran something or left it", "broken")
                k.submit(ex, 9, "quick")
                ctx.check(9 in k.refused, "a broken executor takes calls", "broken")
            else:
                k.check(["quick"] * n, all_done=True)
            ctx.log(len(inits), sorted(k.ended))
    finally:
        gc.enable()


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn=pool, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound))

    b = 2 if q else 3
    add("two-calls", b, workers=2, kinds=["gate", "gate"], script=["s0", "s1", "q", "g0", "q", "g1", "q", "1"])
    add("idle-reused", b, workers=2, kinds=["quick", "gate", "gate"], script=["s0", "s1", "s2", "q", "g1", "q", "1"])
    add("exceptions", b, workers=2, kinds=["exc", "gate", "exc"], script=["s0", "s1", "s2", "q", "g1", "q"])
    add("full", b, workers=1, kinds=["gate", "quick", "gate"], script=["s0", "s1", "s2", "q", "g0", "q", "g2", "q"])
    add("submitters", b, free=False, workers=2, kinds=["gate", "gate", "quick"], script=["S0", "S1", "s2", "q", "g0", "q", "g1", "q", "1"])
    add("prune-race", b, free=not q, workers=2, kinds=["quick", "quick", "gate", "gate"], script=["s0", "s1", "q", "s2", "s3", "q", "g2", "g3", "q", "1"], timeouts=2)
    add("burst-prune", b - 1, workers=2, kinds=["quick"] * 4 + ["gate", "gate"], timeouts=1,
        script=["s0", "s1", "s2", "s3", "q", "t", "t", "s4", "s5", "q", "g4", "g5", "q", "1"])
    add("gated-burst-prune", b - 1, workers=2, kinds=["gate"] * 4 + ["gate", "gate"], timeouts=1,
        script=["s0", "s1", "s2", "s3", "q", "g0", "g1", "g2", "g3", "q", "t", "s4", "s5", "q", "g4", "g5", "q", "1"])
    add("three", b - 1, workers=3, kinds=["gate"] * 3, script=["s0", "s1", "s2", "q", "g1", "q", "g0", "g2", "q", "1"])
    add("cancel", b, workers=1, kinds=["gate", "quick", "quick"], script=["s0", "s1", "s2", "c1", "q", "g0", "q"])
    add("shutdown", b, workers=2, kinds=["quick", "quick"], script=["s0", "s1", "x"], timeouts=2)
    add("shutdown-idle", b, workers=2, kinds=["quick", "quick"], script=["s0", "s1", "q", "x"], timeouts=2)
    add("shutdown-nowait", b, workers=2, kinds=["gate", "quick"], script=["s0", "s1", "xn", "g0", "q", "s1"], timeouts=1)
    add("shutdown-cancel", b, workers=1, kinds=["quick", "quick", "quick"], script=["s0", "s1", "s2", "xc"], timeouts=1)
    add("dropped", b, workers=2, kinds=["quick", "quick"], script=["s0", "s1", "q", "t", "d"], timeouts=2)
    add("dropped-busy", b, workers=2, kinds=["gate", "quick"], script=["s0", "s1", "d", "q", "g0", "q"], timeouts=1)
    add("initializer", b, broken, n=2)
    add("exit", 0, leaves)
    add("asyncio", 0, aio, kinds=["AsyncThreadPoolExecutor", "PruningThreadPoolExecutor"])
    add("asyncio-processes", 0, aio, kinds=["AsyncProcessPoolExecutor"])
    return S
