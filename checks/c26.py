"""C26: memory safety — no sequence of operations on the compiled objects, whatever state they are in, crashes the interpreter or uses
memory after it was freed; names are kept byte for byte."""
import asyncio
import copy
import gc
import importlib
import json
import os
import pickle
import weakref

from mc.explore import Scenario, Violation
from mc.loop import Run

ENV = {"PYTHONMALLOC": "malloc", "MALLOC_CHECK_": "3", "MALLOC_PERTURB_": "165", "LD_PRELOAD": "libc_malloc_debug.so.0"}
ASSUMPTIONS = ["misuse of memory shows as a crash, an abort by glibc's checking malloc or a wrong value (freed memory is overwritten); "
               "operation sequences up to depth 4; a sample of the scenarios of the other checks under the same allocator"]

NAMES = ["näme€🙂", "", "x" * 300, "n"]


def kinds():
    import a_sync
    from a_sync.primitives.locks.semaphore import ThreadsafeSemaphore, DummySemaphore
    from a_sync._smart import SmartFuture

    return {
        "event": (a_sync.Event, lambda n: ((n,), {}), ((3, 70000), {})),
        "counter": (a_sync.CounterLock, lambda n: ((0, n), {}), (("x", 5), {})),
        "semaphore": (a_sync.Semaphore, lambda n: ((1, n), {}), ((-1, "bad"), {})),
        "threadsafe": (ThreadsafeSemaphore, lambda n: ((1, n), {}), (("v", 3), {})),
        "dummy": (DummySemaphore, lambda n: ((n,), {}), ((5,), {})),
        "priority": (a_sync.PrioritySemaphore, lambda n: ((1,), {"name": n}), (("x",), {})),
    }


def named(kind, o):
    return getattr(o, "_name", None) if kind in ("event", "counter") else o.name


OPS = ["name", "repr", "wait", "cancel", "free", "free2", "init", "badinit", "drop", "copy", "pickle", "misc", "close"]


def lifecycle(ctx, kind, depth):
    cls, good, bad = kinds()[kind]

    class Sub(cls):
        def __init__(self, *a, **k):
            pass

        def __del__(self):
            try:
                repr(self), named(kind, self), len(self)
            except Exception:
                pass
    how = ctx.pick(["init", "new", "sub", "bad"], "made by ")
    name = ctx.pick(NAMES if how == "init" and depth > 3 else ["näme€🙂", ""] if how == "init" else ["n"], "name=")
    with Run(ctx) as r:
        o = None

        def make():
            a, k = good(name)
            if how == "init":
                return cls(*a, **k)
            if how == "new":
                return cls.__new__(cls)
            if how == "sub":
                return Sub(*a, **k)
            x = cls.__new__(cls)
            try:
                cls.__init__(x, *bad[0], **bad[1])
            except Exception:
                pass
            return x
        try:
            o = r.setup(make)
        except Exception as e:
            ctx.check(how != "init", lambda: f"{kind} can not be made: {e!r}", "make")
            ctx.log(type(e).__name__)
            return
        ok = how == "init"
        n = name
        tasks = []
        for step in range(depth):
            op = ctx.pick(OPS if o is not None else ["cancel", "misc"], f"{step}:")
            out = None
            try:
                if op == "name":
                    x = named(kind, o)
                    if ok and (kind not in ("event", "counter") or hasattr(o, "_name")):  # no public name
                        ctx.check(x == n, lambda: f"the name is {x!r}, not {n!r}", "name")
                    out = x
                elif op == "repr":
                    x = repr(o)
                    if ok:
                        ctx.check(n in x, lambda: f"repr has not the name {n!r}: {x!r}", "name")
                elif op == "wait":
                    async def use(o=o):
                        if kind == "event":
                            return await o.wait()
                        if kind == "counter":
                            return await o.wait_for(2)
                        async with (o[1] if kind == "priority" else o):
                            await asyncio.get_running_loop().create_future()
                    tasks.append(r.loop.create_task(use()))
                    r.settle()
                elif op == "cancel":
                    for t in tasks:
                        t.cancel()
                    r.settle()
                elif op in ("free", "free2"):
                    for _ in range(1 + (op == "free2")):
                        if kind == "event":
                            o.set()
                            if op == "free2":
                                o.clear()
                        elif kind == "counter":
                            o.set(3)
                        else:
                            (o[1] if kind == "priority" else o).release()
                    r.settle()
                elif op == "init":
                    n = NAMES[(NAMES.index(n) + 1) % len(NAMES)]
                    a, k = good(n)
                    cls.__init__(o, *a, **k)
                    ok = True
                elif op == "badinit":
                    ok = False
                    cls.__init__(o, *bad[0], **bad[1])
                elif op == "drop":
                    tasks_of = None
                    o = None
                    gc.collect()
                elif op == "copy":
                    o2 = copy.copy(o)
                    repr(o2), named(kind, o2)
                    del o2
                elif op == "pickle":
                    o2 = pickle.loads(pickle.dumps(o))
                    repr(o2), named(kind, o2)
                    del o2
                elif op == "misc":
                    for f in (len, hash, str, lambda o: o.locked(), lambda o: o.is_set(), lambda o: o.is_ready(1), lambda o: o.value, lambda o: o.logger.name,
                              lambda o: o.debug_logs_enabled, lambda o: weakref.ref(o), lambda o: o[5], lambda o: o == o, lambda o: o.decorate(len),
                              lambda o: setattr(o, "value", 1), lambda o: o.semaphore, lambda o: o._loop, lambda o: o._start_debug_daemon()):
                        try:
                            r.setup(lambda: f(o))
                        except Exception:
                            pass
                elif op == "close":
                    for t in tasks:
                        t._log_destroy_pending = False
                        t.get_coro().close()
                    tasks = []
                    gc.collect()
            except Violation:
                raise
            except Exception as e:
                out = type(e).__name__
                if ok and op in ("name", "repr", "wait"):
                    ctx.fail(f"{op} of a {kind} failed: {e!r}", "fails")
            ctx.log(op, out)
        o = tasks = None
    gc.collect()


def wrapped(pid, s, known):
    def body(ctx):
        try:
            s.body(ctx)
        except Violation as v:
            if (pid, (ctx.viol or v).key) not in known:
                raise
            ctx.viol = None
    return Scenario(f"{pid}:{s.name}", body, 0, env={**s.env, **ENV})


STRIDE = 12


def scenarios(tier):
    q = tier == "quick"
    S = []
    for k in ("event", "counter", "semaphore", "threadsafe", "dummy", "priority"):
        S.append(Scenario(f"lifecycle-{k}", lambda ctx, k=k: lifecycle(ctx, k, 3 if q else 4), env=ENV))
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")) as f:
        known = {(k["property"], k["key"]) for k in json.load(f)["findings"]}
    for i in range(1, 26):
        if i in (3, 18, 24) or q and i == 25:
            continue
        mod = importlib.import_module(f"checks.c{i:02}")
        scs = mod.scenarios("quick")
        for j, s in enumerate(scs):
            if not q or len(scs) < STRIDE and j == len(scs) // 2 or len(scs) >= STRIDE and j % STRIDE == 3:
                S.append(wrapped(f"C{i:02}", s, known))
    return S
