"""C03: singletons — one instance per class and mode however many threads ask for it at once, made once, handed out finished."""
import functools
import gc
import importlib

from mc.explore import Scenario
from mc import threads as T

ASSUMPTIONS = ["up to 3 threads with up to 2 calls each; a switch is possible before every line of a_sync/a_sync/_meta.py and at every "
               "line of the class's __init__; the compiled base classes run atomically"]


class Boom(Exception):
    pass


class World:
    def __init__(self, ctx):
        real = importlib.import_module("a_sync.a_sync._meta")
        self.path = real.__file__
        self.real = real
        self.s = T.Sched(ctx, [self.path])

    def meta(self):
        """ASyncSingletonMeta from its source, with cooperative locks, on top of the ASyncMeta in use"""
        m = T.load("a_sync.a_sync._meta", self.path, {"threading": T.threading, "_thread": T._module("_thread", allocate_lock=T.Lock, RLock=T.RLock)}, "a_sync.a_sync")
        return m


def rebase(m):
    """the copy's singleton metaclass, derived from the real ASyncMeta"""
    from a_sync.a_sync._meta import ASyncMeta

    S = m.ASyncSingletonMeta
    if m.ASyncMeta is not ASyncMeta:
        m.ASyncMeta.register if False else None
        S.__bases__ = tuple(ASyncMeta if b is m.ASyncMeta else b for b in S.__bases__)
    return S


def make(ctx, w, flag, default, fails, other):
    import a_sync
    from a_sync import ASyncGenericBase

    Meta = rebase(w.meta())
    made = []

    def body(self, v):
        made.append([v, False])
        me = len(made) - 1
        w.s.point("init1")
        if fails and len(made) <= fails:
            raise Boom(v)
        self.flagged = v
        if other and type(self) is C and v is default:
            self.counterpart = C(**{flag: not v})
        w.s.point("init2")
        ASyncGenericBase.__init__(self)
        self.complete = True
        made[me][1] = True

    ns = {}
    exec(f"def __init__(self, {flag}={default!r}):\n    self.{flag} = {flag}\n    body(self, {flag})", {"body": body}, ns)
    C = Meta("Single", (ASyncGenericBase,), {"__init__": ns["__init__"]})
    D = Meta("Derived", (C,), {})
    return C, D, made


def singles(ctx, plans, fails=0, flagged="sync", other=False):
    """plans: per thread a list of calls: True/False (sync value as a keyword), None (no argument), with 'D' for the derived class"""
    w = World(ctx)
    gc.disable()
    try:
        with w.s as s:
            s.muted = 1
            default = True
            C, D, made = make(ctx, w, flagged, default if flagged == "sync" else not default, fails, other)
            s.muted = 0
            got = []

            def run(i, plan):
                for c in plan:
                    cls = C
                    if isinstance(c, tuple):
                        cls, c = D, c[1]
                    kw = {} if c is None else {flagged: c if flagged == "sync" else not c}
                    mode = default if c is None else c
                    try:
                        o = cls(**kw)
                    except Boom:
                        got.append((cls, mode, None))
                        continue
                    if not getattr(o, "complete", False):
                        s.fail(f"thread {i} got an instance whose __init__ has not finished")
                    got.append((cls, mode, o))
            ths = [T.Thread(target=run, args=(i, p), name=f"t{i}") for i, p in enumerate(plans)]
            for t in ths:
                t.start()
            s.quiesce()
            s.muted = 1
            errs = [repr(t.exc) for t in s.threads[1:] if t.exc is not None]
            ctx.check(not errs, lambda: f"{errs}", "died")
            ctx.check(all(t.done for t in s.threads[1:]), "deadlock", "deadlock")
            insts = {}
            if other:
                # (each was made although nobody else may have asked for it)
                got += [(cls, not mode, o.counterpart) for cls, mode, o in got if o is not None and hasattr(o, "counterpart")]
                for t in got:
                    ctx.check(hasattr(t[2], "counterpart") == (t[1] is default), "an instance without its counterpart", "which")
            for cls, mode, o in got:
                if o is None:
                    continue
                k = (cls.__name__, mode)
                ctx.check(insts.setdefault(k, o) is o, lambda: f"two instances of {k}", "twice")
                val = o.flagged if flagged == "sync" else not o.flagged
                ctx.check(type(o) is cls and val is mode, lambda: f"{k}: got a {type(o).__name__} with sync={val}", "which")
            ctx.check(len({id(o) for o in insts.values()}) == len(insts), "one instance for two modes or classes", "shared")
            done = sum(1 for v, ok in made if ok)
            ctx.check(done == len(insts), lambda: f"{done} instances were made for {len(insts)}", "made")
            n = sum(1 for x in got if x[2] is None)
            ctx.check(n == len(made) - done, lambda: f"{n} errors for {len(made) - done} failed calls", "errors")
            ctx.check(len(got) == sum(len(p) for p in plans) or other, "calls lost", "lost")
            # and afterwards
            for (name, mode), o in insts.items():
                cls = C if name == "Single" else D
                ctx.check(cls(**{flagged: mode if flagged == "sync" else not mode}) is o, f"another instance of {name} later", "later")
            ctx.log(sorted(map(str, insts)), len(made))
    finally:
        gc.enable()


def seq(ctx, depth):
    """every sequence of creations of the library's own singleton class, with two classes, modes given in all ways"""
    from a_sync.a_sync.singleton import ASyncGenericSingleton

    flag = ctx.pick(["sync", "asynchronous"], "flag=")
    default = ctx.pick([True, False], "default=")
    made = []

    def body(self):
        made.append(self)
        if fail[0]:
            raise Boom
        ASyncGenericSingleton.__init__(self)
    fail = [False]
    ns = {}
    exec(f"def __init__(self, {flag}={default!r}, x=0):\n    self.{flag} = {flag}\n    self.x = x\n    body(self)", {"body": body}, ns)
    A = type(ASyncGenericSingleton)("A", (ASyncGenericSingleton,), {"__init__": ns["__init__"]})
    B = type(ASyncGenericSingleton)("B", (A,), {})
    insts = {}
    for i in range(depth):
        c = ctx.pick([(k, v, f) for k in "AB" for v in (None, True, False) for f in (False, True)], "make=")
        cls = A if c[0] == "A" else B
        v = default if c[1] is None else c[1]
        sync = v if flag == "sync" else not v
        fail[0] = c[2]
        made.clear()
        try:
            o = cls(**({} if c[1] is None else {flag: c[1]}), x=i)
        except Boom:
            o = None
        known = insts.get((c[0], sync))
        ctx.log(c, o is not None, len(made))
        if known is not None:
            ctx.check(o is known and not made and o.x == known.x, lambda: f"{c}: another instance", "twice")
        elif c[2]:
            ctx.check(o is None and len(made) == 1, lambda: f"{c}: {o!r} although __init__ failed", "failed")
        else:
            ctx.check(o is not None and made == [o] and type(o) is cls and getattr(o, flag) is v and o.x == i
                      and not any(o is x for x in insts.values()), lambda: f"{c}: {o!r}", "which")
            insts[c[0], sync] = o
    for (k, sync), o in insts.items():
        r = o.__a_sync_instance_should_await__
        ctx.check(r is sync or r == sync, f"the mode of the {sync} instance of {k} is {r}", "mode")


def hierarchy(ctx, depth):
    """the mode is an attribute of a class; classes further down the hierarchy inherit it or define their own"""
    from a_sync.a_sync.singleton import ASyncGenericSingleton

    flag = ctx.pick(["sync", "asynchronous"], "flag=")
    mixed = ctx.pick(["", "mixin-first", "mixin-last"], "mixin=")
    first = ctx.pick([True, False], "root=")
    chain, mode, made = [], first, []
    Mixin = type("Mixin", (), {})
    for i in range(depth):
        own = first if i == 0 else ctx.pick([None, True, False], f"class {i}=")
        if own is not None:
            mode = own
        bases = (chain[-1][0],) if chain else (ASyncGenericSingleton,)
        if mixed and i == 1:
            bases = (Mixin, *bases) if mixed == "mixin-first" else (*bases, Mixin)
        ns = {} if own is None else {flag: own}
        if i == 0:
            def __init__(self):
                made.append(self)
                ASyncGenericSingleton.__init__(self)

            async def method(self):
                return self
            ns.update(__init__=__init__, method=method)
        chain.append((type(ASyncGenericSingleton)(f"C{i}", bases, ns), mode if flag == "sync" else not mode))
    insts = {}
    for _ in range(depth + 1):
        i = ctx.pick(range(depth), "make=")
        cls, sync = chain[i]
        made.clear()
        o = cls()
        ctx.log(i, len(made))
        if i in insts:
            ctx.check(o is insts[i] and not made, lambda: f"C{i}: another instance", "twice")
        else:
            ctx.check(made == [o] and type(o) is cls and not any(o is x for x in insts.values()), lambda: f"C{i}: {o!r}", "which")
            insts[i] = o
        r = o.__a_sync_instance_should_await__
        ctx.check(r == sync, lambda: f"the mode of the instance of C{i} is {r}", "mode")
        ctx.check(bool(cls.__a_sync_default_mode__()) == sync, lambda: f"the default mode of C{i} is not that of its instance", "mode")
        if sync:
            ctx.check(o.method() is o, lambda: f"a method of C{i} does not run", "mode")
        else:
            c = o.method()
            try:
                c.send(None)
            except StopIteration as e:
                c = e.value
            ctx.check(c is o, lambda: f"a method of C{i} does not run", "mode")


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn=singles, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound))
    b = 3 if q else 4
    add("two-same", b, plans=[[True], [True]])
    add("two-default", b, plans=[[None], [True]])
    add("two-modes", b, plans=[[True, False], [False, True]])
    add("three-same", b - 1, plans=[[False], [False], [False]])
    add("three-modes", b - 1, plans=[[True], [False], [None]])
    add("derived", b, plans=[[True, ("D", True)], [("D", True), True]])
    add("asynchronous", b, plans=[[True, False], [None, False]], flagged="asynchronous")
    add("failing", b, plans=[[True, True], [True]], fails=1)
    add("failing2", b, plans=[[True, True], [True, False]], fails=2)
    add("counterpart", b, plans=[[True, False], [False, True]], other=True)
    add("counterpart2", b, plans=[[None], [True], [False]] if not q else [[None], [True]], other=True)
    add("sequences", 0, seq, depth=3 if q else 4)
    add("hierarchy", 0, hierarchy, depth=3 if q else 4)
    return S
