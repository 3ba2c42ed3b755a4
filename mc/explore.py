"""Stateless model checking: exhaustive depth-first enumeration of the choices of an execution, under a bound
on deviations (CHESS style: all executions with 0 deviations, then 1, then 2 ...), by re-execution from a prefix.

A scenario is a python callable body(ctx). Every source of nondeterminism in it is a call to ctx.choose().
Executions are spread over forked workers; a choice prefix that does not replay identically is a hard error.
"""
import gc
import heapq
import hashlib
import json
import os
import pickle
import select
import struct
import sys
import time
import traceback


class Violation(Exception):
    """The property is broken in this execution."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Divergence(Exception):
    """The harness failed to own a source of nondeterminism."""


class Abandon(Exception):
    """This execution is outside the bound (counted, reported)."""


class Scenario:
    def __init__(self, name, body, bound=0, weight=1, env=None, note="", max_execs=None):
        self.name = name
        self.body = body
        self.bound = bound
        self.env = env or {}
        self.note = note
        self.max_execs = max_execs


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Ctx:
    """One execution."""

    def __init__(self, scenario, prefix, trace=False):
        self.scenario = scenario
        self.prefix = prefix  # list of (choice, n, labelhash)
        self.points = []  # (choice, n, labelhash, costs)
        self.muted = False  # while an execution is torn down
        self.log_ = []  # observations
        self.trace = [] if trace else None
        self.hash = h64(scenario.name)
        self.states = set()
        self.transitions = 0
        self.cleanups = []
        self.viol = None

    # ---- nondeterminism
    def choose(self, options, costs=None, what=""):
        """options: list of labels (strings); returns an index. Option 0 is the default and costs nothing."""
        n = len(options)
        i = len(self.points)
        lab = h64((what, tuple(options)))
        st = h64((self.hash, lab))
        self.states.add(st)
        if n == 1:
            if self.trace is not None:
                self.trace.append(f"{what}{options[0]}")
            self.hash = h64((self.hash, options[0]))
            return 0
        if i < len(self.prefix):
            c, pn, plab = self.prefix[i]
            if pn != n or plab != lab:
                raise Divergence(
                    f"choice {i}: expected {pn} options, got {n}: {what} {options}"
                )
        else:
            c = 0
        self.points.append((c, n, lab, costs or (0,) * n))
        if self.trace is not None:
            self.trace.append(f"[{i}:{c}/{n}] {what}{options[c]}")
        self.hash = h64((self.hash, options[c]))
        return c

    def pick(self, seq, what=""):
        seq = list(seq)
        return seq[self.choose([repr(x) for x in seq], None, what)]

    # ---- observation
    def log(self, *obs):
        if self.muted:
            return
        self.log_.append(obs)
        self.hash = h64((self.hash, obs))
        self.states.add(self.hash)
        if self.trace is not None:
            self.trace.append("    obs " + " ".join(map(str, obs)))

    def note(self, msg):
        if self.trace is not None:
            self.trace.append("    " + msg)

    def step(self, n=1):
        self.transitions += n

    def fail(self, msg, key=None):
        v = Violation(msg, key)
        if self.viol is None:
            self.viol = v  # even if the code under test swallows the exception
        raise v

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)


def run_once(scenario, prefix, trace=False):
    ctx = Ctx(scenario, prefix, trace)
    viol = None
    try:
        scenario.body(ctx)
        if ctx.viol is not None:
            raise ctx.viol
    except Violation as v:
        if ctx.viol is not None:
            v = ctx.viol
        viol = (v.msg, v.key)
    except (Divergence, Abandon):
        raise
    except Exception as e:
        # the code under test raised where the harness did not expect it
        if ctx.viol is not None:
            viol = (ctx.viol.msg, ctx.viol.key)
        else:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            viol = (f"unexpected {type(e).__name__}: {e} (at {os.path.basename(tb.filename)}:{tb.name})", "exception")
    finally:
        for c in reversed(ctx.cleanups):
            c()
    if len(ctx.points) < len(ctx.prefix) and viol is None:
        raise Divergence("execution ended before the end of its prefix")
    return ctx, viol


# --------------------------------------------------------------------------------------- worker


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def rd(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                raise EOFError
            b += c
        return b

    (n,) = struct.unpack("<I", rd(4))
    return pickle.loads(rd(n))


def _worker(scenarios, rfd, wfd, statefd):
    gc.collect()
    gc.freeze()
    gc.disable()
    n_since_gc = 0
    while True:
        try:
            job = _recv(rfd)
        except EOFError:
            os._exit(0)
        si, prefix, cost, max_execs, max_s = job
        scenario = scenarios[si]
        stack = [(prefix, cost)]
        deferred = []
        execs = 0
        transitions = 0
        states = set()
        outcomes = set()
        abandoned = 0
        viols = []
        sample = None
        maxpts = 0
        t0 = time.monotonic()
        err = None
        while stack and execs < max_execs and (time.monotonic() - t0) < max_s:
            pre, c0 = stack.pop()
            data = pickle.dumps((si, pre))
            os.pwrite(statefd, struct.pack("<I", len(data)) + data, 0)
            try:
                ctx, viol = run_once(scenario, pre)
            except Divergence as e:
                err = f"DIVERGENCE in scenario {scenario.name}: {e} prefix={[p[0] for p in pre]}"
                break
            except Abandon:
                abandoned += 1
                continue
            except BaseException as e:  # noqa
                err = (
                    f"harness error in scenario {scenario.name} prefix={[p[0] for p in pre]}:\n"
                    + traceback.format_exc()
                )
                break
            execs += 1
            n_since_gc += 1
            transitions += ctx.transitions + len(ctx.points)
            states |= ctx.states
            outcomes.add(h64(ctx.log_))
            maxpts = max(maxpts, len(ctx.points))
            if viol is not None:
                # confirm by an identical replay before trusting it
                full = [(p[0], p[1], p[2]) for p in ctx.points]
                log1 = ctx.log_
                del ctx
                gc.collect()
                # (code that depends on addresses may fail in one replay and not in the other: one that fails alike will do)
                for attempt in range(5):
                    try:
                        ctx2, viol2 = run_once(scenario, full, trace=True)
                    except BaseException as e:  # noqa
                        err = f"violation did not replay in {scenario.name}: {viol} then {traceback.format_exc()}"
                        continue
                    if viol2 is not None and (repr(ctx2.log_) == repr(log1) or attempt and viol2[1] == viol[1]):
                        err = None
                        break
                    err = f"violation did not replay identically in {scenario.name}: {viol} vs {viol2}"
                if err:
                    break
                viols.append(
                    dict(
                        scenario=scenario.name,
                        choices=full,
                        cost=c0,
                        msg=viol2[0],
                        key=viol2[1],
                        trace=ctx2.trace,
                        log=[list(map(str, o)) for o in ctx2.log_],
                    )
                )
                ctx = ctx2
                if len(viols) >= 3:
                    # children of the failing execution are still enumerated below
                    stack_done = True
            elif sample is None:
                sample = dict(
                    scenario=scenario.name,
                    choices=[p[0] for p in ctx.points],
                    observations=[" ".join(map(str, o)) for o in ctx.log_][:40],
                )
            pts = ctx.points
            base = [(p[0], p[1], p[2]) for p in pts]
            for i in range(len(pre), len(pts)):
                _, n, lab, costs = pts[i]
                for alt in range(1, n):
                    c = c0 + costs[alt]
                    if c > scenario.bound:
                        continue
                    child = base[:i] + [(alt, n, lab)]
                    if c == cost:
                        stack.append((child, c))
                    else:
                        deferred.append((child, c))
            del ctx, pts
            if n_since_gc >= 100:
                n_since_gc = 0
                gc.collect()
        _send(
            wfd,
            dict(
                si=si,
                execs=execs,
                transitions=transitions,
                states=states,
                outcomes=outcomes,
                abandoned=abandoned,
                viols=viols,
                sample=sample,
                maxpts=maxpts,
                rest=stack + deferred,
                err=err,
            ),
        )
        if err:
            os._exit(3)


class Explorer:
    def __init__(self, scenarios, jobs=None, budget_s=400.0, stall_s=90.0, is_known=None, log=None):
        self.scenarios = scenarios
        self.jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 4
        self.budget_s = budget_s
        self.stall_s = float(os.environ.get("VERIF_STALL", stall_s))
        self.enough = int(os.environ.get("VERIF_ENOUGH", 3))  # scenarios with violations after which the search ends
        self.log = log or (lambda m: print(m, file=sys.stderr, flush=True))
        self.is_known = is_known or (lambda sc, key, msg: False)

    def _spawn(self):
        jr, jw = os.pipe()
        rr, rw = os.pipe()
        statefd = os.memfd_create("state")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(jw)
                os.close(rr)
                for w in self.workers:
                    os.close(w["jw"])
                    os.close(w["rr"])
                _worker(self.scenarios, jr, rw, statefd)
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(jr)
        os.close(rw)
        return dict(pid=pid, jw=jw, rr=rr, statefd=statefd, busy=None, since=0.0)

    def run(self):
        t0 = time.monotonic()
        per = [
            dict(name=s.name, bound=s.bound, executions=0, transitions=0, abandoned=0, outcomes=set(),
                 max_choice_points=0, completed_bound=-1, complete=False, stopped=None)
            for s in self.scenarios
        ]
        states = set()
        samples = []
        heap = []
        seq = 0
        open_ = {}
        for si, s in enumerate(self.scenarios):
            heapq.heappush(heap, (0, seq, si, []))
            seq += 1
            open_[si] = {0: 1}
        violations = []
        stop_sc = set()
        error = None
        self.workers = []
        fatal = 0
        for _ in range(self.jobs):
            self.workers.append(self._spawn())
        timed_out = False
        while True:
            now = time.monotonic()
            if now - t0 > self.budget_s:
                timed_out = True
                break
            idle = [w for w in self.workers if w["busy"] is None]
            while idle and heap:
                cost, _, si, prefix = heapq.heappop(heap)
                if si in stop_sc:
                    open_[si][cost] -= 1
                    continue
                w = idle.pop()
                left = self.budget_s - (now - t0)
                # small first quanta, so that the frontier spreads over the workers
                few = len(heap) < 2 * self.jobs
                _send(w["jw"], (si, prefix, cost, 4 if few else 400, min(left, 0.05 if few else 2.0)))
                w["busy"] = (si, cost)
                w["since"] = now
            busy = [w for w in self.workers if w["busy"] is not None]
            if not busy:
                break
            r, _, _ = select.select([w["rr"] for w in busy], [], [], 1.0)
            now = time.monotonic()
            for w in busy:
                si, cost = w["busy"]
                dead = None
                if w["rr"] in r:
                    try:
                        res = _recv(w["rr"])
                    except EOFError:
                        _, status = os.waitpid(w["pid"], 0)
                        dead = (
                            f"the process died with signal {os.WTERMSIG(status)}"
                            if os.WIFSIGNALED(status)
                            else f"the process exited with status {os.WEXITSTATUS(status)}"
                        )
                elif now - w["since"] > self.stall_s:
                    import signal as _s

                    os.kill(w["pid"], _s.SIGKILL)
                    os.waitpid(w["pid"], 0)
                    dead = f"no progress for {self.stall_s} s: the execution does not terminate"
                else:
                    continue
                if dead is not None:
                    raw = os.pread(w["statefd"], 1 << 20, 0)
                    (n,) = struct.unpack("<I", raw[:4])
                    dsi, pre = pickle.loads(raw[4 : 4 + n])
                    violations.append(
                        dict(scenario=self.scenarios[dsi].name, choices=pre, cost=cost, msg=dead, key="crash",
                             trace=[], log=[])
                    )
                    stop_sc.add(dsi)
                    per[dsi]["stopped"] = "crash"
                    open_[si][cost] -= 1
                    for k in ("jw", "rr", "statefd"):
                        os.close(w[k])
                    self.workers.remove(w)
                    fatal += 1
                    if fatal < 4:
                        self.workers.append(self._spawn())
                    continue
                w["busy"] = None
                p = per[si]
                p["executions"] += res["execs"]
                p["transitions"] += res["transitions"]
                p["abandoned"] += res["abandoned"]
                p["outcomes"] |= res["outcomes"]
                p["max_choice_points"] = max(p["max_choice_points"], res["maxpts"])
                if len(states) < 20_000_000:  # bounds the memory of the count, not the exploration
                    states |= res["states"]
                if res["sample"] and len(samples) < 6 and not any(
                    s["scenario"] == res["sample"]["scenario"] for s in samples
                ):
                    samples.append(res["sample"])
                open_[si][cost] -= 1
                for pre, c in res["rest"]:
                    heapq.heappush(heap, (c, seq, si, pre))
                    seq += 1
                    open_[si][c] = open_[si].get(c, 0) + 1
                if res["err"]:
                    error = res["err"]
                for v in res["viols"]:
                    violations.append(v)
                    if not self.is_known(v["scenario"], v["key"], v["msg"]):
                        stop_sc.add(si)
                        p["stopped"] = "violation"
                m = self.scenarios[si].max_execs
                if m and p["executions"] >= m and si not in stop_sc:
                    stop_sc.add(si)
                    p["stopped"] = "execution cap"
            if error or not self.workers:
                break
            new = [v for v in violations if not self.is_known(v["scenario"], v["key"], v["msg"])]
            if len({v["scenario"] for v in new}) >= self.enough:
                break
        for w in self.workers:
            try:
                os.kill(w["pid"], 9)
                os.waitpid(w["pid"], 0)
            except OSError:
                pass
            for k in ("jw", "rr", "statefd"):
                os.close(w[k])
        for si, p in enumerate(per):
            rem = [c for c, n in open_[si].items() if n > 0]
            if si in stop_sc or rem:
                p["completed_bound"] = (min(rem) - 1) if rem and p["stopped"] != "violation" else -1
            else:
                p["completed_bound"] = p["bound"]
                p["complete"] = True
            p["outcomes"] = len(p["outcomes"])
        return dict(
            per=per, states=len(states), samples=samples, violations=violations, error=error,
            timed_out=timed_out, wall_s=time.monotonic() - t0,
        )
