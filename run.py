#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: decide property ID by model checking the current /repo."""
import argparse
import contextlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("A_SYNC_") and k not in ("PYTHONPATH",)}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    env.update(extra or {})
    return env


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def matcher(known):
    def m(scenario, key, msg):
        for k in known:
            if (k["scenario"] == scenario or k["scenario"][-1] == "*" and scenario.startswith(k["scenario"][:-1])) and k["key"] == key:
                return k
        return None

    return m


def child(args):
    """Explore one environment group of the property's scenarios (in its own process, with its environment)."""
    sys.path.insert(0, args.root)
    import logging

    logging.lastResort = None
    logging.getLogger().addHandler(logging.NullHandler())
    sys.unraisablehook = lambda *a: None
    quiet = open(os.devnull, "w") if os.environ.get("EZASYNC_DEBUG_MODE") else sys.stderr
    with contextlib.redirect_stderr(quiet):
        import a_sync

    assert os.path.abspath(a_sync.__file__).startswith(args.root), a_sync.__file__
    from mc import explore

    mod = importlib.import_module(f"checks.{args.id.lower()}")
    scs = [s for s in mod.scenarios(args.tier) if args.only in s.name]
    groups = group(scs)
    key = list(groups)[args.group]
    scs = groups[key]
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        sc = [s for s in scs if s.name == rep["scenario"]][0]
        ctx, viol = explore.run_once(sc, [tuple(c) for c in rep["choices"]], trace=True)
        print("\n".join(ctx.trace))
        print("REPLAY:", "violation: " + viol[0] if viol else "no violation")
        sys.stdout.flush()
        os._exit(1 if viol else 0)
    known = load_known(args.id)
    m = matcher(known)
    ex = explore.Explorer(scs, budget_s=args.budget, is_known=lambda s, k, msg: m(s, k, msg) is not None)
    res = ex.run()
    with open(args.out, "w") as f:
        json.dump(res, f, default=str)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def group(scs):
    groups = {}
    for s in scs:
        groups.setdefault(json.dumps(s.env, sort_keys=True), []).append(s)
    return groups


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default="", help="development: only the scenarios whose name has this")
    ap.add_argument("--child", action="store_true")
    ap.add_argument("--list-groups", action="store_true")
    ap.add_argument("--root")
    ap.add_argument("--group", type=int, default=0)
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.child:
        return child(args)
    t0 = time.time()
    from mc import build

    log = lambda m: print(m, flush=True)
    if args.budget is None:
        args.budget = 420.0 if args.tier == "quick" else 1800.0
    scratch, root = build.make_scratch(log)
    rc = 2
    try:
        rc = decide(args, root, log, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(args, root, log, t0):
    pid = args.id
    # the groups are listed by a process that can import the package
    env = clean_env()
    base = [PY, os.path.join(HERE, "run.py"), pid, "--child", "--tier", args.tier, "--root", root,
            "--budget", str(args.budget), "--only", args.only]
    code = (
        "import sys,json,os;sys.dont_write_bytecode=True;"
        f"sys.path[:0]=[{root!r},{HERE!r}];"
        "import run,importlib;"
        f"m=importlib.import_module('checks.{pid.lower()}');"
        f"g=run.group([s for s in m.scenarios({args.tier!r}) if {args.only!r} in s.name]);"
        "print('GROUPS '+json.dumps([[k,[s.name for s in v],[s.note for s in v]] for k,v in g.items()])+chr(10)"
        "+'ASSUME '+json.dumps(getattr(m,'ASSUMPTIONS',[])));sys.stdout.flush();os._exit(0)"
    )
    r = subprocess.run([PY, "-c", code], env=env, capture_output=True, text=True, cwd=HERE)
    lines = [l for l in r.stdout.splitlines() if l.startswith("GROUPS ")]
    if not lines:
        log(r.stdout[-2000:] + r.stderr[-4000:])
        log("cannot import the package or the check")
        return 2
    groups = json.loads(lines[0][7:])
    assume = json.loads([l for l in r.stdout.splitlines() if l.startswith("ASSUME ")][0][7:])
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        for gi, (k, names, _) in enumerate(groups):
            if rep["scenario"] in names:
                p = subprocess.run(base + ["--group", str(gi), "--replay", args.replay],
                                   env=clean_env(json.loads(k)), cwd=HERE)
                return p.returncode
        log("no such scenario")
        return 2
    total = dict(per=[], states=0, transitions=0, samples=[], violations=[], timed_out=False)
    deadline = time.time() + args.budget
    failed = False
    for gi, (k, names, _) in enumerate(groups):
        fd, out = tempfile.mkstemp(dir=os.path.dirname(root))
        os.close(fd)
        left = max(5.0, deadline - time.time())
        cmd = base + ["--group", str(gi), "--out", out]
        cmd[cmd.index("--budget") + 1] = str(left)
        p = subprocess.run(cmd, env=clean_env(json.loads(k)), cwd=HERE)
        try:
            with open(out) as f:
                res = json.load(f)
        except ValueError:
            log(f"group {gi} ({names[0]}..) gave no result: exit {p.returncode}")
            failed = True
            continue
        if res["error"]:
            log(res["error"])
            failed = True
        total["per"] += res["per"]
        total["states"] += res["states"]
        total["samples"] += res["samples"]
        total["violations"] += res["violations"]
        total["timed_out"] |= res["timed_out"]
    # verdict
    known = load_known(pid)
    m = matcher(known)
    new = []
    seen_known = {}
    for v in total["violations"]:
        k = m(v["scenario"], v["key"], v["msg"])
        if k is None:
            new.append(v)
        else:
            seen_known[json.dumps(k, sort_keys=True)] = k
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    execs = sum(p["executions"] for p in total["per"])
    trans = sum(p["transitions"] for p in total["per"])
    exhaustive = all(p["complete"] for p in total["per"]) and not total["timed_out"]
    ev = dict(
        property=pid,
        tier=args.tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="model_checking",
        coverage=dict(
            states=total["states"],
            transitions=trans,
            traces_validated_against_impl=execs,
            samples=total["samples"][:8] or [dict(note="every scenario failed at once")],
            exhaustive=exhaustive,
            distinct_outcomes=sum(p["outcomes"] for p in total["per"]),
            executions_outside_bound=sum(p["abandoned"] for p in total["per"]),
            scenarios=total["per"],
            explanation=(
                "states: distinct (observation history, enabled choices) pairs at choice points of the real code; "
                "transitions: event-loop handles, environment events and thread steps executed; every execution "
                "is an execution of the real implementation, compared with the reference model as it runs; "
                "completed_bound is the deviation bound up to which a scenario was enumerated completely."
            ),
        ),
        assumptions=assume,
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    w = max((len(p["name"]) for p in total["per"]), default=0)
    for p in total["per"]:
        log(
            f"  {p['name']:<{w}} bound={p['completed_bound']}/{p['bound']} executions={p['executions']} "
            f"transitions={p['transitions']} outcomes={p['outcomes']}"
            + ("" if p["complete"] else f"  INCOMPLETE {p['stopped'] or 'time'}")
        )
    log(
        f"{pid} {args.tier}: states={total['states']} transitions={trans} executions={execs} "
        f"exhaustive={exhaustive} wall={time.time()-t0:.1f}s"
    )
    if new:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(d, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1)
            log(f"--- {v['scenario']}: {v['msg']}")
            for line in v["trace"][-60:]:
                log("    " + line)
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 2 if failed else 0


if __name__ == "__main__":
    main()
