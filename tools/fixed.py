"""Refresh the "fixed" list of known_findings.json from the fix: commits of /repo."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [  # (words of the commit's subject, property); the first match counts
    ("smart shield", "C23"), ("smart task factory", "C23"), ("made by @future", "C22"), ("repr() of a CounterLock", "C24"), ("refused with debug logs only", "C24"),
    ("generator method of a copied", "C02"), ("whose __init__ had not run", "C26"), ("copying or pickling an Event", "C26"),
    ("modifiers of a coroutine method", "C21"), ("bound method with its own semaphore", "C20"),
    ("PruningThreadPool", "C18"), ("pruned threads", "C18"), ("keyword-only argument", "C01"), ("can be mapped", "C02"), ("TaskMapping.max", "C16"), ("that its caller has cancelled", "C16"), ("consumer is gone", "C16"), ("TaskMapping", "C15"), ("PrioritySemaphore", "C05"), ("emaphore", "C04"), ("SmartProcessingQueue does", "C10"), ("ProcessingQueue", "C09"),
    ("Queue.get", "C08"), ("gather(", "C12"), ("as_completed(", "C12"), ("create_task", "C11"),
    ("as_yielded", "C13"), ("event loop's heap", "C25"), ("event loop, like", "C02"), ("cached property", "C19"),
    ("super() reaches", "C02"), ("keyed by id()", "C01"), ("debug logs", "C24"), ("ASyncGeneratorFunction", "C14"), ("ASyncFuture", "C22"), ("ASyncSorter", "C14"),
]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s", "--grep=^fix:"],
                     capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in out:
    h, s = line.split("|", 1)
    pid = next((p for w, p in RULES if w in s), None)
    if pid is None:
        sys.exit(f"no property for: {line}")
    fixed.append(f"fixed: property={pid} {h} {s[5:]}")
path = os.path.join(HERE, "known_findings.json")
d = json.load(open(path))
d["fixed"] = fixed
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(fixed), "fixed,", len(d["findings"]), "findings")
