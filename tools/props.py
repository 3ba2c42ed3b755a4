"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, tech, note, observe=None, claimed=True, na=None, state=None):
    P.append(dict(
        p=dict(id=id, title=title, statement=" ".join(statement.split()),
               quantifier=dict(over=over, text=" ".join(quant.split())),
               why_tests_cant=" ".join(why.split()),
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                            observe_at=observe or [], hook_needed=None)),
        tech=tech, note=note, claimed=claimed, na=na))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"]) + "\n")
checks, na = [], []
for x in P:
    id = x["p"]["id"]
    assert len(x["p"]["title"]) <= 80, id
    if x["claimed"] and os.path.exists(os.path.join(HERE, "checks", id.lower() + ".py")):
        checks.append(dict(property=id, quick_cmd=f"python3 run.py {id} --tier quick",
                           thorough_cmd=f"python3 run.py {id} --tier thorough",
                           evidence_file=f"evidence/{id}.json", technique=" ".join(x["tech"].split()),
                           level="model_checking", level_note=" ".join(x["note"].split())))
    else:
        na.append(dict(property=id, reason=x["na"] or "check not built yet"))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \".\"); import mc.build'",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the real code runs unmodified on a controlled event loop / thread scheduler. "
               "Every check builds the current working tree of /repo in a scratch directory of its own.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
