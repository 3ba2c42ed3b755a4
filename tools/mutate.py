#!/usr/bin/env python3
"""mutate.py OUT FILE=ID,ID ... : mutation campaign (dev tool).

Every mutant of the given files is built in a scratch copy of /repo and the quick checks of the IDs run on it until one reports a
violation; survivors (for review by hand) go to OUT. VERIF_SLOTS parallel slots of VERIF_JOBS jobs.
"""
import ast, concurrent.futures as cf, io, json, os, queue, re, shutil, subprocess, sys, tempfile, tokenize

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = int(os.environ.get("VERIF_SLOTS", "4"))
JOBS = os.environ.get("VERIF_JOBS", "2")
BUDGET = os.environ.get("VERIF_BUDGET", "60")


def code_lines(src):
    """numbers of the lines that are code (no docstring, comment, blank), by scanning for triple quotes"""
    out, inq = [], None
    for i, l in enumerate(src):
        t = l
        if inq:
            if inq in t:
                inq = None
            continue
        st = t.strip()
        m = re.match(r'^[rfb]?("""|\'\'\')', st)
        if m:
            q = m.group(1)
            if st.count(q) < 2:
                inq = q
            continue
        if not st or st.startswith("#") or st.startswith('"') or st.startswith("'"):
            continue
        m = re.search(r'("""|\'\'\')', st)
        if m and st.count(m.group(1)) < 2:
            inq = m.group(1)
        out.append(i)
    return out


SKIP = re.compile(r"^\s*(import |from |cimport |@overload|class |cdef (class|extern)|logger|.*[lL]ogger\.|.*_log|.*log_|raise |assert |global |nonlocal |\"|else:|try:|finally:|__doc__|__all__)")


def bal(s):
    return all(s.count(a) == s.count(b) for a, b in ("()", "[]", "{}"))


def mutants(path):
    src = open(path).read().split("\n")
    for i in code_lines(src):
        l = src[i]
        if SKIP.match(l) or "TYPE_CHECKING" in l:
            continue
        ind = l[: len(l) - len(l.lstrip())]
        st = l.strip()
        base = l.split("  #")[0].rstrip()

        def m(new, what):
            if new != l:
                return (i, l, new, what)

        c = []
        isdef = re.match(r"^(async def|def|cdef|cpdef|@|for |while |with |async for|async with|if |elif |except|lambda)", st)
        if not isdef and bal(base) and not st.endswith((",", "(", "[", "{", ":", "\\")) and ind:
            if st.startswith("return"):
                if st not in ("return", "return None"):
                    c.append(m(ind + "return None", "return None"))
            elif st not in ("pass", "...", "break", "continue") and not st.startswith((")", "]", "}", ".", "and ", "or ", "else ", "if ")) \
                    and (re.match(r"^[\w\.\[\]\"', ]+\s*([-+|&*]?=)[^=]", st) or re.match(r"^(await |del |yield |[\w\.]+\()", st)):
                c.append(m(ind + "pass", "delete"))
            if st == "break":
                c.append(m(ind + "continue", "break>continue"))
            if st == "continue":
                c.append(m(ind + "break", "continue>break"))
        mm = re.match(r"^(\s*)(if|elif|while) (.+):$", base)
        if mm and bal(mm.group(3)) and ":=" not in mm.group(3):
            c.append(m(f"{mm.group(1)}{mm.group(2)} not ({mm.group(3)}):", "negate"))
        body = base
        if isdef and re.match(r"^(async def|def|cdef|cpdef|@)", st):
            for a, b in (("=True", "=False"), ("=False", "=True"), ("= True", "= False"), ("= False", "= True")):
                if a in body:
                    c.append(m(body.replace(a, b, 1), f"{a}>{b}"))
        else:
            for a, b in ((" and ", " or "), (" or ", " and "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "),
                         (" >= ", " > "), (" is None", " is not None"), (" is not None", " is None"), ("True", "False"), ("False", "True"),
                         (" + 1", ""), (" - 1", ""), ("+= 1", "+= 2"), ("-= 1", "-= 2"), (" not in ", " in "), (" + ", " - "), ("await ", ""), ("not ", "")):
                if a in body and not (a == " is None" and " is not None" in body) and '"' not in body.split(a)[0]:
                    c.append(m(body.replace(a, b, 1), f"{a.strip()}>{b.strip()}"))
            mm = re.match(r"^(\s*except )(\(?[\w\.]+.*?)(:)$", base)
            if mm:
                c.append(m(f"{mm.group(1)}ZeroDivisionError:", "except"))
            mm = re.search(r"([\w\.]+)\(([^(),]+), ([^(),]+)\)", body)
            if mm and not isdef:
                c.append(m(body.replace(mm.group(0), f"{mm.group(1)}({mm.group(3)}, {mm.group(2)})"), "swap args"))
        seen = set()
        for x in c:
            if x and x[2] not in seen:
                seen.add(x[2])
                yield x


def main():
    out = sys.argv[1]
    jobs = []
    for a in sys.argv[2:]:
        f, ids = a.split("=")
        lo, hi = 0, 10**9
        if ":" in f:
            f, r = f.split(":")
            lo, hi = map(int, r.split("-"))
        for mu in mutants("/repo/" + f):
            if lo <= mu[0] + 1 <= hi:
                jobs.append((f, ids.split(","), mu))
    if os.environ.get("DRY"):
        for j in jobs:
            print(j[0], j[2][0] + 1, j[2][3], "|", j[2][2].strip())
        print(len(jobs))
        return
    top = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
    free = queue.Queue()
    for s in range(SLOTS):
        d = f"{top}/s{s}"
        os.mkdir(d)
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        be = open("/opt/vp/build_ext.py").read().replace("/repo", d + "/repo")
        open(d + "/be.py", "w").write(be)
        free.put(d)
    lock = __import__("threading").Lock()
    n = [0, 0]

    def one(job):
        f, ids, (i, old, new, what) = job
        d = free.get()
        r = d + "/repo"
        try:
            src = open("/repo/" + f).read().split("\n")
            src[i] = new
            open(f"{r}/{f}", "w").write("\n".join(src))
            b = subprocess.run(["/opt/venv/bin/python", d + "/be.py"], cwd=r, capture_output=True, text=True,
                               env=dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0"))
            res = "survived"
            if b.returncode:
                res = "nobuild"
            else:
                for pid in ids:
                    env = dict(os.environ, VERIF_REPO=r, VERIF_JOBS=JOBS, VERIF_ENOUGH="1", VERIF_STALL="25")
                    p = subprocess.run([sys.executable, d + "/verif/run.py", pid, "--budget", BUDGET], env=env, cwd=d + "/verif", capture_output=True, text=True)
                    if p.returncode:
                        res = f"killed {pid} {p.returncode}"
                        break
            with lock:
                n[0] += 1
                n[1] += res == "survived"
                with open(out, "a") as o:
                    o.write(f"{res} | {f}:{i+1} {what} | {old.strip()}  ==>  {new.strip()}\n")
        finally:
            shutil.copy("/repo/" + f, f"{r}/{f}")
            free.put(d)

    try:
        for s in range(SLOTS):
            shutil.copytree(HERE, f"{top}/s{s}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        with cf.ThreadPoolExecutor(SLOTS) as ex:
            list(ex.map(one, jobs))
        print(n)
    finally:
        shutil.rmtree(top)


main()
