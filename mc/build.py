"""Build the package under check from /repo's working tree, without touching /repo.

A scratch copy of the working tree (with whatever ignored build products are there) is made, and the Cython
extensions are rebuilt in it, incrementally by content hash in the way the project's own build does.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
STATE = "build/source-hashes.json"


def _cython_version():
    return subprocess.run(
        [PY, "-c", "import Cython;print(Cython.__version__)"], capture_output=True, text=True
    ).stdout.strip()


def _sources(root):
    found = ["setup.py"]
    for ext in ("pyx", "pxd", "pxi"):
        found += [os.path.relpath(p, root) for p in glob.glob(f"{root}/a_sync/**/*.{ext}", recursive=True)]
    hashes = {}
    for path in sorted(found):
        p = os.path.join(root, path)
        if os.path.exists(p):
            with open(p, "rb") as f:
                hashes[path] = hashlib.sha256(f.read()).hexdigest()
    hashes["cython"] = _cython_version()
    return hashes


def _remove_products(root, stem):
    for path in (
        [f"{root}/{stem}.c"]
        + glob.glob(f"{root}/{stem}.*.so")
        + glob.glob(f"{root}/build/lib.*/{stem}.*.so")
        + glob.glob(f"{root}/build/temp.*/{stem}.o")
    ):
        if os.path.exists(path):
            os.remove(path)


def make_scratch(log):
    """Copy and build; returns the scratch directory (put it first on sys.path)."""
    scratch = tempfile.mkdtemp(prefix="verif-mc-")
    root = os.path.join(scratch, "src")
    os.mkdir(root)
    for name in sorted(os.listdir(REPO)):
        if name in (".git", "tests", "docs"):
            continue
        src = os.path.join(REPO, name)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(root, name), symlinks=True,
                            ignore=shutil.ignore_patterns("__pycache__"))
        elif os.path.exists(src):
            shutil.copy2(src, os.path.join(root, name))
    new = _sources(root)
    try:
        with open(os.path.join(root, STATE)) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {}
    changed = {p for p in new.keys() | old.keys() if new.get(p) != old.get(p)}
    for so in glob.glob(f"{root}/a_sync/**/*.so", recursive=True):
        stem = os.path.relpath(os.path.join(os.path.dirname(so), os.path.basename(so).split(".")[0]), root)
        if not os.path.exists(f"{root}/{stem}.pyx"):
            _remove_products(root, stem)
    if any(not p.endswith(".pyx") for p in changed):
        shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
        for pyx in glob.glob(f"{root}/a_sync/**/*.pyx", recursive=True):
            _remove_products(root, os.path.relpath(pyx, root)[:-4])
        mode = "full"
    else:
        for pyx in changed:
            _remove_products(root, pyx[:-4])
        mode = f"incremental ({len(changed)} changed)"
    missing = [p for p in new if p.endswith(".pyx") and not glob.glob(f"{root}/{p[:-4]}.*.so")]
    if missing:
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        r = subprocess.run(
            [PY, "setup.py", "-q", "build_ext", "--inplace", "-j", str(os.cpu_count() or 1)],
            cwd=root, env=env, capture_output=True, text=True,
        )
        if r.returncode:
            log(r.stdout[-3000:] + r.stderr[-6000:])
            shutil.rmtree(scratch, ignore_errors=True)
            raise SystemExit("build of the working tree failed")
    log(f"build: {mode}, {len(missing)} extension(s) compiled")
    return scratch, root
