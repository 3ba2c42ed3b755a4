#!/bin/bash
# mut.sh FILE OLD NEW ID...: run the quick checks on a scratch copy of /repo in which OLD is replaced by NEW in FILE (dev tool)
set -e
W=$(mktemp -d /tmp/mut-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
python3 - "$W/repo/$1" "$2" "$3" <<'P'
import sys
p, a, b = sys.argv[1:]
s = open(p).read()
assert s.count(a) >= 1, "pattern not found"
if s.count(a) > 1: print("note: pattern occurs", s.count(a), "times; replacing the first")
open(p, "w").write(s.replace(a, b, 1))
P
shift 3
cd "$(dirname "$(readlink -f "$0")")/.."
for id in "$@"; do VERIF_REPO="$W/repo" python3 run.py "$id" --tier "${TIER:-quick}" 2>/dev/null | grep -v "bound=" | cut -c1-180 | tail -${TAIL:-12} || true; done
