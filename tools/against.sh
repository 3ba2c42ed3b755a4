#!/bin/bash
# against.sh PATCH|commit:FILE ... -- ID...: run the quick checks of the given IDs on a scratch copy of /repo with the patch applied
# (dev tool; the registered checks always run on /repo itself)
set -e
W=$(mktemp -d /tmp/against-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cd "$W/repo"
while [ $# -gt 0 ] && [ "$1" != "--" ]; do
  case "$1" in
    old:*) git show "$(git rev-list --max-parents=0 HEAD)":"${1#old:}" > "${1#old:}";;
    *) git apply "$1";;
  esac
  shift
done
shift
cd /verif
for id in "$@"; do VERIF_REPO="$W/repo" python3 run.py "$id" --tier "${TIER:-quick}" | cut -c1-200 || true; done
