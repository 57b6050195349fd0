#!/bin/bash
# tools/mut.sh [-R] PATCH|REV CHECK[:args]... : development aid.  Runs checks against a scratch copy of
# /repo with PATCH applied (or at revision REV), bind-mounted over /repo in a private mount namespace.
p=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$d/repo"
if [ -f "$p" ]; then git -C "$d/repo" apply "$(realpath "$p")" || { rm -rf "$d"; exit 9; }
else git -C "$d/repo" checkout -q "$p" -- . || { rm -rf "$d"; exit 9; }; fi
export MUTD=$d
unshare -m bash -c '
mount --bind $MUTD/repo /repo
for c in "$@"; do
  id=${c%%:*}; tier=quick; case $c in *:thorough) tier=thorough;; esac
  out=$(timeout 900 /verif/check $id $tier -evidence $MUTD/ev/$id.json 2>&1); rc=$?
  echo "$id rc=$rc $(echo "$out" | tail -3 | cut -c1-300 | tr "\n" "~")"
done' x "$@"
rm -rf "$d"
