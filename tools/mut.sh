#!/bin/bash
# mut.sh PATCH|old:COMMIT:FILE PROPERTY...  runs checks against a changed scratch copy of /repo
p=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d"
cd "$d" || exit 2
case $p in
old:*) f=${p#old:}; git -C "$d" checkout -q "${f%%:*}" -- "${f#*:}" ;;
*) git -C "$d" apply "$p" || { echo APPLY-FAILED; rm -rf "$d"; exit 2; } ;;
esac
go build ./... || echo BUILD-FAILED
for x in "$@"; do
  cd /verif; timeout 900 ./bin/symgo -root /verif -repo "$d" -property "$x" -noevidence >"$d.out" 2>&1; rc=$?
  cut -c1-${W:-300} "$d.out" | tail -${N:-6}; echo "  => $x rc=$rc"
done
rm -rf "$d" "$d.out"
