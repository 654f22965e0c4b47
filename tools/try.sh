#!/bin/bash
# try.sh FILE SED-EXPR CHECK...: runs checks on a scratch copy with an edit
set -e
d=$(mktemp -d /tmp/try.XXXXXX)
cp -r /repo/src /repo/include /repo/Makefile "$d" 2>/dev/null || true
cp -r /repo/. "$d" 
f=$1; e=$2; shift 2
cp "$d/$f" "$d/$f.orig"
sed -i -E -z "$e" "$d/$f"
if cmp -s "$d/$f" "$d/$f.orig"; then echo "NO CHANGE: $e"; rm -rf "$d"; exit 3; fi
diff "$d/$f.orig" "$d/$f" || true
rm "$d/$f.orig"
for c in "$@"; do VP_REPO=$d timeout 900 python3 vp/run.py check "$c" 2>&1 | tail -2 || true; done
rm -rf "$d"
