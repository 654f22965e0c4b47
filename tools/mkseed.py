#!/usr/bin/env python3
"""mkseed.py SPEC: writes seeded/<id> from a specification (a Python file with
ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO, LIBS)."""
import json, os, subprocess, sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
d = "/verif/seeded/" + spec["ID"]
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode
try:
    for f, old, new in spec["EDITS"]:
        s = open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open("/repo/" + f, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.c", "w").write(spec["DEMO"].lstrip())
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in the repository after a build: 0 = behaves, otherwise broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
gcc -O1 -o "$t/demo" "$d/demo.c" %s-I include _build/bin/libhev-task-system.a -pthread || exit 1
(cd "$t" && timeout 60 ./demo)
r=$?
rm -rf "$t"
exit $r
""" % spec.get("FLAGS", ""))
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
           "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/meta.json", "a").write("\n")
