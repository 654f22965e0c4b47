#!/bin/bash
# seedtest.sh [-n] ID...: applies seeded/ID/patch.diff to /repo, builds, tests,
# runs the demonstration and the property's check (-n: no check), and undoes it
n=; [ "$1" = -n ] && { n=1; shift; }
cd /verif
for i in "$@"; do
    s=/verif/seeded/$i
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed.out 2>&1) && a=ok || { a=FAILS; tail -5 /tmp/seed.out; }
    git -C /repo apply $s/patch.diff || { echo "$i does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && b=builds || { b=NOBUILD; grep error /tmp/seed.build; }
    t=$(bash /opt/vp/test.sh /tmp/seed.json 2>/dev/null | tail -1)
    (cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed.out 2>&1) && d=QUIET || d="fails($?)"
    r=
    [ -z "$n" ] && r=$(timeout 900 python3 vp/run.py check $p 2>&1 | tail -2 | tr '\n' ' ')
    git -C /repo checkout -q -- .
    echo "$i $p base-demo=$a $b tests=[$t] demo=$d check: $r"
done
bash /opt/vp/build.sh >/dev/null 2>&1
