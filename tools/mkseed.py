#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE defines S = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks, files={name: text})]
and writes /verif/seeded/<id>/ for each (patch against /repo's HEAD)."""
import sys, os, json, difflib
ns = {}
exec(open(sys.argv[1]).read(), ns)
PRE = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 otherwise; cwd is the repository
H=$(cd "$(dirname "$0")" && pwd); G=$PWD/src/_build/goeland
st() { timeout ${T:-20} "$G" "$@" 2>&1 | grep -a -o 'SZS status [A-Za-z]*' | head -1 | cut -d' ' -f3; }
# is N STATUS ARGS..: N runs must all give STATUS
is() { n=$1; w=$2; shift 2; for k in $(seq $n); do s=$(st "$@"); [ "$s" = "$w" ] || { echo "FAIL $*: got '$s', wanted $w"; exit 1; }; done; }
# isnot N STATUS ARGS..: no run may give STATUS
isnot() { n=$1; w=$2; shift 2; for k in $(seq $n); do s=$(st "$@"); [ "$s" != "$w" ] || { echo "FAIL $*: got $s"; exit 1; }; done; }
'''
for s in ns["S"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in s["edits"]:
        t = files.setdefault(f, [open("/repo/" + f).read()] * 2)
        assert t[1].count(old) == 1, (s["id"], f, t[1].count(old), old)
        files[f] = [t[0], t[1].replace(old, new)]
    p = ""
    for f, (a, b) in files.items():
        p += "diff --git a/%s b/%s\n" % (f, f)
        p += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(p)
    open(d + "/demo.sh", "w").write(PRE + s["demo"].strip() + "\nexit 0\n")
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t.strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
