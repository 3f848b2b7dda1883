#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a spec defining id, property, needs, breaks, edits, demo[, mini]"""
import sys, json, os, shutil, subprocess
REPO = os.environ.get("REPO", "/repo")
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = f"/verif/seeded/{ns['id']}"
    os.makedirs(d, exist_ok=True)
    for path, old, new in ns["edits"]:
        p = f"{REPO}/{path}"
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    lib = "/verif/tools/seedlib"
    shutil.copy(lib + "/demo.sh", d)
    if ns.get("mini"):
        shutil.copy(lib + "/mini.rs", d)
    if ns.get("minisrv"):
        shutil.copy(lib + "/minisrv.rs", d)
    open(d + "/demo.rs", "w").write(ns["demo"])
    print(ns["id"])
