#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in bugs_table.py, making each patch against /repo's HEAD in a scratch worktree."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/svm-bugs-wt"
BUGS = []

DEMO = '''#!/bin/bash
# Runs demo.rs as an integration test of %(crate)s in the tree at hand.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/svm-env.sh
T=%(crate)s/tests
mkdir -p "$T"
cp "$D/demo.rs" "$T/zz_demo_%(id)s.rs"
trap 'rm -f "$T/zz_demo_%(id)s.rs"; rmdir "$T" 2>/dev/null' EXIT
timeout 280 cargo test --all --no-default-features --offline --locked --test zz_demo_%(id)s -- --nocapture
'''

def bug(id, prop, edits, crate, demo, needs, breaks, script=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, crate=crate, demo=demo, needs=needs, breaks=breaks, script=script))

exec(open(os.path.join(V, "tools", "bugs_table.py")).read())

def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout

only = sys.argv[1:]
shutil.rmtree(WT, ignore_errors=True)
sh("git", "-C", "/repo", "worktree", "prune")
sh("git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD")
try:
    for b in BUGS:
        if only and b["id"] not in only: continue
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", WT, "diff")
        sh("git", "-C", WT, "checkout", "--", ".")
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(b["script"] or DEMO % b)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if b["demo"]:
            open(os.path.join(d, "demo.rs"), "w").write(b["demo"].lstrip())
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(b["id"], b["prop"])
finally:
    sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)
