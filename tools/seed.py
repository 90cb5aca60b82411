#!/usr/bin/env python3
"""Planted bugs: seed.py new ID   takes the uncommitted change in /repo's working tree as the patch of seeded/ID (which
already holds meta.json and demo.sh), confirms it (builds, stable tests pass, demo fails with it and passes without it),
runs the check of its property and undoes the change.   seed.py run ID...|all  repeats this for kept patches."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def r(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
def undo(): r(["git", "-C", "/repo", "checkout", "--", "."])
def demo(d):
    p = r(["timeout", "300", "bash", d + "/demo.sh"], cwd="/repo"); return p.returncode, (p.stdout + p.stderr)[-300:]
def one(i, new, full=True):
    d = os.path.join(H, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if new:
        p = r(["git", "-C", "/repo", "diff"])
        if not p.stdout: sys.exit("no change in /repo")
        open(d + "/patch.diff", "w").write(p.stdout)
        undo()
    if r(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout: sys.exit("/repo not clean")
    res = []
    if full:
        b = r(["bash", H + "/tools/rt.sh"]); rc, o = demo(d)
        res.append(f"demo-clean={'ok' if rc == 0 else 'FAILS %d %s' % (rc, o)}")
    a = r(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if a.returncode: print(i, "patch does not apply", a.stderr); return
    try:
        if full:
            b = r(["bash", H + "/tools/rt.sh"]); res.append("tests=" + ("ok" if b.returncode == 0 else "BROKEN " + b.stdout[-300:]))
            rc, o = demo(d); res.append(f"demo-bug={'ok(fails)' if rc else 'PASSES ' + o}")
        c = r(["python3", "run.py", "--property", prop], cwd=H)
        res.append(f"check {prop}: rc={c.returncode} " + ("CAUGHT " if c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout else "MISSED ") + c.stdout.replace("\n", " ")[:400] + c.stderr[-300:])
    finally:
        undo()
    print(i, "; ".join(res), flush=True)
if __name__ == "__main__":
    ids = sys.argv[2:]
    if ids == ["all"]: ids = sorted(x for x in os.listdir(H + "/seeded") if os.path.exists(H + "/seeded/" + x + "/patch.diff"))
    for i in ids: one(i, sys.argv[1] == "new", sys.argv[1] != "quick")
    r(["bash", H + "/tools/rt.sh"])
