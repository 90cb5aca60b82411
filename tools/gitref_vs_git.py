#!/usr/bin/env python3
"""Cross-check of harness/gitref.h against `git check-ignore` (development tool; not run by any check).
Usage: gitref_vs_git.py [max pattern length]"""
import itertools, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
L = int(sys.argv[1]) if len(sys.argv) > 1 else 3
ALPHA = "ab*?[]/\\!-. "
d = tempfile.mkdtemp(prefix="gitref.")
open(d + "/r.c", "w").write('''#define _GNU_SOURCE
#include <stdio.h>
#include "gitref.h"
int main(int c, char **v) { char *l = NULL; size_t n = 0; ssize_t r;
 while ((r = getline(&l, &n, stdin)) > 0) { char *p, *q; l[r-1] = 0; p = l + 2; q = strchr(p, 1); *q = 0; printf("%d\\n", gr_line(q + 1, p, l[0] == 'd')); } return 0; }
''')
subprocess.run(["gcc", "-I", HERE + "/../harness", d + "/r.c", "-o", d + "/r"], check=True)
comps = ["a", "b", "ab", "aa", "a.b", "*", "[", "]", "-", "!", "a b", "\\", "[a]", "a "]
files = [c for c in comps] + [x + "/" + y for x in ("a", "b", "ab") for y in ("a", "b", "*", "a-", "[")] + ["a/b/a", "a/b/b", "a/a/b", "b/a/a"]
# two work trees: in one every path is a file or its parent, in the other every path is a directory
trees = []
for kind in "fd":
    t = d + "/" + kind
    for p in files:
        q = os.path.join(t, p) if kind == "d" else None
        if kind == "d": os.makedirs(q, exist_ok=True)
    if kind == "f":
        for p in sorted(files, key=lambda x: -x.count("/")):
            q = os.path.join(t, p)
            if os.path.isdir(q): continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").close()
    subprocess.run(["git", "init", "-q", t], check=True)
    trees.append(t)
def git(t, pat, i):
    x = f"{d}/x{i}"
    with open(x, "w") as f: f.write(pat + "\n")
    # every path on its own: ancestors must not decide, so compare only when no ancestor is matched (done below)
    r = subprocess.run(["git", "-C", t, "-c", "core.excludesFile=" + x, "check-ignore", "--no-index", "-v", "-n", "-z", "--stdin"],
                       input="\0".join(files), capture_output=True, text=True)
    f = r.stdout.split("\0")
    os.unlink(x)
    res = {}
    for k in range(0, len(f) - 3, 4):
        res[f[k + 3]] = (f[k + 2] != "", f[k + 2].startswith("!"))
    return res
def one(job):
    i, pat = job
    bad = []
    for t in trees:
        isd = {p: os.path.isdir(os.path.join(t, p)) for p in files}
        g = git(t, pat, i)
        anc = lambda p: [p[:k] for k in range(len(p)) if p[k] == "/"]
        q = []
        for p in files: q += [(p, isd[p])] + [(a, True) for a in anc(p)]
        out = subprocess.run([d + "/r"], input="".join(f"{'d' if x else 'f'} {p}\x01{pat}\n" for p, x in q), capture_output=True, text=True).stdout.split()
        ref = dict(zip(q, map(int, out)))
        for p in files:
            want = ref[(p, isd[p])]
            for a in anc(p):                      # an excluded ancestor decides first
                if ref[(a, True)] == 1: want = 1; break
            m, neg = g.get(p, (False, False))
            got = 0 if not m else 2 if neg else 1
            if got != want: bad.append((pat, p, isd[p], "git", got, "ref", want))
    return bad
pats = []
for n in range(1, L + 1): pats += ["".join(x) for x in itertools.product(ALPHA, repeat=n)]
pats = [p for p in pats if not p.startswith(" ") and not p.startswith("! ")]
if len(sys.argv) > 2: pats = [l.rstrip("\n") for l in open(sys.argv[2])]
nb = 0
with ThreadPoolExecutor(8) as ex:
    for b in ex.map(one, enumerate(pats)):
        for x in b:
            nb += 1
            if nb < 30: print(x)
print(len(pats), "patterns,", len(files), "paths x 2, differences:", nb)
shutil.rmtree(d)
