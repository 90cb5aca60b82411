#!/usr/bin/env python3
"""Driver of all checks:  run.py --property ID [--tier quick|thorough]   (tier defaults to $VERIF_TIER or quick)

Builds the harness(es) of the property from /repo's current working tree, runs them, writes evidence/<ID>.json and
exits 0 (held on everything explored), 1 (VIOLATION line printed) or 2 (error of the check itself)."""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from checks import CHECKS          # property -> description of its check

LIBS = ["-lapr-1", "-laprutil-1", "-lpcre", "-ljansson", "-larchive", "-lpuzzle", "-lgd", "-lpthread", "-ldl", "-lm"]
FLAVOURS = {
    "asan":  {"cc": "gcc", "cflags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"], "ld": ["-fsanitize=address"]},
    "plain": {"cc": "gcc", "cflags": ["-O1", "-g"], "ld": []},
    "sched": {"cc": "clang", "cflags": ["-O1", "-g", "-fsanitize=thread", "-Dmemcmp=mc_memcmp"], "ld": []},   # instrumented, linked with our own runtime
}
def apr_flags():
    try:
        f = subprocess.run(["apr-1-config", "--includes", "--cppflags"], capture_output=True, text=True).stdout.split()
        return [x for x in f if x.startswith("-")]
    except OSError:
        return ["-I/usr/include/apr-1.0", "-D_REENTRANT"]

class CheckError(Exception): pass

def sh(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError(f"{what} failed:\n$ {' '.join(cmd)}\n{r.stdout}{r.stderr}")

def build(flavour, harness, extra_src=(), extra_flags=(), ld=()):
    """compile /repo/src and one harness; returns the binary"""
    fl = FLAVOURS[flavour]
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "src")
    inc = ["-I" + os.path.join(HERE, "config"), "-I" + src, "-I" + os.path.join(src, "vendor", "xxhash")] + apr_flags()
    defs = ["-DHAVE_CONFIG_H", "-DFTWIN_TEST_BUILD", "-D_GNU_SOURCE", "-DHAVE_APR", "-w"]
    sources = sorted(glob.glob(src + "/*.c")) + sorted(glob.glob(src + "/vendor/xxhash/*.c"))
    heads = sorted(glob.glob(src + "/*.h")) + sorted(glob.glob(src + "/vendor/xxhash/*.h")) + [os.path.join(HERE, "config/config.h")]
    hh = hashlib.sha256()
    for h in heads:
        hh.update(open(h, "rb").read())
    hh.update(repr((fl, defs, "2")).encode())
    objs, jobs = [], []
    def add(path, cflags, tag):
        k = hashlib.sha256(hh.digest() + open(path, "rb").read() + repr(cflags).encode()).hexdigest()[:24]
        o = os.path.join(d, f"{tag}-{os.path.basename(path)[:-2]}-{k}.o")
        objs.append(o)
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(d, f"{tag}-{os.path.basename(path)[:-2]}-*.o")):
                if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)
            jobs.append((path, [fl["cc"], *cflags, *(defs[:-1] if tag == "h" else defs), *inc, "-c", path, "-o", o + ".tmp%d" % os.getpid()], o))
    for s in sources:
        # the vendored hash is pure computation: no need to trace its memory accesses
        cf = ["-O2", "-g"] if "vendor" in s else fl["cflags"]
        add(s, cf, "r")
    for o in objs: pass
    nrepo = len(objs)
    hflags = ["-O2", "-g", "-Werror=implicit-function-declaration", "-I" + os.path.join(HERE, "harness"), *extra_flags]
    if flavour == "asan": hflags.append("-fsanitize=address")
    for s in [harness + ".c", "mc.c", *extra_src]:
        p = os.path.join(HERE, "harness", s)
        hh2 = b"".join(open(x, "rb").read() for x in sorted(glob.glob(os.path.join(HERE, "harness", "*.h"))))
        add(p, hflags + ["-DHH=0x" + hashlib.sha256(hh2).hexdigest()[:8]], "h")
    from concurrent.futures import ThreadPoolExecutor
    def one(j):
        path, cmd, o = j
        sh(cmd, "compiling " + path)
        os.replace(o + ".tmp%d" % os.getpid(), o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    lib = os.path.join(d, "librepo-%d.a" % os.getpid())
    if os.path.exists(lib): os.unlink(lib)
    sh(["ar", "rcs", lib, *objs[:nrepo]], "archiving")
    exe = os.path.join(d, harness + "-%d" % os.getpid())
    cc = "g++" if False else fl["cc"]
    sh([cc, "-rdynamic", *objs[nrepo:], lib, "-o", exe, *fl["ld"], *ld, *LIBS], "linking " + harness)
    os.unlink(lib)
    return exe

def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop and k.get("status", "open") == "open"]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default=None, help="replay one case number of the (first) harness part, or PART:CASE")
    ap.add_argument("--jobs", default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.property, a.tier
    chk = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path): os.unlink(ev_path)
    known = known_findings(prop)
    tot = dict(cases=0, evaluations=0, transitions=0, traces=0, states=0, outcomes=0)
    samples, notes, caps, parts, violation, hits = [], [], [], [], None, {}
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_abort=0:detect_stack_use_after_return=0:verify_asan_link_order=0",
               LC_ALL="C.UTF-8", TZ="UTC", VERIF_TIER=tier, VERIF_SEED=str(seed))
    exes = []
    try:
        plist = chk["parts"]
        for pi, part in enumerate(plist):
            if part.get("tier") and part["tier"] != tier: continue
            if a.only and ":" in a.only and int(a.only.split(":")[0]) != pi: continue
            exe = build(part.get("flavour", "asan"), part["harness"], part.get("extra_src", ()), part.get("extra_flags", ()), part.get("ld", ()))
            exes.append(exe)
            out = os.path.join(BUILD, f"out-{prop}-{pi}-{os.getpid()}.json")
            cmd = [exe, "--prop", prop, "--tier", tier, "--out", out, "--data", os.path.join(HERE, "harness"), *part.get("args", [])]
            for k in known: cmd += ["--known", k["key"]]
            if a.only: cmd += ["--only", a.only.split(":")[-1]]
            if a.jobs: cmd += ["--jobs", a.jobs]
            if part.get("flavour") == "sched": env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
            elif part.get("perturb"): env["GLIBC_TUNABLES"] = "glibc.malloc.perturb=163"     # fresh memory is not zero
            else: env.pop("GLIBC_TUNABLES", None)
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", stdin=subprocess.DEVNULL)
            if not os.path.exists(out):
                raise CheckError(f"harness {part['harness']} gave no result (status {r.returncode})\n{r.stdout[-3000:]}{r.stderr[-3000:]}")
            res = json.load(open(out)); os.unlink(out)
            if r.returncode == 2 or r.returncode not in (0, 1):
                raise CheckError(f"harness {part['harness']}: {res['error']}\n{r.stderr[-3000:]}")
            for k in tot: tot[k] += res[k]
            samples += res["samples"][:6]; notes += res["notes"]
            if res["capped"]: caps.append(res["cap"])
            for k, v in res["known"].items(): hits[k] = hits.get(k, 0) + v
            parts.append({"harness": part["harness"], "args": part.get("args", []), "what": part.get("what", ""),
                          **{k: res[k] for k in ("cases", "evaluations", "transitions", "traces", "states", "outcomes", "wall")}})
            if res["viol"]:
                violation = dict(property=prop, tier=tier, part=pi, harness=part["harness"], case=res["index"], key=res["key"],
                                 what=res["msg"], history=res["desc"], stderr=r.stderr[-4000:],
                                 replay=f"cd {HERE} && python3 run.py --property {prop} --tier {tier} --only {pi}:{res['index']}")
                break
            if res["cases"] == 0 and not a.only:
                raise CheckError(f"harness {part['harness']} explored nothing")
    except CheckError as e:
        print(f"check error: {e}", file=sys.stderr)
        sys.exit(2)
    finally:
        for e in exes:
            try: os.unlink(e)
            except OSError: pass
    level = chk["level"]
    cov = {"exhaustive": not caps, "samples": samples[:12] or ["(none)"], "bounds": chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"],
           "cases": tot["cases"], "parts": parts}
    if notes: cov["notes"] = notes
    if caps: cov["caps_hit"] = caps
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"], evaluations=tot["evaluations"], distinct_outcomes=tot["outcomes"])
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["outcomes"], rule=chk["rule"], transitions=tot["transitions"], states=tot["states"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 3), "violations": 1 if violation else 0}
    json.dump(ev, open(ev_path, "w"), indent=1)
    for k in known:
        if hits.get(k["key"], 0) or not violation:
            print(f"KNOWN-FINDING: property={prop} {k['what']} (cases hit: {hits.get(k['key'], 0)})")
    if violation:
        rp = os.path.join(BUILD, "replay", f"{prop}-{tier}.json")
        json.dump(violation, open(rp, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {violation['what']}\n  history: {violation['history'][:1500]}")
        sys.exit(1)
    print(f"{prop} {tier}: held; cases={tot['cases']} evaluations={tot['evaluations']} states={tot['states']} transitions={tot['transitions']} outcomes={tot['outcomes']} in {time.time()-t0:.1f}s")
    sys.exit(0)
main()
