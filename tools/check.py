#!/usr/bin/env python3
"""Build and run the generated-input check of one property against /repo's current working tree.

  check.py C01 [--tier quick|thorough] [--seed N]     run the check (default: VERIF_TIER / VERIF_SEED)
  check.py C01 --replay FILE                          re-run one saved case (exit 1 if it fails)
  check.py C01 --build-only
"""
import argparse, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POLYMPC_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8

CXX = "g++"
BASE = ["-std=c++14", "-w", "-fno-diagnostics-color", "-I" + H, "-I" + os.path.join(H, "stubs"), "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3",
        "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
MODES = {"plain": ["-O1"], "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr"]}

META = json.load(open(os.path.join(VERIF, "tools", "props.json")))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    for p in sorted(glob.glob(os.path.join(H, "*.hpp")) + glob.glob(os.path.join(H, "stubs", "**", "*"), recursive=True)):
        if os.path.isdir(p):
            continue
        with open(p, "rb") as fh:
            h.update(p.encode() + fh.read())
    return h.hexdigest()


def compile_one(src, mode, th):
    flags = BASE + MODES[mode]
    extra = []
    with open(src, "rb") as f:
        text = f.read()
    for line in text.decode().splitlines()[:5]:
        if line.startswith("// FLAGS:"):
            extra = line[len("// FLAGS:"):].split()
    key = sha(text, " ".join(flags + extra), th)
    obj = os.path.join(BUILD, os.path.basename(src)[:-4] + "-" + mode + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + extra + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None, "compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-6000:])
        os.rename(tmp, obj)
    return obj, None


BROKEN = []   # translation units that did not compile


def build(prop, mode):
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    srcs = sorted(glob.glob(os.path.join(H, prop + "_*.cpp"))) + [os.path.join(H, "pbt_main.cpp")]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, mode, th), srcs))
    errs = [e for _, e in res if e]
    objs = [o for o, _ in res if o]
    if errs:
        print("\n".join(errs), file=sys.stderr)
        # the instances that still compile are searched all the same: a violation there is an answer, quiet is not (see main)
        BROKEN.extend(errs)
        if not any(o and s != srcs[-1] for s, (o, _) in zip(srcs, res)) or not res[-1][0]:
            sys.exit(2)
    exe = os.path.join(BUILD, prop + "-" + mode + "-" + sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + MODES[mode] + objs + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print(r.stdout.decode(errors="replace")[-6000:], file=sys.stderr)
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


def known(prop):
    """lines: 'known: property=<id> case=<name> <text>' or 'fixed: ...' (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                parts = line.split(None, 3)
                if parts[1] == "property=" + prop and parts[2].startswith("case="):
                    out[parts[2][5:]] = parts[3].strip() if len(parts) > 3 else ""
    return out


# multiples of the number of cases written beside each sub-property, where a case is cheap and compilation dominates
CASES = {"C01": 8, "C02": 6, "C03": 3, "C04": 3, "C05": 6, "C08": 3, "C13": 6, "C17": 4, "C18": 6, "C19": 4, "C20": 4, "C21": 3,
         "C22": 8, "C23": 3, "C24": 3, "C27": 3, "C28": 3}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--mode", default="plain")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--labels", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if prop == "setup":   # nothing to prepare: every check compiles what it needs; only make sure the tools are there
        os.makedirs(BUILD, exist_ok=True)
        return subprocess.call([CXX, "--version"], stdout=subprocess.DEVNULL)
    t0 = time.time()
    exe = build(prop, a.mode)
    tb = time.time() - t0
    if a.build_only:
        print(exe)
        return 0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1")
    if a.replay:
        r = subprocess.run([exe, "--replay", a.replay], env=env)
        return 1 if r.returncode == 1 else (0 if r.returncode == 0 else 2)
    # failing inputs go beside the evidence (ignored by git), one file per sub-property
    rdir = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)

    def run(exe, tier, scale, limit):
        cmd = [exe, "--seed", str(a.seed), "--tier", tier, "--dir", rdir, "--workers", str(JOBS), "--scale", str(scale), "--limit", str(limit)]
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None, env=env)
        try:
            j = json.loads(r.stdout.decode())
        except Exception:
            print("harness gave no result (exit %s): %s" % (r.returncode, r.stdout[-2000:]), file=sys.stderr)
            sys.exit(2)
        if "error" in j:
            print(j["error"], file=sys.stderr)
            sys.exit(2)
        return j

    results = [("plain -O1", run(exe, a.tier, a.scale * CASES.get(prop, 1), 300 if a.tier == "quick" else 3600))]
    if a.tier == "thorough" and not a.only:
        results.append(("address+undefined sanitizers", run(build(prop, "san"), "quick", a.scale, 1800)))

    violations, lines = 0, []
    listed = known(prop)
    for _, j in results:
        for f in j["failures"]:
            violations += 1
            print("  %s: %s" % (f["sub"], f["msg"]))
            print("  case: %s" % f["case"][:2000])
            lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f["replay"], VERIF)))
        if j["flaky"]:
            print("note: %d failure(s) did not replay 3 times and were dropped" % j["flaky"])
    for f in results[0][1]["findings"]:
        if f["fails"] and f["name"] in listed:
            print("KNOWN-FINDING: property=%s case=%s %s" % (prop, f["name"], listed[f["name"]]))
        elif f["fails"]:
            violations += 1
            p = os.path.join(rdir, f["name"] + ".case")
            open(p, "w").write(f["name"] + "\n\n# " + f["msg"] + "\n")
            print("  pinned case %s: %s" % (f["name"], f["msg"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, VERIF)))

    m = META[prop]
    ev = sum(j["evaluations"] for _, j in results)
    # the same choice sequence under two builds is one case: count distinct cases of the main run only
    dn = results[0][1]["distinct_nontrivial"]
    subs = {}
    for name, j in results:
        for k, v in j["subs"].items():
            subs.setdefault(k, {})[name] = v
    cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": m["rule"], "samples": results[0][1]["samples"][:12] or ["(none)"],
           "per_subproperty": subs, "truncated_by_time_limit": any(j["truncated"] for _, j in results),
           "build_s": round(tb, 1), "failures": [f for _, j in results for f in j["failures"]]}
    evid = {"property": prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": a.seed, "level": "exploration",
            "coverage": cov, "assumptions": m.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    if not a.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evid, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d violation(s); build %.1f s, total %.1f s" % (prop, ev, dn, violations, tb, time.time() - t0))
    if a.labels:
        for k, v in results[0][1]["subs"].items():
            print("   ", k, json.dumps(v))
    for l in lines:
        print(l)
    if BROKEN and not violations:
        print("no answer: %d translation unit(s) did not compile" % len(BROKEN), file=sys.stderr)
        return 2
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
