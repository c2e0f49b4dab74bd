#!/usr/bin/env python3
"""check.py <id> [--tier quick|thorough] [--replay FILE]

Builds the harness(es) of one property together with /repo's current sources, runs the generated-input
search, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines. Exit 0 held, 1 violated, 2 error."""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

SAN = ["-fsanitize=address,undefined",
       "-fno-sanitize=pointer-overflow,nonnull-attribute,alignment,function,vptr,shift-base",
       "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
BASE = ["-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion",
        "-Wno-error=incompatible-function-pointer-types", "-ftrivial-auto-var-init=pattern"]
WRAP_ALLOC = ["malloc", "calloc", "realloc", "free"]


def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        log.append(" ".join(cmd) + "\n" + r.stdout)
    return r.returncode == 0


def build(pid, b, outdir):
    """Compile one harness binary; returns (path, error log)."""
    d = os.path.join(outdir, b["bin"])
    os.makedirs(d, exist_ok=True)
    log, objs, jobs = [], [], []
    san = TSAN if b.get("tsan") else SAN
    fuzz = b.get("fuzz", False)
    inc = ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
    inc += ["-I" + os.path.join(REPO, l) for l in b["libs"]]
    inc += ["-I" + os.path.join(VERIF, x) for x in b.get("inc", [])]
    defs = ["-D" + x for x in b.get("defs", [])]
    san_d = ["-DPBT_TSAN"] if b.get("tsan") else []

    def add(src, cxx, flags):
        o = os.path.join(d, hashlib.md5(src.encode()).hexdigest()[:8] + "-" + os.path.basename(src) + ".o")
        objs.append(o)
        jobs.append(([("clang++" if cxx else "clang"), "-c", src, "-o", o] + BASE + flags))

    libsan = san + (["-fsanitize=fuzzer-no-link"] if fuzz else [])
    for l in b["libs"]:
        for s in sorted(glob.glob(os.path.join(REPO, l, "sc*.c"))):
            if s.endswith(("_test.c", "_example.c")): continue
            add(s, False, ["-std=" + b.get("std", "c99")] + libsan + inc + defs + b.get("lib_flags", []) +
                ["-D" + x for x in b.get("lib_defs", [])])
    for s in b["src"]:
        cxx = s.endswith(".cc")
        add(os.path.join(VERIF, s), cxx, (["-std=c++17"] if cxx else ["-std=gnu11"]) + libsan + inc + defs + san_d)
    add(os.path.join(VERIF, "engine/pbt.cc"), True,
        ["-std=c++17"] + inc + (["-DPBT_FUZZ"] if fuzz else []))
    link = []
    wraps = list(b.get("wrap", []))
    if b.get("alloc", False):
        wraps += WRAP_ALLOC
        add(os.path.join(VERIF, "engine/alloc.c"), False, ["-std=c11"])
    link += ["-Wl,--wrap=" + w for w in wraps]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(c, log), jobs))
    if log:
        return None, "\n".join(log)
    exe = os.path.join(d, b["bin"])
    cmd = ["clang++", "-o", exe] + objs + san + ["-pthread"] + link + b.get("ldflags", [])
    if fuzz:
        rt = glob.glob("/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a")
        cmd += rt
    if not run(cmd, log):
        return None, "\n".join(log)
    return exe, ""


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l[len("known: property=%s " % pid):])
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = os.path.abspath(a[i + 1]); i += 2
        elif a[i] == "--bin": only = a[i + 1]; i += 2
        else: print("unknown argument", a[i]); return 2
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t0 = time.time()
    top = os.environ.get("VERIF_OUT", VERIF)  # scratch output for tools/mutate.py
    outdir = os.path.join(top, "build", pid)
    os.makedirs(outdir, exist_ok=True)
    rdir = os.path.join(top, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(top, "evidence"), exist_ok=True)
    bins = CHECKS[pid]
    if replay:
        name = [l.split()[1] for l in open(replay, errors="replace") if l.startswith("harness ")][0]
        bins = [b for b in bins if b["bin"] == name]
    if only:
        bins = [b for b in bins if b["bin"] == only]
    with cf.ThreadPoolExecutor(4) as ex:
        built = list(ex.map(lambda b: build(pid, b, outdir), bins))
    for exe, err in built:
        if exe is None:
            sys.stdout.write(err[-6000:] + "\n")
            print("build failed")
            return 2
    if replay:
        return subprocess.run([built[0][0], "--prop", pid, "--replay", replay]).returncode
    rc, stats, violations = 0, [], 0
    for b, (exe, _) in zip(bins, built):
        # committed regression cases first (choices of earlier, fixed failures)
        for f in sorted(glob.glob(os.path.join(VERIF, "regress", pid, b["bin"] + "-*.replay"))):
            r = subprocess.run([exe, "--prop", pid, "--replay", f], stdout=subprocess.PIPE, text=True, errors="replace")
            if r.returncode == 1:
                print(r.stdout[-4000:]); rc = 1; violations += 1
        if rc == 1: break
        cases = b["cases"] if tier == "quick" else b.get("thorough", b["cases"] * 20)
        cases = max(8, int(cases * scale))
        fr = b.get("fuzz_runs", 0) if tier == "quick" else b.get("fuzz_thorough", b.get("fuzz_runs", 0) * 20)
        sf = os.path.join(outdir, b["bin"] + ".stats.json")
        if os.path.exists(sf): os.unlink(sf)
        dl = b.get("deadline", 240) if tier == "quick" else 3600
        r = subprocess.run([exe, "--prop", pid, "--bin", b["bin"], "--cases", str(cases), "--seed", str(seed),
                            "--workers", os.environ.get("VERIF_WORKERS") or str(b.get("workers", 8)), "--deadline", str(dl),
                            "--fuzz-runs", str(int(fr * scale)), "--out", sf, "--replay-dir", rdir] + (["--shrink", os.environ["VERIF_SHRINK"]] if "VERIF_SHRINK" in os.environ else []))
        if os.path.exists(sf):
            stats.append(json.load(open(sf)))
        if r.returncode == 1:
            rc = 1; violations += 1
            break
        if r.returncode != 0:
            rc = 2
            break
    if rc == 0:
        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if stats:
        cov = {
            "evaluations": sum(s["evaluations"] for s in stats),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
            "rule": " || ".join("%s: %s" % (s["bin"], s["rule"]) for s in stats),
            "samples": [x for s in stats for x in s["samples"]] or ["(stopped at a violation before sampling)"],
            "coverage_guided_evaluations": sum(s["fuzz_evaluations"] for s in stats),
            "classes": {s["bin"]: s["classes"] for s in stats},
            "unconfirmed_failures": sum(s["unconfirmed"] for s in stats),
            "harness_errors": sum(s["harness_errors"] for s in stats),
        }
        msgs = [s["unconfirmed_msg"] for s in stats if s["unconfirmed_msg"]] + \
               [s["error_msg"] for s in stats if s["error_msg"]]
        if msgs: cov["notes"] = msgs
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=sorted({x for b in bins for x in b.get("assumptions", [])}),
                  wall_s=round(time.time() - t0, 2), violations=violations)
        with open(os.path.join(top, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
