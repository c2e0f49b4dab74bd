#!/usr/bin/env python3
"""mutate.py LIB[,LIB] [--sample N] [--seed S] [--scale F] [--jobs J] [--only REGEX]

Development aid: plants small syntactic changes one at a time in scratch copies of /repo and reports those that
none of the library's checks notices (survivors). Not used by any check."""
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"array": ["C06", "C10"], "queue": ["C07", "C10"], "buffer": ["C03", "C04", "C05", "C10"], "condition": ["C29"], "mutex": ["C29"],
         "thread": ["C29"], "crc32": ["C18"], "heap": ["C08", "C10"], "ini": ["C14", "C15"], "linked-list": ["C09"],
         "logger": ["C22", "C23", "C24"], "map": ["C01", "C02"], "memory-map": ["C25"], "option": ["C17"], "perf": ["C31"],
         "sc": ["C19"], "signal": ["C20", "C21"], "socket": ["C26", "C27", "C28"], "string": ["C12", "C13", "C10"], "time": ["C30"],
         "timer": ["C11", "C10"], "uri": ["C16"]}


def active_lines(path, lib):
    """lines of path that the Linux build compiles (or that belong to macro definitions)"""
    out = subprocess.run(["gcc", "-E", "-I/repo/" + lib, path], stdout=subprocess.PIPE, text=True, errors="replace").stdout
    act, cur, ln = set(), None, 0
    for l in out.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            ln, cur = int(m.group(1)), m.group(2)
            continue
        if cur == path and l.strip():
            act.add(ln)
        ln += 1
    src = open(path).read().split("\n")
    inm = False
    for i, l in enumerate(src):
        if re.match(r"\s*#\s*define", l) or inm:
            act.add(i + 1)
            inm = l.endswith("\\")
    return act


RULES = [(r"<=", ["<", ">="]), (r">=", [">", "<="]), (r"(?<![<>=!-])<(?![<=])", ["<=", ">"]), (r"(?<![<>=-])>(?![>=])", [">=", "<"]),
         (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w\)\]] )\+(?= [\w\(])", ["-"]), (r"(?<=[\w\)\]] )-(?= [\w\(])", ["+"]),
         (r"\+\+", ["--"]), (r"--(?!-)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["/"]),
         (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"!(?=[\w\(])", [""]), (r"\bbreak;", ["continue;", ";"]), (r"\bcontinue;", ["break;", ";"]), (r"\bNULL\b", []),
         (r"(?<![\w.])(\d+)(?![\w.xX])", ["+1", "-1"])]


NARROW = {"size_t": ["unsigned int", "unsigned short"], "uint64_t": ["unsigned int", "unsigned short"], "ssize_t": ["int", "short"], "int64_t": ["int", "short"], "long": ["int", "short"],
          "uint32_t": ["unsigned short", "unsigned char"], "int": ["short", "signed char"], "unsigned int": ["unsigned short"]}


def narrow(path, lib):
    """every integer type, one at a time, replaced by a narrower one"""
    act = active_lines(path, lib)
    res, com = [], False
    for i, l in enumerate(open(path).read().split("\n")):
        if com:
            com = "*/" not in l
            continue
        if l.strip().startswith("/*"):
            com = "*/" not in l
            continue
        if i + 1 not in act or l.strip().startswith(("//", "#")): continue
        for m in re.finditer(r"\b(size_t|uint64_t|ssize_t|int64_t|long|uint32_t|int)\b", l):
            if m.group(1) == "int" and re.match(r"^(static )?int sc_", l): continue
            for r in NARROW[m.group(1)]: res.append((path, i, l[:m.start()] + r + l[m.end():]))
    return res


def mutants(path, lib):
    act = active_lines(path, lib)
    src = open(path).read().split("\n")
    com = False
    res = []
    for i, l in enumerate(src):
        code = l
        if com:
            if "*/" in l: com = False
            continue
        if l.strip().startswith("/*"):
            com = "*/" not in l
            continue
        if i + 1 not in act or l.strip().startswith("//") or l.strip().startswith("#") or "assert" in l: continue
        c = code.find("//")
        body = code if c < 0 else code[:c]
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])+\'', body)]
        for pat, reps in RULES:
            for m in re.finditer(pat, body):
                if any(a <= m.start() < b for a, b in strs): continue
                for r in reps:
                    t = r
                    if r in ("+1", "-1"):
                        n = int(m.group(1)) + int(r)
                        if n < 0: continue
                        t = str(n)
                    res.append((path, i, code[:m.start()] + t + code[m.end():]))
        # delete a simple statement
        st = body.strip()
        tail = "\\" if st.endswith("\\") else ""
        st2 = st.rstrip("\\").strip()
        if st2.endswith(";") and not st2.startswith("(void)") and not re.match(r"(return|goto|break|continue|case|default|struct|const|static|extern|typedef|int|char|size_t|uint\w+|bool|void|ssize_t|double|long|va_list|else|\})\b", st2) \
           and (src[i - 1].rstrip("\\ \t").endswith((";", "{", "}", ":", ")")) or not src[i - 1].strip()):
            if st2.count("(") == st2.count(")"):
                res.append((path, i, re.match(r"\s*", code).group(0) + ";" + " " * 4 + tail))
        m = re.match(r"(\s*)(return) ([^;]+);", body)
        if m and m.group(3) not in ("0", "NULL", "false", "true"):
            res.append((path, i, m.group(1) + "return 0;" + (" \\" if tail else "")))
        m = re.match(r"^(.*\bif \()(.*)(\) \{.*)$", body)
        if m:
            res.append((path, i, m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3)))
            res.append((path, i, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3)))
    return res


def run(mu, lib, scale, workdir):
    path, i, new = mu
    d = tempfile.mkdtemp(dir=workdir)
    repo = os.path.join(d, "repo")
    try:
        os.makedirs(repo)
        for l in os.listdir("/repo"):
            if os.path.isdir("/repo/" + l) and l not in (".git", "_build"): os.symlink("/repo/" + l, os.path.join(repo, l))
        os.unlink(os.path.join(repo, lib))
        shutil.copytree("/repo/" + lib, os.path.join(repo, lib))
        f = os.path.join(repo, lib, os.path.basename(path))
        src = open(f).read().split("\n")
        src[i] = new
        open(f, "w").write("\n".join(src))
        env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d, VERIF_SHRINK="0.1", VERIF_SCALE=str(scale), VERIF_WORKERS="4")
        for p in PROPS[lib]:
            try:
                r = subprocess.run(["python3", os.path.join(VERIF, "check.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            except subprocess.TimeoutExpired:
                return "timeout " + p
            if r.returncode == 1: return "killed " + p
            if r.returncode == 2: return "nobuild" if "build failed" in r.stdout else "error " + p + r.stdout[-300:]
        return "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    libs = sys.argv[1].split(",")
    o = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    n, seed, scale, jobs = int(o.get("--sample", 100000)), int(o.get("--seed", 1)), float(o.get("--scale", 0.3)), int(o.get("--jobs", 4))
    work = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        for lib in libs:
            ms = []
            for f in sorted(os.listdir("/repo/" + lib)):
                if re.match(r"sc.*\.[ch]$", f) and not f.endswith(("_test.c", "_example.c")):
                    ms += (narrow if "--narrow" in o else mutants)("/repo/%s/%s" % (lib, f), lib)
            if "--only" in o: ms = [m for m in ms if re.search(o["--only"], m[2])]
            if "--lines" in o:
                a, b = o["--lines"].split("-")
                ms = [m for m in ms if int(a) <= m[1] + 1 <= int(b)]
            random.Random(seed).shuffle(ms)
            total = len(ms)
            ms = ms[:n]
            cnt = {}
            with cf.ThreadPoolExecutor(jobs) as ex:
                for m, r in zip(ms, ex.map(lambda m: run(m, lib, scale, work), ms)):
                    cnt[r.split()[0]] = cnt.get(r.split()[0], 0) + 1
                    if r.split()[0] not in ("killed", "nobuild"):
                        old = open(m[0]).read().split("\n")[m[1]]
                        print("%s %s:%d\n  - %s\n  + %s" % (r, os.path.basename(m[0]), m[1] + 1, old.strip(), m[2].strip()), flush=True)
            print("== %s: %d of %d mutants, %s" % (lib, len(ms), total, cnt), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
