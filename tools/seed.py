#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: make /verif/seeded/<id>/ from a spec, confirm it in scratch copies (builds, the library's own
tests pass, the demo passes without and fails with the patch), then run the property's check against it."""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
TESTS = {"linked-list": ["linked-list/sc_linked_list_test"], "memory-map": ["memory-map/sc_mmap_test"]}
DEMO_HEAD = """#include <assert.h>
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
"""
CFG = """#ifndef CONFIG_H
#define CONFIG_H
#include <stddef.h>
void *my_malloc(size_t n);
void *my_calloc(size_t a, size_t n);
void *my_realloc(void *p, size_t n);
void my_free(void *p);
""" + "".join("#define sc_%s_%s my_%s\n" % (l, f, f) for l in ("str", "uri", "array", "queue", "sock", "map", "buf", "heap", "timer")
              for f in ("malloc", "calloc", "realloc", "free")) + "#endif\n"
MY = """#include "config.h"
static long live;
struct my_head { size_t magic, size; };
void *my_malloc(size_t n) { struct my_head *h = malloc(sizeof(*h) + n); if (!h) return NULL; h->magic = 0xabcdef12; h->size = n; memset(h + 1, 7, n); live++; return h + 1; }
void *my_calloc(size_t a, size_t n) { void *p = my_malloc(a * n); if (p) memset(p, 0, a * n); return p; }
void my_free(void *p) { struct my_head *h = p; if (!p) return; if ((h - 1)->magic != 0xabcdef12) { fprintf(stderr, "foreign block\\n"); exit(1); } (h - 1)->magic = 0; free(h - 1); live--; }
void *my_realloc(void *p, size_t n) { void *q; struct my_head *h = p; if (p && (h - 1)->magic != 0xabcdef12) { fprintf(stderr, "foreign block\\n"); exit(1); } q = my_malloc(n); if (p && q) { memcpy(q, p, (h - 1)->size < n ? (h - 1)->size : n); my_free(p); } return q; }
"""
SH = """#!/bin/bash
# exit 0: the behaviour is right, nonzero: it is broken. Run with cwd /repo (or a copy of it).
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -std=gnu11 -w -g -O0 -DDEMO_DIR="\\"$d\\"" %s -o "$d/demo" "$here/demo.c" %s -lpthread -lm %s || exit 3
cd "$d" || exit 3
timeout 120 ./demo
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def fresh(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C " + d)
    return d

def build(d):
    return sh('cd %s && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc "-DCMAKE_C_FLAGS_DEBUG=-g -Wno-error" -DHAVE_BACKTRACE=1 && ninja -C _build' % d)

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ids = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    clean = fresh("clean")
    for s in spec["SEEDS"]:
        if ids and s["id"] not in ids: continue
        d = fresh("p")
        out = os.path.join(VERIF, "seeded", s["id"])
        sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % d)
        bad = None
        for f, a, b in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) != 1: bad = "%s: %d matches of %r" % (f, t.count(a), a); break
            open(p, "w").write(t.replace(a, b))
        if bad: print(s["id"], "EDIT", bad); continue
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
        lib = s["edits"][0][0].split("/")[0]
        src = s.get("src", [x for x in sorted(os.listdir("/repo/" + lib)) if x.startswith("sc") and x.endswith(".c") and "test" not in x and "example" not in x])
        open(out + "/demo.c", "w").write(DEMO_HEAD + (MY if s.get("cfg") else "") + s.get("pre", "") + s["demo"])
        open(out + "/demo.sh", "w").write(SH % (s.get("flags", "") + " -I " + lib, " ".join(lib + "/" + x for x in src), s.get("ld", "")))
        if s.get("cfg"):
            t = open(out + "/demo.sh").read()
            open(out + "/demo.sh", "w").write(t.replace("-std=gnu11", '-std=gnu11 -DSC_HAVE_CONFIG_H -I"$here"'))
            open(out + "/config.h", "w").write(CFG)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r0 = sh("cd %s && bash %s/demo.sh" % (clean, out))
        r1 = sh("cd %s && bash %s/demo.sh" % (d, out))
        b = build(d)
        msg = "demo clean=%d patched=%d build=%d" % (r0.returncode, r1.returncode, b.returncode)
        if r0.returncode: msg += " CLEAN: " + r0.stdout[-300:]
        if r1.returncode in (0, 3): msg += " PATCHED: " + r1.stdout[-300:]
        t = sh("cd %s && ctest --test-dir _build --timeout 120 -R %s" % (d, s.get("ctest", "'.*'")) if s.get("ctest") else
               "cd %s/_build/%s && ctest --timeout 120" % (d, lib))
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and b.returncode == 0 and t.returncode == 0
        if t.returncode: msg += " TESTS FAIL " + t.stdout[-300:]
        o = os.path.join(W, "out")
        t0 = time.time()
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=o, VERIF_SHRINK="1")
        c = subprocess.run(["python3", VERIF + "/check.py", s["prop"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        shutil.rmtree(o, ignore_errors=True)
        print(s["id"], "OK" if ok else "NOT CONFIRMED", msg if not ok else "", "| check:", "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode,
              "%.0fs" % (time.time() - t0), c.stdout.strip().split("\n")[-2][:160] if c.returncode == 1 else c.stdout[-200:], flush=True)
        if not ok: shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree(W, ignore_errors=True)
main()
