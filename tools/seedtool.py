#!/usr/bin/env python3
"""seedtool.py make <defs.py> [id...] : writes seeded/<id>/ from definitions and keeps those that meet the rules for planted bugs
(builds, passes the stable tests, demo 0 on the unchanged tree and nonzero with the change).
seedtool.py run [-j N] [id...] : runs the property's check on a scratch copy with each planted bug applied."""
import json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; builds everything in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo_XXXXXX) || exit 0
trap 'rm -rf "$w"' EXIT
%(cc)s -std=gnu11 -g -w -DPLATFORM_PC -DSTRBUF_PROVIDE_PRINTF -DSTRBUF_PROVIDE_PRNF -DSTRBUF_DEFAULT_ALLOCATOR_STDLIB -DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB \\
  %(flags)s -I. -Iaccessories -Itest "$d/demo.c" *.c test/prnf.c $(find accessories -name '*.c') -lm -o "$w/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$w/demo"
'''
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <math.h>
#include <errno.h>
#include "strbuf.h"
#include "strview.h"
#include "strnum.h"
#define CK(c) do{ if(!(c)){ printf("FAIL line %d: %s\\n", __LINE__, #c); exit(1); } }while(0)
#define V(p,n) ((strview_t){(char*)(p),(n)})
static inline int IS(strview_t v, const char* s){ return v.size==(int)strlen(s) && v.data && !memcmp(v.data,s,v.size); }
'''

def copy_repo():
    d = tempfile.mkdtemp(prefix="seed_")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d

def tests_pass(d):
    try:
        r = subprocess.run(["make", "-C", d + "/test", "CC=gcc"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        if r.returncode: return False, "build: " + r.stderr.decode(errors="replace")[-400:]
        r = subprocess.run(["./test"], cwd=d + "/test", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    o = r.stdout.decode(errors="replace")
    if r.returncode or "FAIL" in o: return False, "tests fail"
    return True, ""

def make(s):
    """s: dict(id, prop, edits=[(file, old, new)], demo, needs, breaks, flags='', cc='gcc')"""
    d = copy_repo()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p, newline="", encoding="latin-1").read()
            nl = "\r\n" if "\r\n" in t else "\n"
            o, n = old.replace("\n", nl), new.replace("\n", nl)
            k = s.get("nth", 1)
            if t.count(o) < 1 or (t.count(o) > 1 and "nth" not in s): return "edit of %s matches %d times: %r" % (f, t.count(o), old[:60])
            i = -1
            for _ in range(k): i = t.index(o, i + 1)
            t = t[:i] + n + t[i + len(o):]
            open(p, "w", newline="", encoding="latin-1").write(t)
        patch = subprocess.run(["git", "-C", d, "diff", "--binary" if False else "--no-color"], stdout=subprocess.PIPE).stdout
        out = os.path.join(SEED, s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(patch)
        open(out + "/demo.c", "w").write(HEAD + s["demo"])
        open(out + "/demo.sh", "w").write(DEMO_SH % {"flags": s.get("flags", ""), "cc": s.get("cc", "gcc")})
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        bad = ""
        ok, why = tests_pass(d)
        if not ok: bad = why
        if not bad:
            a = subprocess.run(["bash", out + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            b = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b.returncode: bad = "demo fails unchanged: " + b.stdout.decode(errors="replace")[-400:]
            elif a.returncode in (0, 3): bad = "demo rc %d with the change: %s" % (a.returncode, a.stdout.decode(errors="replace")[-300:])
        if bad:
            shutil.rmtree(out)
            return bad
        return ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(sid, props=None):
    meta = json.load(open(os.path.join(SEED, sid, "meta.json")))
    d = copy_repo()
    try:
        r = subprocess.run(["git", "-C", d, "apply", os.path.join(SEED, sid, "patch.diff")], stderr=subprocess.PIPE)
        if r.returncode: return sid, [("apply", r.stderr.decode()[-200:])]
        env = dict(os.environ, VT_REPO=d, VT_BUILD=d + "/vt_build", VT_EVIDENCE=d + "/vt_ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        res = []
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace")
            res.append((p, "caught" if r.returncode == 1 and "VIOLATION property=" + p in o else "MISSED" if r.returncode == 0 else "rc %d %s" % (r.returncode, o[-500:]), round(time.time() - t)))
        return sid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        todo = [s for s in ns["SEEDS"] if not sys.argv[3:] or s["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(6) as p:
            for s, r in zip(todo, p.map(make, todo)):
                print(s["id"], r or "ok", flush=True)
    else:
        a = sys.argv[2:]
        j = 2
        if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
        ids = a or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(j) as p:
            for sid, r in p.map(check, ids):
                print(sid, r, flush=True)
