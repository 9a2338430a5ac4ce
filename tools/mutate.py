#!/usr/bin/env python3
"""Mutation run (development only, no check uses it): small syntactic changes to /repo's sources in scratch copies; those that
compile and pass the repository's tests are run against all specifications at once.  mutate.py <outfile> <workers> <seed> <max per file> [file...]"""
import json, os, random, re, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["strbuf.c", "strview.c", "strnum.c", "accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_pack.h",
         "accessories/strview_unpack.h", "accessories/xendian.h", "accessories/strbuf_crypt/strbuf_crypt.c",
         "accessories/strbuf_crypt/aes/aes_enc.c", "accessories/strbuf_crypt/aes/aes_dec.c", "accessories/strbuf_crypt/aes/aes_keyschedule.c",
         "accessories/strbuf_crypt/aes/gf256mul.c", "accessories/strbuf_crypt/aes/memxor.c", "strbuf.h", "strview.h", "strnum.h"]
RULES = [(r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"(?<![<>=!-])<(?![<=])", ["<=", "!="]), (r"(?<![<>=-])>(?![>=])", [">=", "!="]), (r"==", ["!=", ">="]), (r"!=", ["=="]),
         (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"(?<![+\w(\[,=] )(?<!\+)\+(?![+=])", ["-"]), (r"(?<=[\w)\]] )-(?![-=>])|(?<=[\w)\]])-(?![-=>])", ["+"]),
         (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[\w(])", [""]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
         (r"\bINT_MAX\b", ["(INT_MAX-1)"]), (r"\b(\d\d+)\b", ["(\\1+1)", "(\\1-1)"]), (r"\bcapacity\b", ["size"]), (r"(?<=->)size\b", ["capacity"]), (r"\bmemmove\b", ["memcpy"]), (r"\bbreak;", [";"]), (r"\? ", ["? !"]),
         # the alternatives of the _Generic macros
         (r"(?<=:)(\s*\w+)_first(_\w+)(?=[,\\])", ["\\1_last\\2"]), (r"(?<=:)(\s*\w+)_last(_\w+)(?=[,\\])", ["\\1_first\\2"]),
         (r"(?<=:)(\s*\w+)_start(_\w+)(?=[,\\])", ["\\1_end\\2", "\\1\\2"]), (r"(?<=:)(\s*\w+)_end(_\w+)(?=[,\\])", ["\\1_start\\2", "\\1\\2"]),
         (r"(?<=:)(\s*\w+)_before(_\w+)(?=[,\\])", ["\\1_after\\2"]), (r"(?<=:)(\s*\w+)_after(_\w+)(?=[,\\])", ["\\1_before\\2"]),
         (r"(?<=:)(\s*\w+)_append(_\w+)(?=[,\\])", ["\\1_prepend\\2", "\\1_strip\\2"]), (r"(?<=:)(\s*\w+)_prepend(_\w+)(?=[,\\])", ["\\1_append\\2"]),
         (r"(?<=:)(\s*\w+)_nocase(_\w+)(?=[,\\])", ["\\1\\2"]), (r"(?<=:)(\s*\w+)_strip(_\w+)(?=[,\\])", ["\\1_append\\2"]), (r"(?<=:)(\s*\w+_trim)(_(?:cstr|strview))(?=[,\\])", ["\\1_start\\2", "\\1_end\\2"]),
         (r"(?<=:)(\s*\w+_is_match)(_(?:cstr|strview))(?=[,\\])", ["\\1_nocase\\2"]), (r"(?<=:)(\s*\w+_starts_with)(_(?:cstr|strview))(?=[,\\])", ["\\1_nocase\\2"]), (r"(?<=:)(\s*\w+_find_(?:first|last))(_(?:cstr|strview))(?=[,\\])", ["\\1_nocase\\2"])]

def mutants(path):
    src = open(path, "rb").read().decode("latin-1")
    out, pos, cmt = [], 0, False
    for ln, line in enumerate(src.split("\n")):
        body = line.rstrip("\r")
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), body)
        code = code if cmt else re.sub(r"//.*", lambda m: " " * len(m.group(0)), code)
        if "/*" in code and "*/" not in code: cmt = True
        skip = cmt or code.lstrip().startswith(("//", "*", "/*", "#include", "#if", "#end", "#else"))
        if "*/" in code: cmt = False
        if not skip:
            code = code.split("//")[0].split("/*")[0]
            for rx, reps in RULES:
                for m in re.finditer(rx, code):
                    for rep in reps:
                        new = body[:m.start()] + m.expand(rep) + body[m.end():]
                        out.append((ln, pos, body, new))
            st = code.strip()
            if st.endswith(";") and not st.startswith(("return", "break", "#", "typedef", "struct", "static", "extern", "case", "default", "}")) and not re.match(r"^[\w\s\*]+;$", st) and "(*" not in st:
                out.append((ln, pos, body, ";"))
            m = re.match(r"^(\s*(?:else )?if\()(.*)\)(.*)$", body)
            if m and m.group(2).count("(") == m.group(2).count(")"):
                out.append((ln, pos, body, m.group(1) + "!(" + m.group(2) + "))" + m.group(3)))
                out.append((ln, pos, body, m.group(1) + "0)" + m.group(3)))
        pos += len(line) + 1
    return src, out

SUITE = r'''
import sys; sys.path.insert(0, %r)
import engine, gen_buf, gen_view, gen_num, gen_acc, json
fam = sys.argv[1].split(","); seed = int(sys.argv[2])
J = engine.Job
jobs = []
if "b" in fam:
    jobs += [J("asan", gen_buf.histories(seed, 900, {"p": {"big": 0.05}}, "x")), J("asan2", gen_buf.histories(seed + 1, 500, {"p": {"self": 0.6, "fixed": 0.5}}, "y")),
             J("opt", gen_buf.histories(seed + 2, 400, {"p": {"long": 0.3, "fixed": 0.1}}, "z"))]
if "v" in fam: jobs += [J("asan", gen_view.histories(seed, 1500, {}, "v") + gen_view.pairs(seed, None) + gen_view.far(seed, None, sizes=(255, 256, 257)), module="TraceView")]
if "n" in fam: jobs += [J("asan", gen_num.histories(seed, 3500, {}, "n") + gen_num.far(("num", "val"), gen_num.UNS + gen_num.SIG + gen_num.FLT, seed), module="TraceNum")]
if "a" in fam: jobs += [J("asan", gen_acc.histories(seed, 500, {}, "a"), module="TraceAcc")]
ctx = engine.Ctx("ANY", "quick", seed)
ctx.cov["samples"] = [0] * 9
mis = engine.execute(ctx, jobs)
print("RESULT", json.dumps([len(mis)] + [[m[2][m[3]].get("op"), sorted(set(t[1] for t in m[4]))] for m in mis[:2]] + [n[:200] for n in ctx.notes[:1]]))
import shutil; shutil.rmtree(ctx.work, ignore_errors=True)
''' % os.path.join(V, "lib")

def fam(f):
    if f.startswith("strbuf."): return "b,a"
    if f.startswith("strview."): return "v,b,n"
    if f.startswith("strnum."): return "n"
    return "a"

def main():
    outf, workers, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or FILES
    rng = random.Random(seed)
    todo = []
    for f in files:
        src, ms = mutants("/repo/" + f)
        ms = [(f, src) + m for m in ms if re.search(os.environ.get("MUT_ONLY", ""), m[3])]
        rng.shuffle(ms)
        todo += ms[:per]
    rng.shuffle(todo)
    base = tempfile.mkdtemp(prefix="mut_")
    import queue
    q = queue.Queue()
    for i in range(workers):
        d = os.path.join(base, "w%d" % i)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "_build"))
        q.put(d)
    seen = set()
    log = open(outf, "a")
    def one(t):
        f, src, ln, pos, old, new = t
        d = q.get()
        try:
            p = os.path.join(d, f)
            text = src[:pos] + new + src[pos + len(old):]
            open(p, "wb").write(text.encode("latin-1"))
            try:
                r = subprocess.run(["make", "-C", d + "/test", "CC=gcc"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
                if r.returncode: return "nobuild", None
                r = subprocess.run(["./test"], cwd=d + "/test", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
                o = r.stdout.decode(errors="replace")
                if r.returncode or "FAIL" in o: return "tests", None
            except subprocess.TimeoutExpired:
                return "tests", None
            env = dict(os.environ, VT_REPO=d, VT_BUILD=d + "/vt_build")
            try:
                r = subprocess.run([sys.executable, "-c", SUITE, fam(f), "5"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            except subprocess.TimeoutExpired:
                return "timeout", None
            shutil.rmtree(d + "/vt_build", ignore_errors=True)
            o = r.stdout.decode(errors="replace")
            m = re.search(r"RESULT (.*)", o)
            if not m: return "error", o[-600:]
            x = json.loads(m.group(1))
            return ("caught" if x[0] else "SURVIVED"), x
        finally:
            open(os.path.join(d, f), "wb").write(src.encode("latin-1"))
            os.utime(os.path.join(d, f))
            q.put(d)
    def wrap(t):
        k, x = one(t)
        log.write(json.dumps({"file": t[0], "line": t[2] + 1, "old": t[4].strip(), "new": t[5].strip(), "res": k, "info": x}) + "\n"); log.flush()
    with ThreadPoolExecutor(workers) as p:
        list(p.map(wrap, todo))
    shutil.rmtree(base, ignore_errors=True)
if __name__ == "__main__": main()
