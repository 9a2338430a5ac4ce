"""Builds the conformance driver from /repo's current working tree (cached by content)."""
import hashlib, os, subprocess, tempfile, shutil, glob

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))

BASE = ["-std=gnu11", "-g", "-w", "-DPLATFORM_PC", "-fno-merge-constants"]
PRINTF = ["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF"]
STDLIB = ["-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB", "-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB"]
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]

# name -> (compiler, flags, GrowStep, HasDefault)
VARIANTS = {
    "asan":    ("gcc",   ASAN + PRINTF + STDLIB, 16, True),
    "asan2":   ("gcc",   ASAN + PRINTF + STDLIB + ["-DSTRBUF_CAPACITY_GROW_STEP=2"], 2, True),
    "asan1":   ("gcc",   ASAN + PRINTF + STDLIB + ["-DSTRBUF_CAPACITY_GROW_STEP=1"], 1, True),
    "asan5":   ("gcc",   ASAN + PRINTF + STDLIB + ["-DSTRBUF_CAPACITY_GROW_STEP=5"], 5, True),
    "asan64":  ("gcc",   ASAN + PRINTF + STDLIB + ["-DSTRBUF_CAPACITY_GROW_STEP=64"], 64, True),
    "opt":     ("gcc",   ["-O3"] + PRINTF + STDLIB, 16, True),
    "opt5":    ("gcc",   ["-O3"] + PRINTF + STDLIB + ["-DSTRBUF_CAPACITY_GROW_STEP=5"], 5, True),
    "clang":   ("clang", ["-O2"] + PRINTF + STDLIB, 16, True),
    "msan":    ("clang", ["-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"] + PRINTF + STDLIB, 16, True),
    "nodef":   ("gcc",   ASAN + PRINTF, 16, False),
    "userdef": ("gcc",   ASAN + PRINTF + ["-DVT_USER_DEFAULT"], 16, True),
    "nofloat": ("gcc",   ASAN + PRINTF + STDLIB + ["-DSTRNUM_NOFLOAT"], 16, True),
}

# compiled with yield points before every memory access (harness/nest.c); the driver's state can be swapped
VARIANTS["yield"] = ("gcc", ["-O1"] + PRINTF + STDLIB + ["-DSTRBUF_CAPACITY_GROW_STEP=5"], 5, True)
LIBFLAGS = {"yield": ["-fsanitize=thread", "-Wno-tsan"]}
AS_LIB = ("fam_cat.c", "fam_hdr.c")
YIELDDEF = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "vsnprintf"]

class BuildError(Exception):
    pass

def _sources():
    lib = sorted(glob.glob(REPO + "/*.c"))
    acc = sorted(glob.glob(REPO + "/accessories/**/*.c", recursive=True))
    har = sorted(glob.glob(VERIF + "/harness/*.c"))
    return lib, acc, har

def _hash(extra):
    h = hashlib.sha256((extra + repr(LIBFLAGS)).encode())
    for pat in (REPO + "/*.[ch]", REPO + "/accessories/**/*.[ch]", REPO + "/test/prnf*.[ch]", VERIF + "/harness/*.[ch]"):
        for f in sorted(glob.glob(pat, recursive=True)):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

REDEF = {"malloc": "vt_malloc", "calloc": "vt_calloc", "realloc": "vt_realloc", "free": "vt_free",
         "read": "vt_read", "write": "vt_write", "__assert_fail": "vt_assert_fail"}

def build(variant):
    """returns the path of the driver"""
    cc, flags, grow, hasdef = VARIANTS[variant]
    key = _hash(variant + repr(VARIANTS[variant]))
    dst = os.path.join(BUILD, key)
    exe = os.path.join(dst, "drv")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        lib, acc, har = _sources()
        inc = ["-I" + REPO, "-I" + REPO + "/accessories", "-I" + REPO + "/test", "-I" + VERIF + "/harness"]
        jobs, objs = [], []
        for i, src in enumerate(lib + acc + [REPO + "/test/prnf.c"] + har):
            o = os.path.join(tmp, "o%d.o" % i)
            objs.append((src, o))
            inner = ["-I" + os.path.dirname(src)]
            like = src in lib or src in acc or os.path.basename(src) in AS_LIB
            jobs.append((src, subprocess.Popen([cc] + BASE + flags + (LIBFLAGS.get(variant, []) if like else []) + inc + inner + ["-c", src, "-o", o],
                                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        err = ""
        for src, p in jobs:
            e = p.communicate()[1]
            if p.returncode:
                err += src + ": " + e.decode(errors="replace")[:2000]
        if err:
            raise BuildError(err)
        for src, o in objs:
            if src in lib or src in acc:
                args = []
                for a, b in REDEF.items():
                    if a in ("read", "write") and src in lib:
                        continue
                    args += ["--redefine-sym", "%s=%s" % (a, b)]
                if variant in LIBFLAGS:
                    for a in YIELDDEF:
                        args += ["--redefine-sym", "%s=vt_%s" % (a, a)]
                subprocess.run(["objcopy"] + args + [o], check=True)
            if variant in LIBFLAGS and os.path.basename(src) not in ("nest.c", "prnf.c"):
                like = src in lib or src in acc or os.path.basename(src) in AS_LIB
                args = ["--set-section-flags", ".bss=alloc,load,contents,data"]
                for sec in (".data", ".bss", ".data.rel", ".data.rel.local"):
                    args += ["--rename-section", sec + ("=libdata" if like else "=vtdata")]
                subprocess.run(["objcopy"] + args + [o], check=True)
        p = subprocess.run([cc] + flags + [o for _, o in objs] + ["-lm", "-o", os.path.join(tmp, "drv")],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            raise BuildError("link: " + p.stderr.decode(errors="replace")[:2000])
        for _, o in objs:
            os.remove(o)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return exe
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise

if __name__ == "__main__":
    import sys
    for v in sys.argv[1:] or VARIANTS:
        print(v, build(v))
