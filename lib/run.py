"""Runs scripts on the driver, turns its log into histories, and validates them with TLC."""
import json, os, re, subprocess, tempfile, shutil, time
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NOUBSAN = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=66:quarantine_size_mb=8:abort_on_error=0",
               MSAN_OPTIONS="exitcode=66")

class MachineryError(Exception):
    pass

def write_script(hists, path):
    with open(path, "w") as f:
        for hid, fam, lines in hists:
            f.write("H %s %s\n" % (hid, fam))
            for x in lines:
                f.write(x + "\n")
            f.write("end\n")

def abnormal(toks, p):
    """the event of a call which did not return: x_ = 1 crash, 2 no answer, 3 a crash which breaks the block ledger"""
    k = 2 if p.returncode == 78 else 1
    serr = p.stderr.decode(errors="replace")
    if k == 1 and any(x in serr for x in ("not a live block", "heap-use-after-free", "double-free", "foreign allocator data", "bad-free", "attempting free")):
        k = 3
    return {"op": {"growr": "grow"}.get(toks[0], toks[0]), "s": _slot(toks), "x_": k,
            "fn": toks[1] if toks[0] in ("num", "val") and len(toks) > 1 else "-", "self": 1 if any(t in ("S", "T") for t in toks) else 0, "big": 1 if "B" in toks or "b" in toks else 0,
            "why": serr[:1500] if k != 2 else "no answer within the time limit"}

ROBUST = re.compile("no interleaving here|too many literals")

def run_driver(exe, hists, work, fill=165):
    """-> list of (id, [events]); an abnormal end becomes an event with x_ = 1 (crash) or 2 (hang)"""
    res = []
    todo = list(hists)
    while todo:
        sp, op = os.path.join(work, "script"), os.path.join(work, "log")
        write_script(todo, sp)
        p = subprocess.run([exe, sp, op, str(fill)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=NOUBSAN)
        cur, got, garbled = None, [], False
        for line in open(op, errors="replace"):
            if line.startswith("H "):
                cur = [line.split()[1], []]
                got.append(cur)
            elif line.endswith("}\n") and cur is not None:
                try:
                    cur[1].append(json.loads(line))
                except ValueError:
                    garbled = True
                    break
            else:
                garbled = True
        if p.returncode == 0 and [g[0] for g in got] == [h[0] for h in todo] and not garbled:
            res += [tuple(g) for g in got]
            break
        if p.returncode in (0, 77) or not got:
            # the driver's own memory (its log, its script) was damaged by what it called, or the script is wrong
            err = "rc %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:])
            if p.returncode == 77 and ROBUST.search(err):
                raise MachineryError("script error: " + err)
            if not open(op, errors="replace").readline().startswith("H ") and p.returncode != 0:
                raise MachineryError("driver failed before the first history: " + err)
            if len(todo) > 1:
                for part in (todo[:len(todo) // 2], todo[len(todo) // 2:]):
                    res += run_driver(exe, part, work, fill)
                break
            if p.returncode == 77:
                raise MachineryError("script error: " + err)
            evs = [e for e in got[0][1]] if got else []
            lines = todo[0][2] + ["end"]
            evs.append(abnormal(lines[min(sum(1 for e in evs if e["op"] != "refuse"), len(lines) - 1)].split(), p))
            res.append((todo[0][0], evs))
            break
        hid, evs = got[-1]
        if p.returncode == 76:                     # stopped at the allocation check, as recorded
            res += [tuple(g) for g in got]
            todo = todo[len(got):]
            continue
        lines = todo[len(got) - 1][2] + ["end"]
        i = min(sum(1 for e in evs if e["op"] != "refuse"), len(lines) - 1)
        toks = lines[i].split()
        evs.append(abnormal(toks, p))
        res += [tuple(g) for g in got]
        todo = todo[len(got):]
        if sum(1 for _, e in res if e and "x_" in e[-1]) > 40:
            break                                  # enough abnormal ends to report
        if sum(1 for _, e in res if e and e[-1].get("x_") == 2) >= 6:
            break                                  # each unanswered call costs its whole time limit
    return res

BUFOPS = {"append", "prepend", "insert", "before", "after", "assign", "strip", "char", "cat", "vcat", "printf", "aprintf",
          "prnf", "aprnf", "using", "view", "grow", "growr", "shrink", "destroy", "tocstr", "create", "init", "fixed", "static",
          "rd", "wr", "pack", "enc", "dec", "poke", "vbuf"}
def _slot(t):
    return int(t[1]) if t[0] in BUFOPS and len(t) > 1 and t[1].lstrip("-").isdigit() else 0

def tlc(module, cfg_text, work, env=None, workers=8, heap="6g", timeout=800, extra=()):
    """runs TLC in its own directory; returns (returncode, output)"""
    d = tempfile.mkdtemp(dir=work)
    cfg = os.path.join(d, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp",
           JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
        out = p.stdout.decode(errors="replace"); rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace"); rc = -9
    shutil.rmtree(d, ignore_errors=True)
    return rc, out

STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")

def stats(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', re.S)

UNEVAL = re.compile(r"The behavior up to this point is:(.*?)(?=^Error:|\Z)", re.S | re.M)

def validate(module, cfg_text, hists, work, **kw):
    """-> dict(owned=[(history index, event index, tags)], other=[...], generated, distinct, out)
    A recorded call on which the specification cannot be evaluated at all (numbers beyond what any call can
    return, say) is a mismatch of its own, tagged "unevaluable"; the rest is validated without that history."""
    skip = {}
    for _ in range(8):
        idx = [i for i in range(len(hists)) if i not in skip]
        r, bad = validate1(module, cfg_text, [hists[i] for i in idx], work, **kw)
        if not bad:
            back = lambda ms: [(idx[a], b, t) for a, b, t in ms]
            un = [(i, l, (("", "unevaluable", "TRUE"),)) for i, l in sorted(skip.items())]
            return {"owned": sorted(back(r["owned"]) + un), "other": back(r["other"]), "generated": r["generated"], "distinct": r["distinct"], "out": r["out"]}
        for a, b in bad:
            skip[idx[a]] = b
    un = [(i, l, (("", "unevaluable", "TRUE"),)) for i, l in sorted(skip.items())]
    return {"owned": un, "other": [], "generated": 0, "distinct": 0, "out": ""}

def validate1(module, cfg_text, hists, work, **kw):
    if not hists:
        return {"owned": [], "other": [], "generated": 0, "distinct": 0, "out": ""}, None
    path = os.path.join(work, "trace.ndjson")
    with open(path, "w") as f:
        for hid, evs in hists:
            f.write(json.dumps({"h": hid, "ev": evs}, separators=(",", ":")) + "\n")
    rc, out = tlc(module, cfg_text, work, env={"TRACE": path}, extra=("-continue",), **kw)
    gen, dist = stats(out)
    mis = []
    for m in MIS.finditer(out):
        tags = re.findall(r'<<\s*"([^"]*)",\s*"([^"]*)",\s*(TRUE|FALSE)\s*>>', m.group(3))
        mis.append((int(m.group(1)) - 1, int(m.group(2)) - 1, tags))
    mis = sorted(set((a, b, tuple(t)) for a, b, t in mis))
    owned = [m for m in mis if any(t[2] == "TRUE" for t in m[2])]
    other = [m for m in mis if not any(t[2] == "TRUE" for t in m[2])]
    expect = 0
    first = {}
    for a, b, t in mis:
        first[a] = b
    for i, (_, evs) in enumerate(hists):
        expect += (first[i] + 2) if i in first else (len(evs) + 1)
    errors = [x for x in re.findall(r"^Error: (.*)$", out, re.M)
              if "Invariant Conforms is violated" not in x and "behavior up to this point" not in x]
    if errors and any("valuat" in e or "verflow" in e or "ttempted" in e for e in errors):
        bad = []
        for seg in UNEVAL.findall(out):
            hh, ll = re.findall(r"^/\\ h = (\d+)", seg, re.M), re.findall(r"^/\\ l = (\d+)", seg, re.M)
            if hh and ll:
                bad.append((int(hh[-1]) - 1, int(ll[-1]) - 1))
        seen = {(a, b) for a, b, _ in mis}
        bad = [x for x in bad if x not in seen and x[0] < len(hists) and x[1] < len(hists[x[0]][1])]
        if bad:
            return None, bad
    if errors or dist != expect:
        raise MachineryError("TLC: rc=%s distinct=%d expected=%d errors=%s\n%s" % (rc, dist, expect, errors[:3], out[-3000:]))
    return {"owned": owned, "other": other, "generated": gen, "distinct": dist, "out": out}, None
