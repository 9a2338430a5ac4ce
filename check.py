#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's working tree (see DESIGN.md).
check.py <property> --replay <file> : runs a recorded violation again."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import build, engine, inter, plans, run

def replay(path):
    r = json.load(open(path))
    if r["module"] == "build":
        try:
            build.build(r["variant"])
        except build.BuildError as e:
            print("does not build:", e); return 1
        print("conforms"); return 0
    ctx = engine.Ctx(r["property"], "quick", 1)
    if r["module"] == "pair":
        return inter.replay(r, ctx)
    exe = build.build(r["variant"])
    res = engine.run_part(exe, [("r", r["family"], r["script"])], r["fill"], ctx.work)
    v = run.validate(r["module"], engine.trace_cfg(r["module"], r["variant"], "ANY"), [("0", res[0][1])], ctx.work, workers=1)
    for h, e, tags in v["owned"]:
        print("call %d: %s" % (e, r["script"][e] if e < len(r["script"]) else "end"))
        print("recorded:", json.dumps(res[0][1][e])[:2000])
        print("differs in:", sorted(set(t[1] for t in tags)))
    if not v["owned"]:
        print("conforms")
    return 1 if v["owned"] else 0

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = engine.Ctx(prop, tier, seed)
    path = plans.decide(ctx)
    engine.finish(ctx, t0, 1 if path else 0)
    c = ctx.cov
    print("%s %s: specification %d states / %d transitions; %d histories, %d calls validated; %d/%d model transitions replayed; %.1f s"
          % (prop, tier, c["states"], c["transitions"], c["traces_validated_against_impl"], c["events_validated"],
             c["tour_transitions"], c["tour_transitions_in_graph"], time.time() - t0))
    for n in ctx.notes[:8]:
        print("note:", n[:400])
    for k, what in engine.known(prop):
        pass
    if path:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except run.MachineryError as e:
        print("the check could not be completed: %s" % str(e)[-6000:], file=sys.stderr)
        sys.exit(3)
