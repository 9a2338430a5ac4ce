#!/usr/bin/env python3
"""writes MANIFEST.json: every property of properties.jsonl that a plan decides"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plans
NOTE = {
 "B": "TLC checks the buffer specification (StrBuf.tla) exhaustively within small bounds, and every recorded call of the real code (graph tours + seeded histories, several compilers/configurations/sanitizers) is validated against it by TLC. Holds on what was explored; trusts the recording harness, prnf and the compilers.",
 "V": "TLC enumerates every view call over small alphabets and lengths and checks the specification's own laws on them; the same calls, and seeded longer ones, are executed on the real code (guarded exact-size source copies) and each result is validated by TLC. Trusts the recording harness.",
 "N": "TLC enumerates all token strings to a length and checks the grammar's laws; the strings, and seeded texts with type-specific boundary values, run on the real code and each result is validated against exact decimal/limb arithmetic in TLA+. Trusts the recording harness.",
 "A": "TLC checks the descriptor/byte-order/cipher specification within small bounds; recorded calls of the real code under scripted faults and seeded data are validated against it by TLC. Trusts the recording harness.",
 "X": "TLC checks that calls on different buffers commute in the specification (so that each of two interleaved histories must conform on its own); pairs of histories run on the real code with one call of the second placed at every memory access inside a call of the first, and both recorded histories are validated by TLC. Second calls run to completion (no arbitrary word-level interleaving of both). Trusts the recording harness and compiler instrumentation.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
           "technique": "TLA+ specification model-checked with TLC; histories from its state graph and seeded generators replayed on the code; recorded traces validated against it by TLC",
           "level": "model_checking", "level_note": NOTE[i[0]]} for i in ids if plans.has(i)]
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if not plans.has(i)],
     "notes": "No hooks in /repo: the library is observed through its public interface, its allocator callbacks and interposed read/write."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
