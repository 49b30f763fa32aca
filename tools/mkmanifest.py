#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": (T + "seeded thread schedules with preemption inside calls, every answer compared with a solo run in a fresh process",
   "Seeded search over schedules, histories and inputs; not exhaustive. Preemption points are basic-block edges and non-stack memory accesses of geokit's code; memory is sequentially consistent. The oracle is the library itself, alone, so a value that is wrong in the same way everywhere is not this property's business."),
 "C02": (T + "seeded histories of calls, panics, re-entrance, address reuse, clock, randomness and environment faults, every answer compared with a solo run in a fresh process",
   "Seeded search over histories; not exhaustive. The oracle is the library itself, called first in a fresh process."),
 "C03": (T + "scripted and built-in components that fail, panic, stall and re-enter at seeded steps, compared with a four-step reference model",
   "Seeded search over fault sequences and call histories; not exhaustive. Built-in components are trusted to be themselves (asked on their own); order, arguments, results and buffers are judged by the model."),
 "C04": (T + "seeded building histories with a distance function that fails, panics and re-enters, compared with a reference model",
   "Seeded search over building histories; not exhaustive. Positions between joints are judged with a rounding window proportional to the number of segments."),
 "C05": (T + "seeded building histories with refused and panicking segments, compared with a reference model",
   "Seeded search over building histories; not exhaustive. Positions between joints are judged with a rounding window proportional to the number of segments."),
 "C06": (T + "the real program under a simulated random source, every output judged line by line and in distribution",
   "Seeded search over random outcomes and options; not exhaustive. Distribution tests have a false-alarm probability below 1e-9 per run on a fixed seed set."),
 "C07": (T + "the real program under a simulated random source and seeded faults of every write and entropy read",
   "Seeded search over fault sequences; not exhaustive. Faults are injected at the libc call boundary by an interposed library."),
 "C08": (T + "seeded corruption of coordinate streams under a step budget, intact records compared with solo runs",
   "Seeded search over corruptions; not exhaustive. 'Bounded' is judged as at most 4 000 000 executed basic blocks per call, about 20 times the most any call needs today."),
 "C09": (T + "seeded long histories of failing, panicking and abandoned calls by short-lived threads under a counting allocator",
   "Seeded search over histories; not exhaustive. Growth is judged over three consecutive phases after two warm-up phases; a leak of fewer than about 200 bytes per phase is not seen."),
}
PURE = "A pure numeric function of its arguments: no schedule, clock, I/O, fault or history for it to depend on, so a simulated execution is just one evaluation of it and simulation adds nothing over plain input sampling. "
NA = {
 "N01": "", "N02": "", "N03": "", "N04": "", "N05": "", "N06": "", "N07": "", "N08": "", "N09": "", "N10": "",
 "N11": "The shifts are also not reachable from outside the crate.", "N12": "", "N13": "", "N14": "", "N15": "",
}
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
READY = os.environ.get("READY", " ".join(CHECKS)).split()
for p in props:
    i = p["id"]
    if i in CHECKS and i in READY:
        t, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} --tier quick", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "technique": t, "level": "exploration", "level_note": note})
    elif i in CHECKS:
        na.append({"property": i, "reason": "The check is still being built."})
    else:
        na.append({"property": i, "reason": (PURE + NA[i]).strip()})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the library's own traits, the compiler's coverage callbacks and the libc calls. /repo carries six fix: commits, see known-findings.txt."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
