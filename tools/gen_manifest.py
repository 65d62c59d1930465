#!/usr/bin/env python3
"""Source of MANIFEST.json (run it to regenerate)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded histories of container calls in a simulated environment"
FI = " with injected failures of allocation and user code"
NOTE = ("Seeded search over generated histories%s; every violation is minimised, recorded as an explicit program and fault trace and reproduced in a fresh process before it is "
        "reported. Evidence, not proof. Trusts: the simulated elements/allocators, the reference model, clang at -O0.")
C = {
 "C01": (T + " against an abstract sequence model", ""), "C02": (T + " against an abstract sorted map model", ""),
 "C03": (T + " against an abstract unordered map model", ""),
 "C04": (T + FI + "; every element tracked in an external registry", " with a sweep over every failure point of chosen calls"),
 "C05": (T + FI + "; simulated heap with per-allocator ownership", " with a sweep over every failure point of chosen calls"),
 "C06": (T + FI + "; before/after comparison", " with a sweep over every failure point of reserve/shrink calls"),
 "C07": (T + FI + "; before/after comparison", " with a sweep over every failure point of end insertions"),
 "C08": (T + FI + "; validity and recovery oracle", " with single, persistent, windowed and total failures"),
 "C09": (T + FI + "; address tracking", ""), "C10": (T + "; aliased arguments against the model", ""),
 "C11": (T + FI + "; allocation accounting under exhausted memory", ""), "C12": (T + " under small max_size() limits", ""),
 "C13": (T + " under total failure of everything that may fail", ""),
 "C14": ("deterministic simulation: the same seeded histories run in the ordinary and the no-exceptions build, traces compared", ""),
 "C15": (T + FI + "; instrumented single-pass streams", ""), "C16": (T + "; instrumented callbacks", ""),
 "C17": ("deterministic simulation: seeded interleaving of tasks preempted inside library code, compared with each task alone", " and schedules"),
 "C18": (T + FI + "; conservation between containers", ""),
 "C19": (T + FI + "; every load and store of library code checked against the simulated heap", " in a build with access and arithmetic instrumentation"),
 "C20": (T + FI + "; work counters of every call compared with the documented bounds", ""),
}
NA = {}
SKIP = os.environ.get("SKIP", "").split()
checks = []
for k, (tech, note) in sorted(C.items()):
    if k in SKIP:
        NA[k] = "check still being built"
        continue
    checks.append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                   "evidence_file": "evidence/%s.json" % k, "technique": tech, "level": "exploration", "level_note": NOTE % note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed in /repo: allocators, elements, comparators, iterators and SFL_NO_EXCEPTIONS are existing seams; preemption points inside library code come from compiler instrumentation", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
