#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded search over "
TRUST = (" Sampled, not exhaustive: patterns are a fixed list spanning the documented syntax plus patterns drawn from the seed; texts, "
         "histories, schedules and faults are drawn from the seed. Trusts the simulator (sim/), g++ and libstdc++, x86-64.")
C = {
 "C01": ("schedules of overlapping, nested and consecutive calls on instrumented iterators; oracle: backtracking reference model",
         "Every call's outcome, range and groups in the explored executions equal the reference model's, whatever else was in flight."),
 "C02": ("histories and interleavings of pulls, copies, moves, assignments and drops of lazy matchers; oracle: reference model driven in step",
         "Every delivered element, activity and end test in the explored histories is the model's."),
 "C03": ("pull histories with the input rewritten between pulls and reads counted or trapped; oracle: reference model on the text of the moment",
         "No operation other than a pull read the input, and every pull used the text as it was, in the explored histories."),
 "C04": ("schedules with other parties overwriting characters at any access of a call; oracle: every iterator operation and reported range checked against the window, guard pages for raw pointers",
         "No access outside the input and no range outside it in the explored executions; reads through raw pointers are only trapped at the page-guarded side."),
 "C05": ("failing allocations (n-th, from the n-th, subsets, all) in every owning operation; oracle: the fault-free execution, live-block accounting",
         "Each injected allocation failure was reported as bad_alloc, leaked nothing and changed nothing; view operations gave their normal answer with all allocations failing."),
 "C06": ("histories of owning results with inputs overwritten, freed memory poisoned and reused; oracle: content recorded when the result was made",
         "Every owning result kept its content in the explored histories, re-read through every accessor after each step."),
 "C07": ("user visitors, transformers and generators throwing at chosen calls, in any history; oracle: call logs, live-object counts, the fault-free sequence",
         "Each injected exception reached the caller, with exact call logs and nothing lost or repeated afterwards."),
 "C08": ("stream buffers that refuse, throw, fail to sync, fail once or had failed before; oracle: what the sink accepted against the matched text",
         "Each write delivered exactly the text or a prefix with the failure shown, in the explored executions."),
 "C09": ("schedules in which tasks are stalled or abandoned at any access; oracle: completion within a number of accesses bounded by the model's work, no blocking",
         "Every call in the explored executions completed within 50 accesses per step of the model plus 4000 (real maximum: 7 per step). Calls through raw pointers are only bounded by a time limit."),
 "C10": ("input accesses failing once or persistently at chosen or scheduled points; oracle: no normal return after a failure, fault-free execution",
         "No call returned normally after an injected failure, and copying operations passed each one on; termination of the program counts as stopping."),
 "C15": ("histories of view results and the lazy objects that deliver them, with the input written to, interleaved at every access; oracle: reference model when made, that observation from then on, the text of the moment",
         "Every view result in the explored histories kept its outcome and ranges, re-read after each operation, and reading gave the current characters of its own range only."),
 "C16": ("schedules in which the process's locale changes at any access, with the C and C++ character functions behind a seam; oracle: reference model, the settings before",
         "Every call and pull in the explored executions gave the model's answer whatever simulated locale was current, and left it installed. Locale functions other than the character classification, case and collation ones are not simulated."),
}
checks = []
for pid, (tech, note) in C.items():
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "technique": T + tech, "level": "exploration", "level_note": note + TRUST})
na = [("C11", "Decided entirely by the compiler while parsing the pattern: nothing runs, so there is no execution, schedule or fault to simulate."),
      ("C12", "One side of the comparison is constant evaluation inside the compiler, which has no scheduling, I/O, allocation or other parties to simulate; run-time answers themselves are checked by C01."),
      ("C13", "A relation between two ways of building a type at compile time; the program that is built has no multi-party behaviour that depends on it. (Some expressions are part of C01-C10's and C15-C16's pattern lists.)"),
      ("C14", "Static facts about types, available without running anything; group content at run time is checked by C01.")]
m = {"version": 1, "setup_cmd": "python3 -c \"import ast; ast.parse(open('check.py').read())\" && g++ --version > /dev/null",
     "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in na],
     "notes": "No hooks in /repo: the seams (caller's iterators, allocator, callbacks, generators, streams) are the library's own interfaces. Checks compile /repo/include from the working tree into a scratch directory that they remove."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
