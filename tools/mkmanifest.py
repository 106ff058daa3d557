#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded preemption of concurrent matches between any two statements, results against lone runs on fresh matchers, plus the race detector under the simulated schedules",
         "Seeded search, not exhaustive. Every statement of the repository's packages is a possible preemption point; races are looked for in a second search with the race detector, whose scheduler creates no happens-before edges."),
 "C02": ("sinks that panic, exit the goroutine or stall at a chosen delivery, under seeded interleavings; later and concurrent matches against a matcher that never saw the fault",
         "Seeded search over fault points and schedules. Calls after the faults run on the same matcher, partly after one more registration."),
 "C03": ("seeded registration histories of several simulated callers against an executable registry model, including refusals and the matcher's public tables",
         "Seeded search over histories. Normal forms of single patterns are taken from the library itself in a fresh process; the registry rules are the model's own."),
 "C04": ("refused registrations injected anywhere in a history; the matcher against a twin that never saw them",
         "Seeded search. Compares tables, later matches and later registrations with the twin's; malformed patterns come from families whose malformedness is beyond doubt."),
 "C05": ("interleaved registrations and matches under a simulated readers-writer lock, every match against an independent list model with its own pattern semantics",
         "Seeded search. The model shares no code with the repository; patterns and values come from the generator's input space (DESIGN.md)."),
 "C06": ("simulated arrival orders of the same registrations, reports compared across replicas",
         "Seeded search, five arrival orders per set of registrations."),
 "C07": ("seeded registration histories with matches asked in every calling form and with every sink at the same point of the history",
         "Seeded search. Views are compared with one another and with the same patterns compiled and matched one by one."),
 "C08": ("buffers and sinks handed between simulated callers, scribbled over or abandoned half-way by injected sink failures, against brand-new ones",
         "Seeded search over sequences of uses."),
 "C09": ("several simulated producers appending to shared buffers, every append against the buffer-less form, a byte-exact stream model and an independent escaping model, with round trips",
         "Seeded search over append histories and texts, including invalid UTF-8 and broken escapes."),
 "C10": ("simulated callers expanding one shared parsed expression again and again under any limits, against fresh parses and an independent expansion model",
         "Seeded search over expressions and sequences of limits, depths and modes. Callers take turns."),
 "C11": ("seeded preemption of independent callers between any two statements, results against lone runs in a fresh process, plus the race detector under the simulated schedules",
         "Seeded search. Package state starts as in a fresh process in every run, so first-use initialisation is raced as well."),
 "C12": ("the random source replaced by a seeded one that also forces the lowest and highest draw; every sample matched by what generated it",
         "Seeded search over patterns and draw sequences."),
 "C13": ("sinks that start further matches while being called, nested up to three deep, under seeded interleavings; inner and outer results against lone runs",
         "Seeded search over nestings and schedules."),
 "C14": ("arguments guarded and overwritten after every call, results overwritten up to their capacity, under seeded interleavings; later results against fresh processes",
         "Seeded search. Texts handed out are kept and compared at the end of the run."),
 "C15": ("compiled patterns registered in several matchers and used on their own at the same time by simulated callers, every match against the list model",
         "Seeded search over histories; the printed form of each compiled pattern must stay the same."),
 "C16": ("crashes between calls and inside registrations; the matcher rebuilt from the surviving table must continue like the registry and list models",
         "Seeded search over crash points, rebuild orders and continuations. The surviving table is read between calls or at the crash; an interrupted registration may or may not have reached it."),
 "C17": ("replicas of one history under different map orders, pool reuse, clocks, random draws and schedules must return and deliver the same in the same order",
         "Seeded search, four environments per history; runs are also executed twice and compared as a whole."),
 "C18": ("bounded progress: a work budget per call counted in simulated steps, and callers whose sinks stall for ever while all others must finish",
         "Seeded search. The budget is 4 million statements per call; everyday calls need a few thousand. Work inside the standard library is not counted."),
 "C19": ("result sinks passed between simulated callers: matches, direct deliveries, resets and reservations against the recorded deliveries",
         "Seeded search over sequences of uses. The deliveries of a match are recorded by a second sink behind the first."),
 "C20": ("sets, items, chains and lists filled step by step by several simulated callers, lost and rebuilt from their printed form, every answer against a plain set model",
         "Seeded search over sequences of additions and questions; symbols are taken around the borders of ranges."),
 "C21": ("simulated callers that throw arbitrary and damaged texts at every call among well-formed callers, under seeded interleavings; outcomes against the same calls in a row in a fresh process, refused registrations against the tables, well-formed matches against the list model",
         "Seeded search; arbitrary texts are drawn from damaged patterns, bracket and quote scraps and broken UTF-8. Texts are short (mostly under 60 bytes) with at most three stars, because the work of a match is a power of their number."),
 "C22": ("compiled patterns shared by simulated callers in all calling forms, and printed and compiled again, every match against an independent pattern model",
         "Seeded search. The model shares no code with the repository; values are derived from the patterns, many at the border of what they match."),
 "C23": ("simulated callers that split paths, tagged paths and queries in all forms into buffers passed between them, every result against a splitting model",
         "Seeded search. The model shares no code with the repository, except that values with wildcards are compared in the normal form the library gives them alone."),
}
pure = {}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
             "technique": T + v[0], "level": "exploration", "level_note": v[1]} for k, v in checks.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in pure.items()],
 "notes": "No hooks in /repo: the seams (yield points, goroutines, channels, sync, atomics, clock, random numbers, map order, pools) are put in by instrumenting a scratch copy of the working tree at check time (sim/instr). './check.sh replay FILE' executes a replay file again. Known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
