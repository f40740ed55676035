"""Writes MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded search over interleavings at source-line (and bytecode) granularity of up to 5 concurrent or re-entrant real calls, each compared bit for bit with the same call alone in a fresh instance. Assumes compiled numpy/scipy routines are atomic, as under the GIL.",
 "C02": "Seeded histories of up to dozens of calls with caller actions in between; every outcome compared bit for bit with a fresh instance.",
 "C03": "Argument memory is compared at executed lines of the call, at exit and after injected interrupts and allocation failures; the outcome with read-only arguments is compared with the writable one.",
 "C04": "Interrupts, exits, alarms and failing array allocations are injected at seeded points of real calls; the exception must surface or the result equal the fault-free one.",
 "C05": "Calls are abandoned at seeded points (exceptions, failed allocations, dead threads); later and concurrent calls are compared with a fresh instance.",
 "C06": "Snapshots of process and thread settings are compared at lines, at preemptions, and on every exit path including injected interrupts.",
 "C07": "Clock, entropy, random generators, environment, cwd and collector are behind seams and perturbed by the plan; batches also run in freshly spawned and forked processes with another hash seed and environment.",
 "C08": "Memory ranges of results, arguments and retained objects are compared, and caller writes are simulated between calls.",
 "C09": "Callers are stalled, killed, interrupted and re-entered at seeded points; locks, events and sleeps of the library go through simulated primitives, so waiting is detected, and every call has a step budget from its solo run.",
 "C10": "An audit hook, descriptor and thread inventories and the captured output are inspected after calls that end normally, with an error or by an injected fault.",
 "C11": "Weak references to arguments after normal and faulted calls, and retained blocks and array bytes over long histories with ever new arguments.",
 "C12": "Real matplotlib (Agg) with a simulated display that succeeds, fails, is interrupted or closes the figure; the new figure is compared with one drawn in a fresh session and the caller's figures with their state before.",
 "C13": "numpy's array memory comes from a simulated allocator that poisons, displaces and pads blocks with guard zones; outcomes are compared across memory contents.",
 "C14": "Fresh package instances are imported in seeded orders, by concurrent tasks, with imports interrupted at seeded lines and repeated, and without matplotlib.",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault placements, real spafe code, fresh-instance reference as oracle"
NA = {
 "C20": "Pure input/output relation of a sequential function: no scheduling, time, I/O, fault or history for a simulator to control. What simulation can decide of it (same answer under every schedule, history, fault and memory content) is C01-C05, C13.",
 "C21": "Numerical relation over input values only; no schedule, clock, I/O, randomness or crash point affects it.",
 "C22": "Numerical relation over parameter values only; nothing for a simulator to control.",
 "C23": "Algebraic relation between pure functions; nothing for a simulator to control.",
 "C24": "Pure argument validation; the outcome depends on argument values only, so seeded schedules and faults add nothing.",
 "C25": "Relation between two sequential pure calls; only input values matter.",
 "C26": "Data-dependence relation over input values only.",
 "C27": "Numerical correctness over input values only.",
 "C28": "Numerical accuracy over input values only.",
 "C29": "Numerical definition over input values only.",
}
PY = "/opt/venv/bin/python -B -m sim.runner check "
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m sim.build",
     "checks": [{"property": p, "quick_cmd": PY + p, "thorough_cmd": "VERIF_TIER=thorough " + PY + p, "technique": TECH, "level": "exploration", "level_note": n} for p, n in NOTE.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: the seams are the import loader, sys.monitoring line/instruction events, numpy's allocator interface and replaced time/threading modules, all installed from /verif/sim at run time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
