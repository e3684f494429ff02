"""writes MANIFEST.json from the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import core
NOTES = {
    "D01": "Seeded sample of programs, options and worlds; each is exactly repeatable. Trusts the simulator to be the only source of nondeterminism (checked: cases are run twice).",
    "D02": "Per program and schedule the equivalence is decided exactly by linear algebra over the field (closure of linear consequences and span of quadratic ones); programs and schedules are a seeded sample. The unsimplified system is the reference, so its own faithfulness to the source is not judged here.",
    "D03": "Seeded sample of programs and clock behaviours. The monotonic clock is assumed monotonic.",
    "D04": "Independent strict readers of every file format; seeded sample of programs, options and schedules.",
    "I01": "Every fault position of small compilations is reachable; positions and kinds are sampled per case from the recorded list of operations of an undisturbed run.",
    "I02": "The process is killed, or the next operation failed, right after announcements and at sampled operations; the announced files are compared with those of an undisturbed run.",
    "I03": "Short transfers and EINTR at sampled operations, alone and many at a time; outputs must be those of an undisturbed run.",
    "I04": "Open, resolve and read failures on sampled source operations, in layouts with decoy files of the same name; outputs must be the undisturbed ones or the compilation must fail.",
    "I05": "Crashes at sampled operations and stale outputs of other programs, then an undisturbed compilation that must give the reference outputs.",
    "I06": "Whole scratch directory compared before and after; every path the process opens for writing, creates or removes is checked by the simulator. Writes elsewhere are detected, and contained by the scratch directory and by refusing them.",
    "I07": "Thread creation, allocation and CPU count failures at sampled points.",
    "W01": "Real generated C++ (plain back end, no assembly) with every pthread operation and, through compiler instrumentation, every shared memory access a scheduling point; compared with an independent reference evaluation of the program. Programs, inputs and schedules are a seeded sample.",
    "W02": "Deadlock and step bound under seeded schedules of the real generated program.",
    "W03": "Happens-before race detection (vector clocks over instrumented accesses) and lifetime tracking in the same simulated executions.",
    "W04": "Inputs are damaged in every documented way; both back ends must fail and leave no witness file.",
    "W05": "Write faults at sampled operations of the real generated program and of the real Node.js driver.",
    "W06": "Truncated, missing and unreadable data, module and input files, and read faults at sampled operations.",
    "J01": "Histories of calls on one real calculator instance in Node.js, including overlapping and abandoned ones, against fresh instances and the reference evaluation.",
    "R01": "Real reader and writer crates; the file is cut at every sampled byte and reads are shortened, interrupted and failed.",
}
NA = {
    "N01": "Arithmetic is a pure function: no schedule, time, I/O or fault takes part in it, so a simulator has nothing to decide; it needs proof or exhaustive and differential testing.",
    "N02": "Parsing is a pure single-threaded function of the source bytes; searching inputs for panics is fuzzing, not simulation of schedules and faults. The I/O side is covered by I04 and I06.",
    "N03": "Type checking is a pure single-threaded function of the program; no simulated nondeterminism reaches it.",
    "N04": "Constraint generation runs on one thread without time or I/O; the property is about the language, not about schedules or faults. Everything after it is covered by D01, D02 and D04.",
    "N05": "Without parallel components neither generation nor the generated code has a schedule; what depends on threads, I/O and call history is covered by W01 to W06 and J01.",
    "N06": "The inspection is a pure function of the constraint system computed on one thread.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    try:
        c = core.load(i)
    except (ImportError, AttributeError):
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "technique": "deterministic simulation with fault injection (seeded schedules and faults, exact replay)",
                   "level": "exploration", "level_note": NOTES[i]})
m = {"version": 1, "setup_cmd": "python3 -m dst.build", "checks": checks,
     "hooks": {"guard": "cfg vp_hooks", "enable": "RUSTFLAGS='--cfg vp_hooks' when dst/build.py builds the crate in /verif/reader (R01 only): an accessor for what the constraint file reader read. Every other seam is the operating system interface (interposed with LD_PRELOAD) or compiler instrumentation of generated code; the compiler itself is built without hooks.", "source_commits": ["5c5dda5"]},
     "not_applicable": na,
     "notes": "Environment: VERIF_SEED, VERIF_TIER; VERIF_CASES and VERIF_JOBS override sizes. ./replay FILE re-executes a replay file. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
