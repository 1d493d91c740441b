"""Write MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded search over "
TECH = {
    "C01": T + "call histories of live objects, judged against pristine processes",
    "C02": T + "interleaved round trips with faults, judged by the signal itself",
    "C03": T + "fault sequences (interrupts, failed allocations, failing diagnostics) inside calls",
    "C04": T + "thread schedules at source line granularity",
    "C05": T + "call, failure and schedule histories, judged against the latest call and against the operator itself",
    "C06": T + "tree histories, judged against an executable reference model",
    "C07": T + "tree edit and reconstruct histories, judged against an executable reference model",
    "C08": T + "fault sequences inside tree operations, judged against an executable reference model",
    "C09": T + "thread schedules of tree readers, judged against an executable reference model",
    "C10": T + "histories and schedules of functional calls, judged against pristine processes",
    "C11": T + "calls, failures and instants at which inputs are observed",
    "C12": T + "ambient state, faults and schedules that change it inside calls",
    "C13": T + "forward and backward orders, gradient modes and faults",
    "C14": T + "training histories with crashes, torn checkpoints and restarts",
    "C15": T + "snapshot points, forks and restarts in histories",
    "C16": T + "histories that keep, overwrite and recheck results",
}
NOTE = ("Sampled, not exhaustive: every run is repeatable from (VERIF_SEED, run index); a quiet check is evidence within the "
        "generated universes. Trusts PyTorch, NumPy, PyWavelets and the reference (a process that performs the call alone, "
        "the signal itself, or the packet model, see DESIGN.md). Preemption happens at source lines and call returns of ptwt, interrupts at source lines; C code is atomic; CPU only.")
R = "A pure function of its arguments: no schedule, fault, clock or history in it; simulation would only dress input sampling up. "
NA = {
    "N01": R + "What depends on history of the padded transforms is C10, their round trips are C02.",
    "N02": R + "What depends on history of the matrices is C01-C05; C02 checks round trips through them.",
    "N03": R, "N04": R + "History dependence of cwt is C10.",
    "N05": R, "N06": R + "History dependence of gradients is C13.",
    "N07": R, "N08": R + "That a rejected call leaves no trace is C03, C08 and C11.",
    "N09": R, "N10": "A statement about the PyTorch tracer's output; nothing in it meets a schedule, fault or history the simulator owns.",
    "N11": R,
}
checks = []
for p, t in TECH.items():
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": t, "level": "exploration", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "python3 check.py --self-test",
           "checks": checks, "not_applicable": [{"property": k, "reason": v.strip()} for k, v in NA.items()],
           "notes": "No hooks in /repo: scheduling, faults and storage sit behind seams Python already has (sys.settrace, sys.setprofile, "
                    "the torch dispatch mode, lock constructors, id, sys.stderr, os.fork). Replay: python3 check.py --replay FILE."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
