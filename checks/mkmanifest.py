#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of harness modules that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C22": "A property of types and lifetimes over all client programs: the borrow checker accepts or rejects programs, there is no execution whose inputs a solver could range over. Several signatures are known to be unsound by design of the crate (iter() of a deque returns the deque's own lifetime).",
    "C23": "Auto-trait bounds (unsafe impl Send/Sync) are decided by the type checker per instantiation; they have no run-time behaviour to encode, and Kani does not encode concurrency.",
}
TECH = "bounded symbolic execution of the real code with Kani (MIR to CBMC to SAT), symbolic inputs over path-split pre-states, native replay of counterexamples"
NOTE = "Holds for every value within the bounds listed in the evidence file (one operation from every valid state up to the size bound, induction over states for histories); nothing is claimed beyond them. Trusts Kani's MIR translation and CBMC's memory model; element types are concrete instantiations."
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/src/{i.lower()}.rs"):
        checks.append({"property": i, "quick_cmd": f"python3 checks/run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No harness yet.")})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Open the"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "hooks": {"guard": "cfg(eastl_verif)", "enable": "RUSTFLAGS=\"--cfg eastl_verif\"", "source_commits": hook},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
