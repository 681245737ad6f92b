#!/usr/bin/env python3
"""Development aid, not a check: runs every harness natively by rule (see by_rule in run.py); on a
tree where the properties hold none may report anything. Usage: sweep.py [CNN...]"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/checks/run.py").read().replace("sys.exit(main())", "")
bad = 0
for pid in sys.argv[1:] or [f"C{i:02}" for i in range(1, 26) if i not in (22, 23)]:
    code = src + f"\nfor n, _ in source()[0]:\n    r = by_rule(n, 20)\n    if r[0] or 'simple' not in r[1]: print(n, r, flush=True)\n"
    out = subprocess.run([sys.executable, "-c", code.replace("__file__", repr(V + "/checks/run.py")), pid], text=True,
                         capture_output=True, env=dict(os.environ, VERIF_TIER="thorough"))
    print(pid, out.stdout, out.stderr[-500:], flush=True)
