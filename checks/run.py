#!/usr/bin/env python3
"""run.py <ID>: decides one property on /repo's working tree with its Kani harnesses.

The harnesses of property Cnn are those of harness/src/cnn.rs; names beginning with x_ belong to
the thorough tier only, names ending in _refuses expect the code under test to panic.
Exit 0: held on everything within the bounds. Exit 1: VIOLATION (reproduced natively).
Exit 2: no answer (build failure, time or memory out, counterexample that does not reproduce).
"""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, W = V + "/harness", V + "/.work"
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
MOD = PID.lower()
NIGHTLY = PID == "C21"
QUICK = TIER != "thorough"
HTIME = int(os.environ.get("VERIF_HTIME", "300" if QUICK else "1800"))
TOTAL = int(os.environ.get("VERIF_TOTAL", "600" if QUICK else "14000"))
MEM = int(os.environ.get("VERIF_MEM_GB", "7" if QUICK else "14")) << 30
JOBS = os.environ.get("VERIF_JOBS", "8" if QUICK else "3")
KT = W + ("/kani-nightly" if NIGHTLY else "/kani")
T0 = time.time()

def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg eastl_verif")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e

ALONE = 20 << 30  # a harness that runs by itself
def limit(mem=None):
    resource.setrlimit(resource.RLIMIT_AS, (mem or MEM, mem or MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run(cmd, cwd, timeout, e=None, lim=True, mem=None):
    """Runs a command in its own process group; on timeout the group is ended."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True, preexec_fn=(lambda: limit(mem)) if lim else None)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out

# Modules that name internals of the crate are built behind a feature of their own; if one no
# longer builds, the rest of the property's harnesses still decide.
EXTRA = {"C07": ("c07t", "tree"), "C25": ("c25t", "tree")}
FEATURES = ["nightly"] if NIGHTLY else []
MODS = [MOD]
if PID in EXTRA:
    MODS.append(EXTRA[PID][0])
    FEATURES.append(EXTRA[PID][1])

def source():
    names, bounds = [], []
    only = os.environ.get("VERIF_ONLY")
    for mod in MODS:
        t = open(f"{H}/src/{mod}.rs").read()
        m = re.search(r"^// cbmc: (.*)$", t, re.M)
        if m:
            CBMC[:] = m[1].split()
        bounds += [l[3:].strip() for l in t.splitlines() if l.startswith("//!")]
        SMT.update(f"{mod}::{n}" for n in re.findall(r"kani::solver\(z3\).*\n(?:\s*#.*\n)*\s*(\w+) \[", t))
        for n, u in re.findall(r"^\s*(\w+) \[(\d+)\] \{", t, re.M):
            if not (QUICK and n.startswith("x_")) and (not only or re.search(only, n)):
                names.append((f"{mod}::{n}", int(u)))
    return names, bounds

CBMC = []
SMT = set()
def feat():
    return ["--features", ",".join(FEATURES)] if FEATURES else []

CHECK = re.compile(r"^Check \d+: (.*)\n\t - Status: (\w+)\n\t - Description: \"(.*)\"\n(?:\t - Location: (.*))?", re.M)

def parse(text):
    """-> verdict, checks [(name, status, description, location)], solver seconds"""
    checks = [(m[1], m[2], m[3], m[4] or "") for m in CHECK.finditer(text)]
    m = re.search(r"^Verification Time: ([\d.]+)s", text, re.M)
    done = re.search(r"^VERIFICATION:- (\w+)", text, re.M)
    return (done[1] if done else None), checks, float(m[1]) if m else 0.0

def cls(name):
    m = re.search(r"\.([a-zA-Z_]+)\.\d+$", name)
    return m[1] if m else ""

def triage(name, checks):
    """-> failures, unwind failures, unsupported, missing witnesses, expected panics seen"""
    fails, unw, unsup, miss, refused = [], [], [], [], 0
    for n, st, d, loc in checks:
        c = cls(n)
        if c == "cover":
            if st not in ("SATISFIED",):
                miss.append((d, st))
        elif st == "FAILURE":
            if c == "unwind" or d.startswith("unwinding assertion") or c == "recursion":
                unw.append((n, d, loc))
            elif c == "unsupported_construct" or "not currently supported by Kani" in d:
                unsup.append((n, d, loc))
            elif re.match(r"same object violation in .* (<|<=|>|>=) ", d):
                pass  # Rust defines the order of any two raw pointers
            elif name.endswith(("_refuses", "_may_refuse")) and c == "assertion" and not loc.startswith("src/") and not d.startswith("attempt to"):
                refused += 1
            else:
                fails.append((n, d, loc))
    return fails, unw, unsup, miss, refused

def kani(names, playback=False, unwind=None, extra_time=0, solver=None):
    cmd = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing", "--target-dir", KT] + feat()
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
    else:
        cmd += ["--no-assertion-reach-checks", "-j", JOBS, "--output-format", "terse", "--output-into-files"]
    if playback or solver:
        # also where a harness asks for an SMT solver: those give no concrete values
        cmd += ["--solver", solver or "cadical"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    cmd += ["--harness-timeout", f"{HTIME + extra_time}s", "--exact"]
    for n in names:
        cmd += ["--harness", n]
    if CBMC:
        cmd += ["--cbmc-args"] + CBMC
    left = max(60, TOTAL - (time.time() - T0))
    return run(cmd, H, left + extra_time, mem=ALONE if playback else None)

def results(names):
    r = {}
    for n in names:
        p = f"{KT}/result_output_dir/{n}"
        r[n] = open(p, errors="replace").read() if os.path.exists(p) else ""
    return r

def playback_cases(text):
    """Concrete values printed by Kani: [(kind, description, [bytes...])]"""
    cases = []
    for blk in re.split(r"Concrete playback unit test for", text)[1:]:
        k = re.search(r"/// Check for `?([\w ]+)`?: \"(.*?)\"", blk)
        vals = []
        body = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", blk, re.S)
        if body:
            for m in re.finditer(r"vec!\[([\d, ]*)\]", body[1]):
                vals.append([int(x) for x in m[1].replace(" ", "").split(",") if x])
        cases.append((k[1].strip() if k else "?", k[2] if k else "?", vals))
    return cases

BUILT = {}
LAST = [""]
def build_replay(kind):
    if kind in BUILT:
        return BUILT[kind]
    tc = "nightly" if NIGHTLY or kind in ("asan",) else "stable"
    td = f"{W}/replay-{kind}{'-n' if NIGHTLY else ''}"
    e = env(RUSTUP_TOOLCHAIN=tc)
    cmd = ["cargo", "build", "--offline", "--target-dir", td] + feat()
    exe = f"{td}/debug/replay"
    if kind == "release":
        cmd.append("--release")
        exe = f"{td}/release/replay"
    if kind == "asan":
        e["RUSTFLAGS"] += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        exe = f"{td}/x86_64-unknown-linux-gnu/debug/replay"
    rc, out = run(cmd, V + "/replay", 300, e, lim=False)
    BUILT[kind] = exe if rc == 0 else None
    if rc != 0:
        print(f"replay build ({kind}) failed:\n{out[-2000:]}")
    return BUILT[kind]

def replay_one(kind, harness, path):
    """-> (reproduced, what)"""
    if kind == "miri":
        e = env(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance")
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--target-dir", f"{W}/replay-miri"] + feat() + ["--", harness, path]
        rc, out = run(cmd, V + "/replay", 240, e, lim=False)
        m = re.search(r"error: Undefined Behavior: (.*)", out)
        # only what the solver can have meant; pointers made from integers look wrong to Miri anyway
        bad = bool(rc and m and re.search(r"uninitialized|freed|out-of-bounds|dangling pointer|null", m[1]) and "provenance" not in out)
        return bad, (m[1] if m else f"exit {rc}")
    exe = build_replay(kind)
    if not exe:
        return False, "no build"
    e = env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", RUST_BACKTRACE="0")
    rc, out = run([exe, harness, path], W, 20, e, lim=kind != "asan")
    LAST[0] = out
    if rc is None:
        return True, "does not terminate"
    if rc in (0, 76, 77, 78):
        return False, f"exit {rc}: {out.strip().splitlines()[-1] if out.strip() else ''}"
    m = re.search(r"panicked at (.*?)\n(.*)", out) or re.search(r"(ERROR: AddressSanitizer.*)", out)
    return True, (" ".join(m.groups()) if m else f"exit {rc}") [:300]

FILLS = [(0, 0), (1, 1), (97, 1), (100, -1), (7, 0x7fffffffffffffff), (0x1234567890ab, 0x7fffffffffffffff)]
def by_rule(n, budget):
    """The failing harness on every choice of its selectors and simple values for the rest, against the real code."""
    path = f"{W}/replays/{PID}-{n.split('::')[1]}-rule.vals"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    t, why = time.time(), []
    for fill in FILLS:
        ch, runs = [], 0
        while time.time() - t < budget and runs < 300:
            with open(path, "w") as f:
                f.write(f"# {n}\n# replay with: replay/ crate, arguments {n} {path}\n! {fill[0]} {fill[1]} {' '.join(map(str, ch))}\n")
            ok, what = replay_one("dev", n, path)
            if ok:
                with open(path, "a") as f:
                    f.write(f"# reproduced (dev): {what}\n")
                return path, f"dev: {what}"
            runs += 1
            m = re.search(r"choices:([ \d/]*)", LAST[0])
            if not m:
                return None, what
            used = [tuple(map(int, x.split("/"))) for x in m[1].split()]
            while used and used[-1][0] + 1 >= used[-1][1]:
                used.pop()
            if not used:
                break
            ch = [v for v, _ in used]
            ch[-1] += 1
    return None, "no simple values reproduce it"

def reproduce(n, unw_only, slow):
    """Gets concrete values for a failing harness and replays them. -> (path, how) or (None, why)"""
    # asking for values costs at least another run of the harness: where that is much, simple ones first
    if slow:
        r = by_rule(n, 30)
        if r[0]:
            return r
    r = solver_values(n, unw_only)
    if not r[0] and not slow:
        s = by_rule(n, 30)
        if s[0]:
            return s
    return r

def solver_values(n, unw_only):
    rc, out = kani([n], playback=True, extra_time=200)
    cases = [c for c in playback_cases(out) if c[0] != "cover" and not c[1].startswith("reach:")]
    # a case of the harness's own assertion first, then the others
    cases.sort(key=lambda c: 0 if c[0] == "assertion" else 1)
    if not cases:
        return None, "no concrete values: " + out[-300:].replace("\n", " | ")
    why = []
    for kind in ("dev", "release", "asan", "miri"):
        for i, (k, d, vals) in enumerate(cases[:6]):
            path = f"{W}/replays/{PID}-{n.split('::')[1]}-{i}.vals"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(f"# {n}  solver: {k}: {d}\n# replay with: replay/ crate, arguments {n} {path}\n")
                f.write("".join("".join(f"{b:02x}" for b in v) + "\n" for v in vals))
            ok, what = replay_one(kind, n, path)
            if ok:
                with open(path, "a") as f:
                    f.write(f"# reproduced ({kind}): {what}\n")
                return path, f"{kind}: {what}"
            why.append(f"{kind}/{i} [{d[:60]}]: {what}")
    return None, "; ".join(why)[:1500]

def evidence(names, bounds, stats, violations, note):
    os.makedirs(V + "/evidence", exist_ok=True)
    ev = {
        "property": PID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real code (Kani: MIR -> CBMC -> SAT) regenerated from /repo's "
                           "working tree on this run; each query asks the solver for any value of the symbolic variables within "
                           "the bounds that breaks an assertion. " + note,
            "engine": "kani 0.68.0 / cbmc, solver verdict per harness",
            "bounds": bounds,
            "harnesses": [{"name": n, "unwind": u, "verdict": stats["verdict"].get(n, "none"),
                           "queries": stats["q"].get(n, 0), "witnesses_satisfied": stats["w"].get(n, 0),
                           "seconds": round(stats["t"].get(n, 0.0), 2)} for n, u in names],
            "queries_discharged": stats["ok"],
            "queries_undecided_or_failed": stats["bad"],
            "reachability_witnesses_satisfied": sum(stats["w"].values()),
            "functions_encoded": sorted(stats["fn"]),
            "symbolic_execution_and_solver_seconds": round(sum(stats["t"].values()), 1),
        },
        "assumptions": [
            "Kani's translation of MIR and CBMC's memory model; the allocator never fails unless stated",
            "pointer add/sub are stubbed by their wrapping versions: dereferences out of bounds are detected, merely forming such a pointer is not",
            "bounds as listed; unwinding assertions are on, so no execution within them is truncated",
            "one harness per concrete instantiation: the element types named in the bounds stand for others",
        ],
        "wall_s": round(time.time() - T0, 1), "violations": violations,
    }
    with open(f"{V}/evidence/{PID}.json", "w") as f:
        json.dump(ev, f, indent=1)

def main():
    names, bounds = source()
    if not names:
        print("no harnesses"); return 2
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(KT + "/result_output_dir", ignore_errors=True)
    rc, out = kani([n for n, _ in names])
    note = ""
    if rc and len(MODS) > 1 and "could not compile `vh`" in out:
        note = f" {MODS[1]} does not build against this tree; its harnesses were left out."
        print("note:" + note)
        MODS.pop()
        FEATURES.remove(EXTRA[PID][1])
        names, bounds = source()
        rc, out = kani([n for n, _ in names])
    res = results([n for n, _ in names])
    st = {"verdict": {}, "q": {}, "w": {}, "t": {}, "fn": set(), "ok": 0, "bad": 0}
    unw_of = dict(names)
    suspects, errors = [], []
    if rc is None:
        errors.append("time is out")
    if "could not compile" in out and not any(res.values()):
        print("no answer: build failed:\n" + "\n".join(re.findall(r"^error.*(?:\n .*)*", out, re.M))[:4000])
        evidence(names, bounds, st, 0, "The harnesses did not build.")
        return 2

    def account(n, text):
        verdict, checks, t = parse(text)
        st["t"][n] = st["t"].get(n, 0) + t
        st["q"][n] = sum(1 for c in checks if cls(c[0]) != "cover")
        st["w"][n] = sum(1 for c in checks if cls(c[0]) == "cover" and c[1] == "SATISFIED")
        for c in checks:
            m = re.search(r"repo/src/(\S+?):\d+:\d+ in function (.*)$", c[3])
            if m:
                f = re.sub(r"<.*", "", re.sub(r"::<[^:]*?>", "", m[2])) or m[2]
                st["fn"].add(f"src/{m[1]}: {m[2].split('::<')[0].split('<')[0] or m[2]}::{m[2].rsplit('::', 1)[-1]}")
        return verdict, checks

    # harnesses that fail only because a loop outgrew its bound: once more, with a larger one
    small = []
    for n, u in names:
        f, w = triage(n, parse(res[n])[1])[:2]
        if w and not f:
            print(f"note: {n}: unwinding bound {u} too small ({w[0][2]}), trying again")
            small.append(n)
    if small and time.time() - T0 < TOTAL:
        kani(small, unwind=max(unw_of[n] for n in small) * 2 + 4)
        for n, text in results(small).items():
            st["t"][n] = parse(res[n])[2]
            if parse(text)[1]:
                res[n] = text

    # harnesses that ask for an SMT solver and got no answer from it: once more with SAT
    mute = [n for n, _ in names if n in SMT and not parse(res[n])[1]]
    if mute and time.time() - T0 < TOTAL and not any(triage(n, parse(res[n])[1])[0] for n, _ in names):
        print(f"note: no answer from the SMT solver, trying SAT: {' '.join(mute)}")
        kani(mute, solver="cadical")
        for n, text in results(mute).items():
            if parse(text)[1]:
                res[n] = text

    for n, u in names:
        text = res[n]
        verdict, checks = account(n, text)
        if verdict is None or not checks:
            tail = " ".join(text.split())[-200:]
            st["verdict"][n] = "no answer"
            errors.append(f"{n}: no answer from the solver ({tail})")
            continue
        f, w, un, miss, refd = triage(n, checks)
        st["ok"] += sum(1 for c in checks if cls(c[0]) != "cover" and c[1] == "SUCCESS")
        st["bad"] += sum(1 for c in checks if cls(c[0]) != "cover" and c[1] != "SUCCESS")
        if f or w or un:
            st["verdict"][n] = "failed"
            suspects.append((n, f, w, un))
        elif miss:
            st["verdict"][n] = "vacuous"
            errors.append(f"{n}: witness not reached: {miss}")
        elif n.endswith("_refuses") and not refd:
            st["verdict"][n] = "vacuous"
            errors.append(f"{n}: no refusal was reachable")
        else:
            st["verdict"][n] = "holds"
    st["bad"] -= 0

    known = []
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"KNOWN (\S+) (\S+)/(.*?)\s+--\s+(.*)", l)
        if m and m[1] == PID:
            known.append((m[2], m[3], m[4]))
    violation = None
    # harnesses whose own assertions fail come first: they say most
    suspects.sort(key=lambda s: (not any(x[2].startswith("src/") for x in s[1]), not s[1], bool(s[3]), st["t"].get(s[0], 0)))
    shown = set()
    tried = 0
    for n, f, w, un in suspects:
        new = [x for x in f if not any(k[0] == n.split("::")[1] and k[1] == x[1] for k in known)]
        for k in known:
            if k[0] == n.split("::")[1] and any(x[1] == k[1] for x in f) and k not in shown:
                shown.add(k)
                print(f"KNOWN-FINDING: property={PID} {k[2]}")
        if not new and not w and not un:
            continue
        what = "; ".join(f"{d} ({loc})" for _, d, loc in (new or w or un)[:3])
        print(f"solver: {n}: {what}")
        if tried >= 5 or time.time() - T0 > (820 if QUICK else 1e9):
            continue
        tried += 1
        path, how = reproduce(n, not f, st["t"].get(n, 0) > 60)
        if path:
            violation = (n, path, how, what)
            break
        errors.append(f"{n}: counterexample did not reproduce natively: {what}: {how}")
    evidence(names, bounds, st, 1 if violation else 0, f"{len(names)} harnesses." + note)
    if violation:
        n, path, how, what = violation
        print(f"{n}: {what}\nreproduced natively, {how}")
        print(f"VIOLATION property={PID} replay={path}")
        return 1
    for e in errors:
        print("no answer: " + e)
    if errors:
        return 2
    print(f"{PID}: held on {len(names)} harnesses, {st['ok']} queries, {time.time() - T0:.0f} s")
    return 0

sys.exit(main())
