#!/usr/bin/env python3
"""Writes DESIGN.md from its prose (here), the bounds stated at the top of each harness module,
the reasons in mkmanifest.py and the table of planted bugs (checks/caught.txt)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/checks/mkmanifest.py").read()
NA = eval(re.search(r"NA = (\{.*?\n\})", src, re.S)[1])
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HOW = {
 "C01": "Oracle: a fixed array and a length. Pre-state: every (length, capacity) laid out as C++ would (begin/end/capacity), then one operation, then length, fullness, the slice and every element are compared.",
 "C02": "Oracle: the same array. The pre-state places the first element at every offset of its block, leaves unused table slots dangling, and puts the used blocks at every place of the table, so that sliding and reallocating the table are both reached.",
 "C03": "Oracle: the same array, and a walk of the raw ring in both directions.",
 "C04": "A key is (label, hash): the table sees a key only through `Hash` and `Equals`, so symbolic labels with concrete hashes per residue stand for any key type under any hash function. Equality is coarser than `==`, so code that uses the wrong one is caught. Oracle: arrays of labels and values.",
 "C05": "The policy is a pure function of five numbers: all are symbolic (SMT for the float part), with the prime table as the only loop. What the answer must satisfy is recomputed with integers, with a tolerance of 2^-22 for the f32 arithmetic that EASTL prescribes.",
 "C06": "The comparator decides where a key goes: concrete ordinals mapped to raw keys per comparator, values symbolic; plus small maps with fully symbolic keys to have the binary search run over symbolic comparisons.",
 "C07": "Trees cannot be built through the crate (there is no insertion), so each shape is laid out as C++ would, in place, with colors; the walk is compared with the array of ascending keys.",
 "C08": "Oracle: bytes and char starts of an ideal text (encoding recomputed in the harness). Chars symbolic over each whole width class.",
 "C09": "The same steps with the raw object looked at instead of the text.",
 "C10": "The steps of C01, C02, C03, C06 over an allocator that keeps books: a block returned twice, with another layout, never, or touched after its return fails (the last through the solver's memory model).",
 "C11": "The same for hash tables and trees.",
 "C12": "The same steps over elements that record their life in a table of their own: created, alive, dropped; every drop, every look and the end of the harness check it.",
 "C13": "The same for hash tables and trees, with tracked keys and tracked values.",
 "C14": "Pool states are laid out directly (which nodes are in use, the chain of returned ones, the never used rest); one operation, then everything is handed out and checked for overlap. The list over it runs on an arena whose overflow blocks lie in front of, right behind, and away from the buffer.",
 "C15": "As C01, with the object in a place of its own, then moved to another (the old one is overwritten), before and after the operation.",
 "C16": "Every interleaving of calls from both ends is a path; the elements are symbolic. The C++ pair is taken and turned back at every position. The iterators' other methods (`nth`, `nth_back`, `count`, `last`, `fold`, `rfold`, `rev`, `any`) are compared with stepping, for every k up to one past the end.",
 "C17": "The raw objects are read through repr(C) mirrors of EASTL's classes written from the C++ headers, not from the crate; traversal as the C++ iterators do it.",
 "C18": "Reference hash functions in the harness; SAT for integers and strings, z3 for floats.",
 "C19": "Count symbolic over all 64 bits; the allocator under test sees requests through one that judges them (exact product in 128 bits) and ends the execution there.",
 "C20": "All values symbolic, the expected answers computed from bits; then ordered containers under Less and Greater compared with each other.",
 "C21": "As the FixedList part of C14, compiled with nightly, at every placement of the object relative to its alignment.",
 "C24": "A counter (the fuse) makes the n-th call of user code panic. In the solver's model a panic stops the operation at that point; the container is then looked at, dropped and its books closed, for every n. A counterexample is replayed with a real unwinding panic.",
 "C25": "Elements write a mark and one symbolic byte; the text is read back from a sink. The real core::fmt runs, with its dynamic calls resolved by constant propagation.",
}
out = []
w = out.append
w("""# Solver-based checking of EASTL-rs

Generated by `python3 checks/mkdesign.py` (prose in that file; bounds from the head of each `harness/src/cNN.rs`).

## How a property is decided

The deciding engine is Kani 0.68 (MIR of /repo's crate -> CBMC -> SAT; z3 where a harness asks for it). Harnesses
live in `harness/`, a crate with a path dependency on /repo; every run of a check compiles /repo's working tree anew,
so the encoding is always of the current code. A harness

* builds a pre-state: every valid object up to the stated bound, laid out through `repr(C)` mirrors of EASTL's C++
  structs (written from the C++ layout, `m*.rs`) and transmuted to the crate's type. The shape (length, capacity,
  position of elements in blocks, chain pattern, tree shape) is chosen by a symbolic selector whose values become
  separate paths (`env::split`), so shapes are concrete on each path and all element values and arguments symbolic;
* executes one operation (or two) of the real code;
* asserts the property against a small reference model, and that the post-state is again valid.

One step from an arbitrary valid state is an inductive step: histories of any length are covered as far as their
states lie within the shape bound. Unwinding assertions are on (a bound that is too small fails, it does not truncate; the
driver then retries with a larger one) and each harness has reachability witnesses that must come back satisfied
(an unreachable end makes the check fail as vacuous).

What the solver refutes is replayed: the harness is compiled natively against /repo (dev and release profile,
AddressSanitizer, Miri) and fed the solver's values. Where asking CBMC for a full trace would cost more than the refutation did
(its trace generation multiplies memory), the failing harness is first run natively along its selector choices with a few simple
value series (`by_rule` in run.py); this only ever looks for the replay of a failure the solver has already established, never
decides that something holds. Only what reproduces is reported as VIOLATION (exit 1); everything else that is
not a clean pass (solver out of time or memory, build failure, counterexample that does not reproduce) is exit 2, never a
silent pass.

`checks/run.py CNN` is the driver; `VERIF_TIER=thorough` adds the harnesses whose name begins with `x_`.
`checks/sweep.py` (a development aid, no check) runs all harnesses natively by rule on a tree and must be quiet on a correct one.
Evidence (bounds, harnesses, queries, functions encoded, solver time) goes to `evidence/CNN.json`.

### Trust and limits common to all checks

* Kani's MIR translation and CBMC's memory model; SAT/SMT solvers. Element types are concrete instantiations chosen to differ in
  size, alignment, drop and equality; generic code is not verified for all types.
* `<*mut u8>::add` and the like are replaced by their wrapping versions (Kani's model of their preconditions costs more than
  the code under test): a dereference out of bounds is detected, merely forming such a pointer is not.
* Kani judges `<` on symbolic bools wrongly; harnesses order bools by cases.
* A panic of the crate counts as a violation unless the harness expects a refusal (`*_refuses`, `*_may_refuse`).
* The allocators never fail unless the harness is about that. Under Kani, C18 replaces `strlen` by the known length, C19 and
  C25 the system allocator by one that records (C25: typed cells, and `std::fmt::format` writes into a fixed buffer), C07/C25's larger
  trees `ParentColor::ptr` by a plain read (they have no colors; that `ptr` strips exactly the color is a harness of its own).
* Not claimed: floats whose value has no size_t (C18), EASTL's view of strings with inner NULs beyond their bytes (C09), types of size 0
  (the crate divides by the size), insertion into `Map`/`Set`/`FixedMap` (unimplemented in the crate), concurrency.
* Hook commits in /repo (`cfg(eastl_verif)`) only make internal modules visible to the harness crate.

## The properties
""")
for p in props:
    i = p["id"]
    f = f"{V}/harness/src/{i.lower()}.rs"
    w(f"### {i}: {p['title']}\n")
    if not os.path.exists(f):
        w(f"Not applicable. {NA[i]}\n")
        continue
    w(HOW[i] + "\n")
    for g in (f, f.replace(".rs", "t.rs")):
        if os.path.exists(g):
            w("Bounds: " + " ".join(l[3:].strip() for l in open(g) if l.startswith("//!")) + "\n")
    ev = f"{V}/checks/costs.json"
    if os.path.exists(ev):
        c = json.load(open(ev)).get(i)
        if c:
            w(f"Cost: about {c['wall']} s on 8 cores for the quick tier ({c['harnesses']} harnesses, {c['queries']} queries).\n")
w("""## Genuine defects found

Each was shown by a counterexample that reproduces against the real code, and repaired in a `fix:` commit of its own
(`known-findings.txt`); none is left unrepaired:
""")
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        w(f"* {m[1]} `{m[2]}`: {m[3]}")
w("""
## False alarms met on the way, and what was done

* Ordering of raw pointers into different objects (`same object violation`): defined in Rust, ignored by the driver.
* C18: floats whose truncated value has no size_t were first compared with EASTL's undefined conversion; only equality of hashes is asked now.
* C05: the load factor is checked up to the rounding of EASTL's own f32 arithmetic.

## Planted bugs

`seeded/` holds changes that compile, pass the existing tests and break a property, each with a demonstration. Each was
written from the property's text and the code. Result of the property's quick check with the bug applied:

| bug | property | caught | by |
|---|---|---|---|""")
if os.path.exists(V + "/checks/caught.txt"):
    w(open(V + "/checks/caught.txt").read().rstrip())
w("""
Strengthened after a miss: C08 (texts with NUL and other special chars as concrete texts, since `str::split` over symbolic text
exceeds memory), C14 (nodes of alignment 64), C15 (elements smaller or more aligned than the header), C07 (values of alignment 16),
C16 (remaining lengths of every iterator), C24 (rehash where pairs of different
buckets meet in the new table; every range of panicking calls was measured to reach past the last call of user code), C25 (the order of the
texts differs from the order of the keys; texts with blanks, NUL, newline, BOM and quotes at either end), C17 (element sizes around the block
size), C02, C07, C12 and C16 (iterator methods a specialisation may override: `harness/src/ways.rs`), C02, C03, C04 and C06 (built and extended
from iterators that know nothing of their length), C15 (the pool pointer names the object's own buffer after every operation and move), C10 (playback of a counterexample gets more memory than the search).
""")
open(V + "/DESIGN.md", "w").write("\n".join(out))
