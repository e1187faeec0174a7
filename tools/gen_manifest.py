#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and the `fixed` list of known_findings.json."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %H %s"], capture_output=True, text=True).stdout.splitlines()
def commit(start, full=False):
    l = [x.split(" ", 2) for x in log]
    m = [x for x in l if x[2].startswith(start)]
    assert len(m) == 1, (start, m)
    return m[0][1] if full else m[0][0]

SEQ = ("Real crate code; histories of operations on families of handles, with seeded faults at the crate's own seams, "
       "against a reference model. Sampled, not exhaustive. ")
THR = ("Real crate code on real threads that run one at a time; every interleaving decision is the seeded scheduler's, at "
       "every shared-count operation, user callback, allocation and release. Sequentially consistent interleavings only "
       "(weak memory is C03's); sampled, not exhaustive. ")
T1 = "deterministic simulation: seeded thread schedules and stalls, reference model"
T2 = "deterministic simulation: seeded histories with fault injection, reference model"
C = {
 "C01": (T1, THR + "Every read of every handle is compared with its own sequential model, at the time and at the end."),
 "C02": (T1, THR + "Every slice and every block of tree memory is tracked by identity; released memory is quarantined and poisoned."),
 "C03": ("deterministic simulation under Miri: seeded thread schedules and weak-memory behaviours, undefined-behaviour oracle",
         "The shipped crate, hook compiled out, interpreted by Miri: seeded pre-emption, store buffering and spurious failures, "
         "data-race, aliasing, uninitialised-memory and leak detection. Workloads of two to four threads. Miri's weak-memory "
         "emulation does not cover every behaviour C++20 allows. Sampled, not exhaustive."),
 "C04": (T1, THR + "Step bounds are calibrated with slack; a thread may be suspended for ever at any yield point. A wait loop without "
         "any yield point shows as a run that does not end."),
 "C05": (T2, SEQ + "Slice clone callbacks and live slices are counted per operation and compared with the path from cursor_to."),
 "C06": (T2, SEQ + "Panics are injected at the n-th callback of any kind inside operations; contents of the hit tree are then "
         "unspecified, everything else is checked in full. Memory lost by a panicking destructor is not "
         "reported. A second stage runs such histories under Miri, which judges aliasing, uninitialised memory and leaks."),
 "C07": (T2, SEQ + "Every documented rejection is attempted throughout histories and everything is compared afterwards."),
 "C08": (T2, SEQ + "Faulty hints (stale, foreign, random, endless) are the fault here. Full comparison after every few operations."),
 "C09": (T2, SEQ + "Faulty starting hints and divergence of handles sharing storage while an iterator is being stepped."),
 "C10": (T2, SEQ + "Every reference is compared with the model's slice identity after each operation."),
 "C11": (T2, SEQ + "Borrows outlive drops of trees and references in random orders, and user code re-enters from destructors. A "
         "second stage runs such histories under Miri."),
 "C12": (T2, SEQ + "Re-entrant use of references is injected at random callbacks of every operation."),
 "C13": (T2, SEQ + "Simulated streams truncate, stall, fail, interrupt and corrupt; serde_json is real."),
 "C14": (T2, SEQ + "Panics injected at any clone callback of a deep copy; structure compared through cursors."),
 "C15": (T2, SEQ + "Paths compared across all ways of getting them and with a plain tree kept next to every handle."),
 "C16": (T2, SEQ + "Index operations, callbacks and memory counted per operation; bounds calibrated with slack."),
 "C17": (T2, SEQ + "Draining is unimplemented in this tree (known findings, probed on every run); beyond the probes the check shows that "
         "creating and dropping a drain never disturbs other handles."),
 "C18": (T2, SEQ + "A non-commutative ordered index group (four components, nilpotent of class three) in place of integers, which makes a swapped direction visible; "
         "faulty hints as in C08."),
 "C20": (T2, SEQ + "User types answer wrongly at seeded moments: comparisons, sums, joins, panics and re-entrant use of references. "
         "Half of the runs are of a build without debug assertions, in which only what is assumed for safety is still checked."),
 "C21": (T2, SEQ + "The same histories on the mock, on a tree and on the model; panics in user code; the fuzzing kit is fed seeded byte strings. Insertions "
         "merging with both neighbours are compared between mock and model only (a finding on record for the tree)."),
}
NA = {"C19": "A property of the type system (which auto traits hold for which instantiations, and which lifetimes the drop checker enforces): it is decided when a program is "
             "compiled, no execution, schedule or fault is involved, so simulation cannot address it."}
import sys
done = [c for c in C if os.path.exists("miri/Cargo.toml") or c != "C03"]
if "C03" not in done:
    NA["C03"] = "check under construction"
m = {
 "version": 1,
 "setup_cmd": "bash run.sh setup",
 "hooks": {"guard": "cfg(sherman_sim)", "enable": "RUSTFLAGS=\"--cfg sherman_sim\" (run.sh)", "source_commits": [commit("sim:", True), commit("simulation hook:", True)]},
 "checks": [{"property": c, "quick_cmd": f"bash run.sh check {c}", "thorough_cmd": f"bash run.sh check {c} thorough",
             "technique": C[c][0], "level": "exploration", "level_note": C[c][1]} for c in done],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "Replay a violation with: bash run.sh replay replay/<id>.json. Known findings: known_findings.json.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
FIXED = [
 ("C18", "fix: use the matching side", "positions were composed from the wrong side for indexes whose addition does not commute"),
 ("C03", "fix: do not form a mutable reference", "two threads copying children of one shared node raced on its child pointers"),
 ("C15", "fix: cursor_to continues from the child", "cursor_to recursed for ever on a clone-on-write tree whose node was copied by another handle"),
 ("C06", "fix: keep track of holes", "a try_join that panicked left a moved-out slice behind that was destroyed twice"),
 ("C13", "fix: reject slices of non-positive size", "deserializing a slice of size zero panicked instead of reporting an error"),
 ("C15", "fix: cursor to a slice that the insertion", "the cursor returned by an insertion that was joined into its right neighbour named the wrong slice"),
 ("C15", "fix: BoundedCursor keeps", "a bounded cursor dropped a component it had room for"),
 ("C11", "fix: count every clone of a SliceRef", "cloning a SliceRef did not count it: use after free of the reference store"),
 ("C11", "fix: keep slice references usable", "references touched freed memory while the last borrow of a dropped tree was being released"),
 ("C14", "fix: release what was copied", "a panic while cloning one slice of a tree leaked the slices copied before it"),
 ("C06", "fix: release the new right half", "a panic while growing the root leaked the new right half"),
 ("C10", "fix: follow an inserted slice", "a reference made by insert_ref followed another slice when the internal node was split"),
 ("C11", "fix: do not hold a reference to a borrowed slice", "dropping the last Borrow dropped the tree while a reference to the borrowed slice was still protected (undefined behaviour)"),
 ("C15", "fix: cursor_to checks the child's index", "cursor_to used an outdated child index of a shared node and named another slice's path"),
 ("C06", "fix: do not read a key of a leaf", "after a panic in index arithmetic while a node was split, iterating over the tree read a key that was never written (undefined behaviour in release builds)"),
 ("C12", "fix: do not keep the reference table borrowed while", "making a reference (or the first query of a reference to a removed slice) in the middle of a query through another reference panicked (table of references already borrowed)"),
 ("C19", "fix: implementing RleTreeIsSend or SupportsInsert", "safe code could implement RleTreeIsSend or SupportsInsert for its own types and so send a tree with slice references to another thread, or reach unreachable_unchecked"),
 ("C19", "fix: a shared clone-on-write tree", "a clone-on-write tree of Sync but not Send values could be shared, cloned and destroyed in another thread"),
 ("C19", "fix: tell dropck", "with the nightly feature, a tree without slice references could be dropped after data that its slices borrow and use in their destructors (use after free from safe code)"),
 ("C21", "fix: the mock shifts later", "the mock computed wrong positions after insertions with directional indexes"),
 ("C21", "fix: the mock does not try to join", "the mock called try_join on slices with MAY_JOIN = false"),
 ("C21", "fix: the mock refuses negative", "the mock accepted insertions of negative size and ranges that start below zero"),
]
k = json.load(open("known_findings.json"))
k["fixed"] = [f"fixed: property={p} {commit(s)} {w}" for p, s, w in FIXED]
json.dump(k, open("known_findings.json", "w"), indent=1)
