#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

COWHOOK = "yield point before every operation on a shared node's reference count (cfg sherman_sim)"

p("C01", "Clone-on-write handles are isolated under every thread interleaving",
  "Every handle to a clone-on-write tree behaves as a private, sequential tree: whatever other handles sharing storage with it do concurrently on other threads (insert, read, clone, send, drop), each read on a handle returns exactly what that handle's own sequential history of insertions produces. A slice, range or iterator obtained from one handle never changes, tears or disappears because of an operation on another handle.",
  ["schedules", "histories", "fault_sequences"],
  "for all interleavings of operations on any number of handles sharing storage, at the granularity of reference-count operations and user callbacks, including stalled threads and threads that die by panic",
  "The four clone-on-write tests are single threaded; no test runs two handles on two threads, and a sharing bug needs a preemption inside one insertion.",
  ["src/tree/cow.rs", "src/tree/node.rs", "src/tree/insert.rs", "src/tree/iter.rs", "src/tree/mod.rs"],
  [("uniqueness check before mutable descent", "src/tree/node.rs ensure_unique, into_child, make_unique"),
   ("shallow clone of one node", "src/tree/node.rs shallow_clone"),
   ("handle clone", "src/tree/mod.rs Clone for RleTree<AllowCow>"),
   ("iteration over nodes whose parent link belongs to another handle", "src/tree/iter.rs stack of mismatched parents")],
  [("strong_count", "number of handles/parents sharing the node", "src/tree/node.rs Leaf"),
   ("parent, idx_in_parent", "last unique owner of the node; stale when shared", "src/tree/node.rs Leaf")],
  ["RleTree::get/iter/size/number_of_slices/insert/clone/drop with AllowCow"], COWHOOK)

p("C02", "Shared storage is reclaimed exactly once under every interleaving",
  "For every schedule of clones, writes and drops of handles on any threads, each stored slice and each block of tree memory is released exactly once: never while some handle can still reach it, never twice, and always by the time the last handle that could reach it is gone.",
  ["schedules", "histories", "fault_sequences"],
  "for all interleavings of handle clone, write and drop on several threads, including handles dropped by an unwinding thread and writes racing the drop of the other owner",
  "No test drops handles concurrently or counts destructor runs; the decisive window (the other owner lets go between the uniqueness check and the copy) needs a chosen preemption.",
  ["src/tree/cow.rs", "src/tree/node.rs", "src/tree/mod.rs", "src/param.rs"],
  [("decrement, and destroy on zero", "src/tree/cow.rs decrement; src/tree/node.rs try_drop, do_drop"),
   ("destroy the original when the last owner left during the copy", "src/tree/node.rs ensure_unique tail"),
   ("child counts raised with the copy", "src/tree/node.rs shallow_clone")],
  [("strong_count", "owners of a node", "src/tree/node.rs Leaf")],
  ["destructor runs of slices, allocator calls"], COWHOOK)

p("C03", "Handles used on several threads are free of data races under weak memory",
  "Using any number of clone-on-write handles from several threads through the public interface never performs a data race or other undefined behaviour, under the language's weak memory model and not merely under interleaving semantics: what one thread wrote before letting go of shared storage is visible to the thread that then mutates or destroys it.",
  ["schedules", "histories"],
  "for all schedules and all outcomes allowed by the weak memory model of programs that clone, write, read and drop handles on several threads",
  "No test is multi-threaded and a too-weak ordering is invisible on x86 whatever the schedule.",
  ["src/tree/cow.rs", "src/tree/node.rs", "src/param.rs", "src/tree/mod.rs"],
  [("orderings of count operations", "src/tree/cow.rs"),
   ("no mutable access to a node before it is known unique", "src/tree/node.rs into_child, ensure_unique")],
  None, ["whole-program execution under a weak-memory, alias-tracking simulator"], None)

p("C04", "Operations are wait-free: a stalled thread never blocks another",
  "Every operation on a clone-on-write handle finishes within a number of its own steps bounded by the size of the tree, no matter how other threads are scheduled, including when other threads are suspended indefinitely in the middle of an operation on storage shared with it.",
  ["schedules", "fault_sequences"],
  "for all schedules in which any subset of the other threads is frozen at any point of any operation for ever",
  "Tests never suspend a thread inside an operation; a lock or retry loop passes every one of them.",
  ["src/tree/cow.rs", "src/tree/node.rs", "src/lib.rs"],
  [("single unconditional read-modify-write per ownership change, no locks or retry loops", "src/tree/cow.rs"),
   ("copy instead of waiting when storage is shared", "src/tree/node.rs ensure_unique")],
  None, ["steps per operation, completion with peers frozen"], COWHOOK)

p("C05", "A write copies only the path it changes, and nothing when unshared",
  "Cloning a clone-on-write tree duplicates no slice; an insertion on a handle whose storage is shared duplicates only slices in the nodes on the path to the insertion point, so at most logarithmically many in the number of slices; an insertion into storage no other handle shares duplicates none. Consequently the number of live slices over a family of handles is bounded by one full copy plus one path per divergent write.",
  ["histories", "schedules", "inputs"],
  "for all histories of clones, writes and drops over families of handles of any size and fan-out, and all schedules of them",
  "No test counts clones; copying everything gives the same answers.",
  ["src/tree/node.rs", "src/tree/mod.rs", "src/tree/insert.rs"],
  [("uniqueness check per node on the way down", "src/tree/node.rs ensure_unique/into_child"),
   ("one-node copy", "src/tree/node.rs shallow_clone"),
   ("handle clone by count", "src/tree/node.rs increase_strong_count_and_clone")],
  None, ["number of slice clone callbacks per operation, number of live slices"], None)

p("C06", "A panic in user code never corrupts memory or other handles",
  "If user-supplied code (splitting, joining, cloning or dropping a slice, index arithmetic or comparison, a cursor) panics at any point of any operation and the panic is caught, then nothing is used after being released or released twice, every later operation on that tree either succeeds on live data or panics, every other handle still reads exactly as before, and when the tree is finally dropped no slice has been destroyed more than once, and every slice has been destroyed if no destructor panicked.",
  ["fault_sequences", "histories", "crash_points"],
  "for all histories and all positions of one or more user-code panics within them, for all three feature sets",
  "The tests inject no panic at all; the guards for half-finished states are never executed by any of them.",
  ["src/tree/node.rs", "src/tree/insert.rs", "src/tree/fix.rs", "src/tree/mod.rs"],
  [("moved-out slots recorded so they are skipped", "src/tree/node.rs holes, is_hole, has_holes"),
   ("owning guards for nodes under construction", "src/tree/mod.rs NodeBox, SharedNodeBox; src/tree/node.rs GradualInitArray"),
   ("root detached while being rebuilt", "src/tree/insert.rs insert_internal")],
  [("holes", "indexes of moved-out slices", "src/tree/node.rs Leaf")],
  ["destructor runs, reads after the caught panic, other handles"], None)

p("C07", "Rejected operations leave the tree exactly as it was",
  "An operation the documentation says is rejected - an index or range out of bounds, an inverted range, a slice of non-positive size, a mutation while a slice is borrowed - reports the rejection by panicking before changing anything: afterwards contents, sizes, slice references, borrows and other handles are unchanged, the rejected slice has been destroyed exactly once, and the tree stays fully usable.",
  ["inputs", "histories", "fault_sequences"],
  "for all histories, all rejected operations and all points of the history at which they are attempted",
  "Tests check a handful of should_panic cases and never look at the tree afterwards.",
  ["src/tree/mod.rs", "src/tree/insert.rs", "src/tree/iter.rs", "src/range.rs", "src/tree/slice_ref.rs"],
  [("bounds and size checks first", "src/tree/mod.rs get/cursor_to; src/tree/insert.rs insert_internal; src/tree/iter.rs Iter::new"),
   ("borrow acquisition", "src/tree/slice_ref.rs acquire_mutable")],
  None, ["panics, full contents afterwards"], None)

p("C08", "Every history of operations reads like the run-length sequence it built",
  "After any history of insertions, each at any position and with any hint (accurate, stale, from another tree, random or endless), every lookup, range, size and slice count equals that of the plain sequence of runs obtained by the same insertions: an insertion splits at most the one run it lands in, shifts everything after it, and merges with exactly the neighbours that accept it; hints never change a result. Internal balance holds at every step, and splitting is only ever requested strictly inside a run and joining only on truly adjacent runs, in order, at most once each.",
  ["histories", "inputs", "configurations"],
  "for all histories of operations, all hints, all feature sets, node widths from 1 to 127, joining policies and index types",
  "Tests replay a few dozen fixed histories at two or three widths with honest hints.",
  ["src/tree/insert.rs", "src/tree/fix.rs", "src/tree/node.rs", "src/tree/mod.rs", "src/const_math_hack.rs"],
  [("leaf and internal splits", "src/tree/insert.rs do_insert_full_*, do_upward_step"),
   ("size propagation", "src/tree/fix.rs"),
   ("search with hints", "src/tree/mod.rs search_step")],
  [("keys, total_size", "relative positions and subtree sizes", "src/tree/node.rs Leaf"), ("len", "slice count", "src/tree/mod.rs Root")],
  ["get, get_with_cursor, size, number_of_slices, iter"], None)

p("C09", "Double-ended iteration yields each slice of the range once, in order",
  "For every tree state, every valid range and every sequence of front and back steps, iteration yields each slice that overlaps the range exactly once, with its true absolute range and contents, fronts in increasing and backs in decreasing order, and stays finished once exhausted. This holds with any starting hint and on clone-on-write trees whose storage is partly shared with diverged handles.",
  ["inputs", "histories", "schedules"],
  "for all tree histories including diverged clones, all range bounds, all interleavings of front and back steps, all hints",
  "Tests iterate forwards or backwards over a few small trees; mixed stepping over partly shared trees is not covered.",
  ["src/tree/iter.rs", "src/range.rs", "src/tree/node.rs"],
  [("two cursors meeting", "src/tree/iter.rs"), ("range validation", "src/range.rs; src/tree/iter.rs Iter::new"),
   ("stack where the parent link is another handle's", "src/tree/iter.rs")],
  None, ["Iter::next/next_back over iter and iter_with_cursor"], None)

p("C10", "A slice reference follows its slice through every later change",
  "A reference to a slice keeps denoting that slice across any later history of insertions, splits, merges and node rebalancing: its range and contents are always those the slice currently has, it follows the left part when the slice is split and the merged slice when it is merged, and all references to the same slice agree. Creating, cloning and dropping references in any order never affects the contents or other references.",
  ["histories", "inputs"],
  "for all histories of insertions interleaved with creating, cloning, querying and dropping references in any order",
  "Tests create a few references and check them after a few insertions.",
  ["src/tree/slice_ref.rs", "src/recycle.rs", "src/tree/fix.rs", "src/tree/node.rs", "src/tree/insert.rs"],
  [("handle update when a slice moves", "src/tree/node.rs insert/split/push paths calling update/suspend; src/tree/fix.rs"),
   ("redirect on join", "src/tree/slice_ref.rs redirect, collapse_refs"),
   ("id recycling", "src/recycle.rs")],
  [("refs", "id to slice location", "src/tree/slice_ref.rs InnerStore")],
  ["SliceRef::range/borrow_slice/is_valid/cursor"], None)

p("C11", "Borrowing through references is exclusive and outlives the tree safely",
  "While any borrow through a slice reference is alive the tree refuses mutation and the borrowed slice stays readable and unchanged, even if the tree itself has been dropped meanwhile, in which case contents are destroyed exactly once, when the last borrow ends. After the tree is gone, references answer queries by reporting that they are invalid, can still be cloned and dropped freely, and all memory is released exactly once when the last of them goes.",
  ["histories", "fault_sequences"],
  "for all orders of creating, cloning, mapping and dropping borrows and references, dropping the tree, and attempting mutations, with panics in between",
  "Tests exercise one or two orders and never clone a reference after its tree is gone.",
  ["src/tree/slice_ref.rs", "src/tree/mod.rs"],
  [("borrow state machine", "src/tree/slice_ref.rs BorrowState, borrow_refs, drop_borrow, try_acquire_drop"),
   ("deferred destruction", "src/tree/mod.rs destruct_root; src/tree/slice_ref.rs InnerStore::drop"),
   ("weak count of the shared store", "src/tree/slice_ref.rs SliceRef clone/drop")],
  [("borrow", "borrow state of the whole tree", "src/tree/slice_ref.rs InnerStore"), ("weak_count", "live references", "src/tree/slice_ref.rs InnerStore")],
  ["Borrow, SliceRef, destructor runs, allocator calls"], None)

p("C12", "User code re-entering mid-operation sees a refusal or the truth",
  "If user code called by the tree in the middle of an operation (while splitting, joining or destroying a slice, comparing or adding indexes) uses slice references to the same tree, then reads are refused while the tree is being mutated or destroyed, never showing half-updated data, cloning and dropping references stays possible, and the operation in progress completes as if nothing had happened. If the operation in progress only reads (lookup, iteration, cursor_to, or a query through a reference), anything user code reads meanwhile is right and references it creates are good; while a query through a reference is in progress, an insertion is refused and the tree, if dropped, is destroyed only when the query ends.",
  ["schedules", "fault_sequences", "histories"],
  "for all callback points of all operations and all reads, reference operations, insertions and drops that safe code can perform re-entrantly there",
  "No test calls back into the tree from a callback.",
  ["src/tree/slice_ref.rs", "src/tree/insert.rs", "src/tree/fix.rs", "src/tree/mod.rs"],
  [("mutable mark on the borrow state for the whole insertion", "src/tree/insert.rs insert_internal; src/tree/slice_ref.rs acquire_mutable/release_mutable"),
   ("no interior borrow of the reference table held across user code", "src/tree/slice_ref.rs")],
  None, ["SliceRef methods called inside Slice and Index callbacks"], None)

p("C13", "Serialised trees survive faulty streams: equal contents or a clean error",
  "Serialising a tree and deserialising it yields a tree with the same runs, whatever the chunking of the stream; if the stream is truncated, fails, or carries a malformed sequence (including a non-positive size), deserialisation reports an error, never a tree with other contents, and nothing already read is leaked or destroyed twice. A failing writer surfaces its error and leaves the tree unchanged.",
  ["inputs", "fault_sequences", "crash_points"],
  "for all trees and feature sets, all truncation points, chunkings, interruptions and error positions of reader and writer, and malformed inputs",
  "There is no serde test.",
  ["src/serde.rs", "src/tree/insert.rs"],
  [("sequence of (size, slice)", "src/serde.rs")],
  None, ["Serialize/Deserialize for RleTree"], None)

p("C14", "A plain clone is a fully independent deep copy",
  "Cloning a tree without clone-on-write yields a tree with identical contents, structure and slice count that shares nothing with the original: any later history on either never shows in the other, dropping them in any order destroys each slice once, and a panic while cloning any one slice leaves the original intact and releases everything copied so far.",
  ["histories", "fault_sequences"],
  "for all trees, all later histories on both copies, and all positions of a panic during the copy",
  "One test clones a tree; none diverges the copies or fails midway.",
  ["src/tree/node.rs", "src/tree/mod.rs"],
  [("recursive copy", "src/tree/node.rs deep_clone"), ("partial-copy guards", "src/tree/node.rs GradualInitArray")],
  None, ["Clone for RleTree<NoFeatures>"], None)

p("C15", "Cursors name the true path and never fail on shared trees",
  "A cursor obtained from a lookup, an entry, a slice reference or an insertion names the true path to that slice in the tree's current shape, the same for every way of obtaining it and the same on a clone-on-write tree however its storage is shared as on a plain tree with the same history. A bounded cursor replays exactly the leading components it had room for, in order, and obtaining a cursor always terminates.",
  ["histories", "inputs", "configurations"],
  "for all histories, all positions, all cursor capacities, all patterns of sharing between handles",
  "Tests use cursors on plain trees only; cursor_to on a clone-on-write tree whose nodes were copied by another handle is never called.",
  ["src/cursor.rs", "src/tree/mod.rs", "src/tree/entry.rs", "src/tree/insert.rs", "src/tree/fix.rs", "src/tree/slice_ref.rs"],
  [("path reconstruction upwards", "src/tree/entry.rs cursor_to_handle; src/tree/mod.rs cursor_to"),
   ("path built while propagating an insertion", "src/tree/fix.rs, src/tree/insert.rs"),
   ("bounded buffer", "src/cursor.rs BoundedCursor")],
  None, ["cursor_to, SliceEntry::cursor, SliceRef::cursor, insert_with_cursor, Cursor::into_path"], None)

p("C16", "Lookups and insertions stay logarithmic and storage linear for ever",
  "Whatever history produced a tree, a lookup or insertion performs a number of index operations logarithmic in the number of slices times a factor depending only on node width, calls user split and join code a bounded number of times, and the memory the tree holds is linear in its number of slices.",
  ["histories", "configurations"],
  "for all histories, in particular ascending, descending, hot-spot and split-heavy ones, at all node widths",
  "Tests never measure cost; a degenerate tree answers correctly.",
  ["src/tree/insert.rs", "src/tree/fix.rs", "src/tree/mod.rs", "src/tree/node.rs"],
  [("splits at the median, minimum fill", "src/tree/insert.rs, src/tree/node.rs split"), ("relative positions", "src/tree/fix.rs")],
  None, ["counted index operations, callbacks and allocations per operation"], None)

p("C17", "Draining a range removes exactly that range",
  "Draining a range yields the slices of exactly that range, split at its ends, in order from either end; when the drain is dropped, at any point, the tree is left without that range and otherwise unchanged, and nothing is leaked or destroyed twice.",
  ["histories", "inputs"],
  "for all trees, ranges, front/back step sequences and early drops",
  "There is no drain test.",
  ["src/tree/drain.rs", "src/tree/mod.rs"],
  [("not implemented: iteration is todo!() and there is no destructor", "src/tree/drain.rs")],
  None, ["RleTree::drain"], None)

p("C18", "Two-dimensional and other directional indexes work exactly like offsets",
  "For any index type obeying the documented laws of directional arithmetic, including ones whose addition does not commute, every history of insertions and every lookup, iteration, size and reference query gives the positions, ranges and sizes that direct composition of the offsets gives, and never asks for a difference below zero, which an unsigned index could not represent.",
  ["histories", "inputs", "configurations"],
  "for all histories over index types with non-commutative addition, all feature sets and node widths",
  "Every test uses usize or u8, for which left and right operations coincide, so a swapped direction is invisible.",
  ["src/public_traits.rs", "src/tree/fix.rs", "src/tree/insert.rs", "src/tree/iter.rs", "src/tree/entry.rs", "src/tree/mod.rs", "src/tree/slice_ref.rs", "src/tree/node.rs"],
  [("directional additions and subtractions", "src/tree/fix.rs, src/tree/insert.rs, src/tree/iter.rs, src/tree/node.rs")],
  None, ["all read operations with a non-commutative index"], None)

p("C19", "The type system admits only sound uses of a tree across threads and lifetimes",
  "No safe program can make a tree outlive data that its slices use when they are dropped, and a tree, entry or iterator can be sent to or shared with another thread only when doing so cannot move or share user values that must stay on their thread.",
  ["programs"],
  "for all instantiations of the public types",
  "It is a compile-time property of the type system, not of an execution.",
  ["src/tree/mod.rs", "src/param.rs", "src/tree/entry.rs", "src/tree/slice_ref.rs"],
  [("Send/Sync implementations; dropck", "src/tree/mod.rs, src/param.rs, src/tree/entry.rs")],
  None, ["auto trait implementations"], None)

p("C20", "User types that break their contracts never break memory safety",
  "Whatever user-supplied index arithmetic, comparisons and joins answer, right or wrong, consistent or not, and however they panic or use trees and references, as far as safe code can, while answering, safe calls never touch released or uninitialised memory, never hand out a slice that is not alive, never destroy a slice twice, and never run into a state that release builds assume to be impossible; answers may be wrong, calls may panic.",
  ["inputs", "histories", "fault_sequences"],
  "for all index and slice types implementable in safe code, all histories, all three feature sets",
  "The tests use lawful indexes in debug builds only, where a broken assumption panics; release builds turn the same assumption into undefined behaviour.",
  ["src/tree/mod.rs", "src/tree/iter.rs", "src/tree/insert.rs", "src/tree/node.rs", "src/tree/slice_ref.rs", "src/macros.rs"],
  [("assumptions checked in debug builds, taken for granted in release builds", "src/macros.rs weak_assert, weak_unreachable"),
   ("bounds checks and panics for bad Index implementations", "src/tree/iter.rs, src/tree/mod.rs")],
  None, ["every slice handed out, destructor runs, assumption checks"],
  "assumption checks stay on in simulated release builds (cfg sherman_sim)")

p("C21", "The reference implementation for fuzzing answers exactly like the tree",
  "The reference implementation `mock::Mock` holds, for every history of insertions (also those that merge with both neighbours), lookups, range iterations from both ends, references and clones, exactly the slices, ranges and references that the tree's documentation promises and that the tree has; it refuses what the tree is documented to refuse, changing nothing; and every byte string that the fuzzing kit decodes to commands is a history on which the tree agrees with what the commands expect.",
  ["inputs", "histories", "fault_sequences"],
  "for all histories, byte strings, index types (also directional and signed ones), slice types, feature sets and node widths",
  "The tests replay three histories on the mock with unsigned integers; every fuzzing result rests on it.",
  ["src/mock.rs", "fuzz-utils/src/lib.rs", "src/tree/mod.rs", "src/range.rs"],
  [("positions of later slices are shifted after an insertion, with either direction of addition", "src/mock.rs Mock::insert"),
   ("references follow merged slices", "src/mock.rs RefMap"),
   ("bounds of iterators", "src/mock.rs Mock::iter"),
   ("expected results of decoded commands", "fuzz-utils/src/lib.rs ArbitraryCommand, RunnerState")],
  None, ["every operation on the mock, the tree and the model", "assertions of the fuzzing kit while running decoded commands"],
  "insertions at positions below zero are not documented to be refused and are not generated")

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
