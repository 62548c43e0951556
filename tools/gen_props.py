#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = "rstar/src/"
def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=observe, hook_needed=None))
ROOT_STATE = ("RTree root and size", "the stored objects and their count", "rtree.rs")
props = [
P("C01", "Contents and size are conserved over any history",
  "After any sequence of insertions, bulk loads, removals, drains, clones, swaps, takes, consumptions and restores, in any interleaving of clients and even when some of these calls ended early, iterating a tree yields exactly the objects inserted and not removed since, each once and unaltered, and size() is their number. Two stored objects that compare equal or lie at the same place are still two objects.",
  ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
  "every finite history of API calls by several clients on several trees, every dimension, scalar, object wrapper and legal tree parameters",
  "Existing tests insert or bulk load a few fixed sets and look once; none mixes updates of different kinds, abandons calls midway or compares with a model after every step.",
  ["rtree.rs", "algorithm/rstar.rs", "algorithm/removal.rs", "algorithm/bulk_load/bulk_load_sequential.rs", "algorithm/iterators.rs"],
  [("recursive insertion with forced reinsertion and splits", "algorithm/rstar.rs"), ("DrainIterator bookkeeping of removed objects", "algorithm/removal.rs"), ("overlap minimising top-down bulk loading", "algorithm/bulk_load/bulk_load_sequential.rs")],
  ["RTree::iter, size, into_iter"], [ROOT_STATE]),
P("C02", "An abandoned drain removes exactly what it yielded",
  "A drain iterator yields only stored objects that match its region, distance, envelope or selection, each once; run to its end it has yielded all of them, polling it again yields nothing and changes nothing, and its size hint always bounds what it would still yield. Dropped at any earlier point, it leaves a tree with exactly the objects it did not yield, fully usable.",
  ["histories", "inputs", "configurations"],
  "every tree, every draining query, every number of polls before the iterator is dropped, exhausted or polled past its end, and everything done with the tree afterwards",
  "Tests drop a drain after one or two fixed poll counts on one tree; the state an iterator leaves behind depends on tree shape and on where in the traversal it stopped.",
  ["algorithm/removal.rs", "rtree.rs", "algorithm/selection_functions.rs"],
  [("Drop of the drain iterator reassembles the tree", "algorithm/removal.rs"), ("node stack with remaining-children indices", "algorithm/removal.rs")],
  ["RTree::drain, drain_in_envelope, drain_in_envelope_intersecting, drain_within_distance, drain_with_selection_function"],
  [("node_stack, original_size", "nodes taken apart so far and the size to restore", "algorithm/removal.rs")]),
P("C03", "A leaked drain leaves an empty but fully usable tree",
  "If a drain iterator that has not finished is leaked (never dropped), the tree is afterwards empty with size 0; what it yielded was right, no object is ever seen or dropped twice, and every later operation on the tree, including inserting, bulk loading, cloning, serialising and querying, behaves as on a new tree.",
  ["histories", "inputs", "configurations"],
  "every tree and draining query, every number of polls (including none) before the iterator is leaked, and every following history",
  "One test leaks one iterator over one point set and looks only at the size; later use of the tree is not examined.",
  ["algorithm/removal.rs", "rtree.rs"],
  [("the iterator detaches the root and zeroes the size before anything is removed", "algorithm/removal.rs")],
  ["RTree::drain* with mem::forget, then any operation"]),
P("C04", "A panicking callback never corrupts the tree",
  "If a caller-supplied callback other than envelope() (selection or equality predicate, distance, containment, visitor, clone) panics during any query, removal, drain or clone, the panic reaches the caller and the tree then holds exactly its previous objects minus those already handed out, with correct size and structure. It stays fully usable, and the objects handed out before were right.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "every operation, every callback invocation at which the panic can strike, every tree, and every following history including further panics",
  "No test lets a callback panic; the outcome depends on which of thousands of invocations fails and on the partially dismantled state at that moment.",
  ["algorithm/removal.rs", "rtree.rs", "algorithm/iterators.rs", "algorithm/nearest_neighbor.rs"],
  [("unwinding runs the drain iterator's Drop, which restores the tree", "algorithm/removal.rs")],
  ["catch_unwind around any operation, then any operation"]),
P("C05", "Region, point, distance and selection queries are exact",
  "Every read-only query by envelope, intersecting envelope, point, distance or selection function yields exactly the matching stored objects, each once (single-object lookups return a match if and only if one exists), under any interleaving of several running, suspended, re-entered or abandoned queries on the same tree. Reported size hints always bound what remains, finished iterators stay finished, contains() agrees with equality, and a tree of thread-safe objects can be shared between threads.",
  ["inputs", "schedules", "histories", "configurations"],
  "every tree reachable by any history, every query of every kind (including empty, degenerate and boundary-touching ones), every interleaving of iterator polls",
  "Tests compare a few random queries on freshly built trees of one size and dimension; boundary ties, degenerate regions, mixed object kinds, interleaved iterators and trees with a long history are not reached.",
  ["rtree.rs", "algorithm/iterators.rs", "algorithm/selection_functions.rs", "envelope.rs", "aabb.rs", "object.rs"],
  [("selection functions prune subtrees by envelope", "algorithm/selection_functions.rs"), ("SelectionIterator", "algorithm/iterators.rs")],
  ["RTree::locate_*, iter, contains, size_hint"]),
P("C06", "Nearest-neighbour queries are exact and ordered",
  "nearest_neighbor returns an object at minimal distance whenever the tree is non-empty; nearest_neighbors returns exactly the objects at that distance; the iterator variants yield every stored object exactly once in order of non-decreasing distance, with the true squared distance where one is reported. This holds for any number of such iterators advanced in any interleaving, suspended, or abandoned.",
  ["inputs", "schedules", "histories", "configurations"],
  "every tree reachable by any history, every query point (inside, outside, on ties), every object kind and distance function, every interleaving of polls",
  "Tests use random points without ties and objects whose distance equals that of their envelope; pruning errors need ties, extended or gapped objects and particular tree shapes.",
  ["algorithm/nearest_neighbor.rs", "aabb.rs", "point.rs", "object.rs", "rtree.rs"],
  [("best-first search over a heap", "algorithm/nearest_neighbor.rs"), ("min-max-distance pruning", "algorithm/nearest_neighbor.rs")],
  ["RTree::nearest_neighbor*, nearest_neighbors*, nearest_neighbor_iter*"]),
P("C07", "A join yields exactly the intersecting pairs",
  "Joining two trees (or a tree with itself) yields every pair of objects whose envelopes intersect, each pair exactly once, and no other pair, whatever the shapes, sizes and heights of the two trees and their tree parameters. Abandoning the join at any point, or a panic of a callback inside it, affects neither tree.",
  ["inputs", "configurations", "histories", "schedules"],
  "every pair of trees with any histories, sizes (including empty), heights and parameters",
  "Tests join two random sets of similar size; unequal heights, empty trees, self-joins after updates and touching envelopes are not covered.",
  ["algorithm/intersection_iterator.rs", "rtree.rs"],
  [("simultaneous descent with a todo stack", "algorithm/intersection_iterator.rs")],
  ["RTree::intersection_candidates_with_other_tree"]),
P("C08", "Mutable traversals reach exactly the matching objects",
  "Every mutable traversal or lookup hands out a reference to exactly the matching stored objects, each once; edits made through it that leave the geometry unchanged are seen by every later operation and nothing else changes. This holds when the traversal is abandoned, leaked, or ended by a panic at any point.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every tree, every mutable query, every number of objects visited before it ends in any way, every set of edits",
  "Tests count the objects of one fixed traversal; agreement with the immutable queries on trees with a history and partial traversals is not checked.",
  ["algorithm/iterators.rs", "rtree.rs"],
  [("SelectionIteratorMut", "algorithm/iterators.rs")],
  ["RTree::iter_mut, locate_*_mut, IntoIterator for &mut RTree"]),
P("C09", "The tree stays structurally sound",
  "At all times when no update is running, all objects sit at the same depth, every node except an empty root has children, each node's envelope is exactly the union of its children's, and size() is the number of leaves. Trees grown by insertion keep every node within the configured maximum, and within the minimum if nothing was ever removed from them.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history of insertions, bulk loads, removals, drains (finished, abandoned, leaked, interrupted by a panic other than in envelope()), clones and restores, for all legal parameters",
  "A sanity check exists for one insertion-only tree with default parameters; removals, mixed histories and other parameters are not checked.",
  ["algorithm/rstar.rs", "algorithm/removal.rs", "algorithm/bulk_load/bulk_load_sequential.rs", "node.rs", "algorithm/bulk_load/cluster_group_iterator.rs"],
  [("split and forced reinsertion", "algorithm/rstar.rs"), ("envelope recomputation after removal", "algorithm/removal.rs"), ("height computed before partitioning", "algorithm/bulk_load/bulk_load_sequential.rs")],
  ["RTree::root"]),
P("C10", "Single removals take one matching object exactly when one exists",
  "remove, remove_at_point, remove_with_selection_function and pop_nearest_neighbor return an object that satisfies the request if and only if the tree holds one, and exactly the returned object leaves the tree. For pop_nearest_neighbor it is one at minimal distance; equal or co-located objects are removed one at a time.",
  ["histories", "inputs", "configurations"],
  "every tree reachable by any history, every target (present, absent, duplicated, equal but elsewhere)",
  "Tests remove from small fresh trees; wrong pruning or the wrong one of several similar objects needs duplicates and particular shapes.",
  ["algorithm/removal.rs", "rtree.rs", "algorithm/selection_functions.rs"],
  [("removal selects by envelope then by equality", "algorithm/selection_functions.rs"), ("drain of a single object", "algorithm/removal.rs")],
  ["RTree::remove, remove_at_point, remove_with_selection_function, pop_nearest_neighbor"]),
P("C11", "Snapshots survive I/O faults: restored whole or not at all",
  "Serialising a tree and restoring it yields a tree with the same objects and behaviour, through text and binary formats, short reads and writes and interruptions. A write error, read error, element error, full disk, crash or truncation at any byte makes serialisation or restoration fail cleanly: no panic, the live tree untouched, and never a success that hides the loss.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "every tree, every format, every byte position and kind of I/O failure, every history before and after",
  "Tests round-trip a small tree through one format in memory; no I/O fault is ever injected and restored trees are not used further.",
  ["rtree.rs", "node.rs", "aabb.rs", "params.rs"],
  [("derived serde implementations", "rtree.rs"), ("derived serde implementations of nodes", "node.rs")],
  ["Serialize and Deserialize of RTree"]),
P("C12", "Damaged snapshots never crash the program",
  "Decoding damaged bytes of a serialised tree (bits flipped, bytes lost, repeated, moved or overwritten, lengths made huge) either fails with an error or yields a tree that can be walked and dropped safely. It never panics, aborts, hangs, or allocates out of proportion to the input.",
  ["fault_sequences", "inputs"],
  "every serialised tree, every format, every combination of damage",
  "Tests never decode damaged input.",
  ["rtree.rs", "node.rs"],
  [("derived Deserialize; children are collected with bounded preallocation", "node.rs")],
  ["Deserialize of RTree"]),
P("C13", "Replicas answer alike however they are built or recovered",
  "Replicas that apply the same command log to trees with different parameters, object wrappers, scalar types and construction routes (inserting, bulk loading, restoring a snapshot, copying a peer) give the same answers to every query after the same number of commands, equal to those of a plain list. Crashes inside commands or snapshots, restarts, and lost, repeated, delayed or reordered messages do not change this once they have caught up.",
  ["histories", "schedules", "fault_sequences", "crash_points", "configurations"],
  "every command log, every set of replica configurations, every network and crash schedule",
  "Tests never compare two differently configured or differently built trees over a history of updates.",
  ["rtree.rs", "params.rs", "algorithm/rstar.rs", "algorithm/bulk_load/bulk_load_sequential.rs", "algorithm/removal.rs", "primitives/cached_envelope.rs", "primitives/geom_with_data.rs", "primitives/rectangle.rs", "primitives/object_ref.rs"],
  [("the tree's observable content is independent of its shape", "rtree.rs")],
  ["all queries on all replicas"]),
P("C14", "A clone is independent of its original",
  "Cloning a tree yields equal contents and structure, and from then on no operation on either tree (insertion, removal, drain, edits in place, consumption, drop), nor a panic while cloning, is visible in the other.",
  ["histories", "schedules", "fault_sequences"],
  "every tree and every pair of histories after the clone, in any interleaving, including cloning interrupted by a panic of an object's clone",
  "Tests clone at most once and do not modify afterwards.",
  ["rtree.rs", "node.rs"], [("derived Clone of the node tree", "rtree.rs")], ["Clone of RTree"]),
P("C15", "Every object is dropped exactly once, whatever panics",
  "Whatever fails where (any callback including envelope(), an object's clone, serialisation or destructor) and however trees and iterators end, no object is ever dropped twice, duplicated, or visible after it was dropped, and none is invented. No object is lost except by leaking an iterator or, when envelope() itself panics inside a removal, the one then in flight. Once the trees and everything taken from them are dropped, all the memory they used has been freed (unless an iterator was leaked).",
  ["fault_sequences", "crash_points", "histories"],
  "every operation, every callback invocation at which a panic can strike, every way of ending trees and iterators",
  "Tests use copyable points; nothing counts drops or injects panics.",
  ["algorithm/removal.rs", "algorithm/rstar.rs", "algorithm/bulk_load/bulk_load_sequential.rs", "algorithm/iterators.rs", "rtree.rs"],
  [("objects are moved, never copied, between nodes", "algorithm/rstar.rs"), ("owning iterator", "algorithm/iterators.rs")],
  ["drop counting of stored objects, RTree into_iter"]),
P("C16", "Every operation finishes and none panics on its own",
  "On any tree reachable by any history and for any valid input, every operation returns within a number of steps bounded by the tree's size and never panics unless a caller's callback does; in particular updates after bulk loads, after emptying the tree, after restores and after interrupted operations succeed. No arithmetic overflow occurs for coordinates well inside the scalar's range.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history, every legal parameter set, dimension and scalar, degenerate and duplicate geometry, empty and tiny trees",
  "Internal invariants that panic when violated depend on shapes tests do not build; two such panics existed and were fixed here.",
  ["algorithm/rstar.rs", "algorithm/removal.rs", "algorithm/bulk_load/bulk_load_sequential.rs", "algorithm/bulk_load/cluster_group_iterator.rs", "algorithm/nearest_neighbor.rs", "aabb.rs"],
  [("panics marked as bugs in rstar", "algorithm/rstar.rs"), ("height bookkeeping of reinsertion", "algorithm/rstar.rs")],
  ["every public operation"]),
P("C17", "Internal iteration obeys its visitor",
  "Internal-iteration queries call the visitor exactly once for each matching object, return Continue after all of them, and as soon as the visitor breaks stop calling it and return its value; both immutable and mutable variants agree with the iterator queries. The visitor may query the same tree again, and a visitor that panics leaves the tree intact.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every tree, every internal query, every visitor call at which it breaks, panics or re-enters",
  "Tests break at one point of one tree and never panic or re-enter.",
  ["algorithm/iterators.rs", "algorithm/selection_functions.rs", "rtree.rs"],
  [("ControlFlow propagation through the recursion", "algorithm/iterators.rs")],
  ["RTree::locate_*_int, locate_*_int_mut"]),
P("C21", "Costs grow as documented",
  "On trees of many non-degenerate objects, a lookup by point, a small region, a small distance, a pruning selection function or a nearest-neighbour search, and equally an insertion, a removal and the drain of a small region, examine a number of objects that grows logarithmically with the tree's size, plus the size of the answer; bulk loading examines each object a logarithmic number of times, joining with a small tree or asking for the size does not scan the large one, and building or cloning a tree takes memory in proportion to it. This stays so after any history of updates, drains, panicking callbacks, clones and restores.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every tree of non-degenerate objects, however it was built, used, interrupted and restored, and every operation on it",
  "Tests check answers, and an answer stays right when a subtree is searched in vain; benchmarks measure fresh trees only, and nothing fails when they get slower.",
  ["rtree.rs", "algorithm/rstar.rs", "algorithm/nearest_neighbor.rs", "algorithm/selection_functions.rs", "algorithm/iterators.rs", "algorithm/removal.rs", "algorithm/intersection_iterator.rs", "algorithm/bulk_load/bulk_load_sequential.rs"],
  [("pruning by should_unpack_parent", "algorithm/selection_functions.rs"), ("R* choice of subtree, split and reinsertion", "algorithm/rstar.rs"), ("candidate heap and distance bounds", "algorithm/nearest_neighbor.rs")],
  ["number of callbacks (envelope, distance, containment, selection) an operation makes; control-flow edges it executes; bytes allocated"]),
]
na = [
P("C18", "Axis-aligned box algebra", "Merging, intersecting, containing, area, perimeter and the distance bounds of axis-aligned boxes obey their algebraic definitions for all finite inputs, in every dimension and scalar.",
  ["inputs"], "every pair of boxes and every point", "Tests sample a few boxes.", ["aabb.rs", "envelope.rs"], [("AABB", "aabb.rs")], ["AABB"]),
P("C19", "Geometry of single primitives", "Distance, containment and envelope of lines, rectangles, points and of the wrappers around them equal their geometric definitions for all finite inputs.",
  ["inputs"], "every primitive and point", "Tests sample a few shapes.", ["primitives/line.rs", "primitives/rectangle.rs", "primitives/cached_envelope.rs", "primitives/geom_with_data.rs", "point.rs"], [("primitives", "primitives/mod.rs")], ["primitives"]),
P("C20", "Illegal tree parameters are rejected", "Creating a tree with inconsistent size, reinsertion or dimension parameters panics immediately, and every consistent combination is accepted.",
  ["configurations"], "every parameter combination", "Tests try two combinations.", ["params.rs"], [("verify_parameters", "params.rs")], ["RTree::new_with_params"]),
]
na_reason = {
 "C18": "Pure functions of two values: no schedule, history, time, I/O or fault can influence them, so there is nothing to simulate. Their effects inside the tree are exercised, with real AABBs in 2 to 6 dimensions, by C05 to C07, C09 and C13.",
 "C19": "Pure functions of a shape and a point, with nothing to schedule or to fail. Lines, rectangles and all wrappers are stored in the simulated trees, so errors that change an answer of the tree are seen by C05, C06 and C13.",
 "C20": "A pure function of compile-time constants evaluated at construction: no behaviour over time for a simulator to drive. The legal combinations used by the simulator are constructed in every run (C16).",
}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props + na:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
tech = "deterministic simulation: seeded scheduler over real RTree code with fault injection, checked against a reference model"
notes = {
 "C21": "deterministic simulation after seeded histories with faults; costs measured in simulated time (callbacks, and edges of the control flow executed) against generous bounds",
 "C13": "deterministic simulation of a replicated service: seeded network, crashes and restarts around real RTrees, checked against a reference model",
 "C11": "deterministic simulation with a fault-injecting file layer under real serde codecs, checked against a reference model",
 "C12": "deterministic simulation with corrupted snapshot files fed to the real decoders",
}
level_note = "Seeded search: covers the runs reported in the evidence, not all executions. Assumes finite coordinates well inside the scalar range and consistent user callbacks; trusts the integer reference model and the simulator. Clients, files, network and object callbacks are simulated; the library and codecs are real."
m = dict(version=1, setup_cmd="./build.sh",
  checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
      technique=notes.get(p["id"], tech), level="exploration", level_note=level_note) for p in props],
  not_applicable=[dict(property=p["id"], reason=na_reason[p["id"]]) for p in na],
  notes="No hooks in /repo: every source of nondeterminism already sits behind a seam (user callbacks, lazily polled iterators, serde readers and writers). See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
