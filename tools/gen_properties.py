#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
R = "tree_iterators_rs/src/"
ITER = [R + d for d in ("bfs_iterators/mod.rs", "bfs_iterators/owned.rs", "bfs_iterators/borrow.rs", "bfs_iterators/mut_borrow.rs",
        "dfs_preorder_iterators/mod.rs", "dfs_preorder_iterators/owned.rs", "dfs_preorder_iterators/borrow.rs", "dfs_preorder_iterators/mut_borrow.rs",
        "dfs_inorder_iterators/mod.rs", "dfs_inorder_iterators/owned.rs", "dfs_inorder_iterators/borrow.rs", "dfs_inorder_iterators/mut_borrow.rs",
        "dfs_postorder_iterators/mod.rs", "dfs_postorder_iterators/owned.rs", "dfs_postorder_iterators/borrow.rs", "dfs_postorder_iterators/mut_borrow.rs")]
LEAF = [R + "leaves_iterators/" + d for d in ("breadth_first/mod.rs", "breadth_first/owned.rs", "breadth_first/borrow.rs", "breadth_first/mut_borrow.rs",
        "depth_first/mod.rs", "depth_first/owned.rs", "depth_first/borrow.rs", "depth_first/mut_borrow.rs")]
ALEAF = [R + "leaves_iterators/" + d for d in ("ancestors_breadth_first/mod.rs", "ancestors_breadth_first/owned.rs", "ancestors_breadth_first/borrow.rs", "ancestors_breadth_first/mut_borrow.rs",
        "ancestors_depth_first/mod.rs", "ancestors_depth_first/owned.rs", "ancestors_depth_first/borrow.rs", "ancestors_depth_first/mut_borrow.rs")]
PIPE = [R + "tree_iterators/" + d for d in ("mod.rs", "map.rs", "map_path.rs", "prune.rs", "prune_path.rs", "prune_depth.rs")]
CPIPE = [R + "tree_collection_iterators/" + d for d in ("mod.rs", "map.rs", "map_path.rs", "prune.rs", "prune_path.rs", "prune_depth.rs", "fold.rs", "fold_path.rs", "trees.rs")]
PRE = [R + "prelude.rs"]
def mech(*a): return [{"name": n, "where": w} for n, w in a]
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mechanism, "observe_at": observe, "hook_needed": hook}})

ALLTREES = "every tree shape (any arity and height, one-sided, paths, stars, single node), every ownership mode, library trees and user implementations of the node traits"
ONE = "the repository's tests run every API on a handful of fixed trees (one 11-node example tree, a few 1-5 node variations)"

p("P01", "Every traversal yields each node exactly once, in its order, and then ends",
  "A breadth-first, preorder, postorder or (binary trees) in-order traversal of any tree yields the value of every node exactly once, in the order its name defines with siblings left to right, and then ends. Once a traversal has ended, asking it for more elements keeps reporting the end. The order is the same whether the tree is consumed, borrowed or mutably borrowed, and for the library's tree types as for user-defined node types.",
  ["inputs"], ALLTREES + "; iteration to the end, beyond the end, and stopping anywhere",
  ONE + "; order errors that need a particular shape (right-only chains, empty siblings before a deep one, several levels closing at once) are out of their reach",
  ITER + PRE, mech(("queue / explicit stack traversal bodies shared by macro", R + "bfs_iterators/mod.rs, dfs_*_iterators/mod.rs"), ("BinaryChildren adapter that skips empty slots", R + "prelude.rs")),
  ["Iterator::next of bfs/dfs_preorder/dfs_inorder/dfs_postorder and the _iter/_iter_mut variants"])
p("P02", "attach_ancestors exposes the exact root-to-node stack at every step",
  "After attach_ancestors(), the traversal still visits every node exactly once in its unchanged order, and at each step the current slice holds exactly the values on the path from the root (first) to the current node (last). The slice does not change until the next step, and at the end there is no current element.",
  ["inputs"], ALLTREES + "; all four orders; every element and any stopping point",
  ONE + "; the stack bookkeeping (and iterative deepening for breadth first) only goes wrong on shapes where several levels open or close between two elements",
  ITER, mech(("ancestor stack pushed/popped in step with the traversal stack", R + "dfs_*_iterators/mod.rs"), ("iterative deepening over tree_cache/iterator queue", R + "bfs_iterators/mod.rs")),
  ["StreamingIterator::advance/get of the *WithAncestors iterators"])
p("P03", "attach_context reports true ancestors, path, depth and children at every step",
  "After attach_context(), the traversal visits the nodes in its unchanged order and the context at each step holds the root-to-node values, the node's depth (root = 0), the list of child indexes leading from the root to the node (slot 0/1 for left/right in binary trees), and that node's own children (except owned in-order and postorder). Following the reported path from the root with at_path leads back to the same node.",
  ["inputs"], ALLTREES + "; all four orders; every element and any stopping point",
  ONE + "; path segments and depths drift only after particular sequences of opening and closing levels",
  ITER + [R + "tree_context.rs"], mech(("TreeContext kept in step with the traversal stacks", R + "dfs_*_iterators/*.rs, bfs_iterators/mod.rs"), ("path/ancestors/children accessors", R + "tree_context.rs")),
  ["TreeContext::{ancestors,path,depth,children} at each advance()"])
p("P04", "leaves() yields exactly the childless nodes, each once",
  "leaves() on a traversal that has not started yields the value of every node without children exactly once and nothing else, level by level (left to right) when called on a breadth-first traversal and left to right in depth-first order when called on a depth-first traversal, and then ends.",
  ["inputs"], ALLTREES, ONE + "; a leaf test that confuses empty child slots, exhausted iterators and already opened nodes shows only on other shapes (a leaves bug on the one-node tree shipped in 3.5.0)",
  LEAF + ITER, mech(("leaf detection by peeking the opened children iterator", R + "leaves_iterators/*/mod.rs")),
  ["Iterator::next of the *LeavesIterator types"])
p("P05", "leaves() called mid-iteration yields exactly the leaves not yet yielded",
  "Converting a partly consumed traversal with leaves(), after any number of elements from none to all, never panics and yields exactly the leaves that the traversal had not yielded yet, each once, in the order leaves() promises (level order for breadth-first, left-to-right for depth-first).",
  ["inputs", "histories"], ALLTREES + "; every number of elements consumed before the conversion",
  "the tests convert after a fixed number of steps on the example tree; whether the partly opened stacks contain leaves, emptied levels or nodes awaiting their own visit depends on both shape and conversion point",
  LEAF + ITER, mech(("conversion of traversal state (queue / traversal stack / item stack) into leaves state", R + "*_iterators/*.rs fn leaves")),
  ["Iterator::next after next()*k and leaves()"])
p("P06", "attach_ancestors().leaves() yields each remaining leaf with all its ancestors",
  "Chaining leaves() after attach_ancestors(), before starting or after any number of steps, never panics and yields exactly the leaves not visited yet, each once, in the order leaves() promises, each as the complete list of values from the root to that leaf.",
  ["inputs", "histories"], ALLTREES + "; every number of steps before the conversion",
  "the tests check two conversion points on one tree; the stack reconstruction for levels opened before the conversion depends on shape and position",
  ALEAF + ITER, mech(("conversion of the ancestor iterator's stacks", R + "*_iterators/*.rs fn leaves of *WithAncestors"), ("leaf detection with item stack truncation", R + "leaves_iterators/ancestors_*/mod.rs")),
  ["StreamingIterator::advance/get of the ancestors leaves iterators"])
p("P07", "Traversals over collections of trees equal the per-tree traversals, concatenated",
  "The *_each traversals over any collection of trees (owned, borrowed or mutably borrowed; empty, arrays, vectors, slices and slice iterators) yield exactly what traversing each tree in turn would yield, including after attach_context(). In contexts the path is prefixed by the tree's index in the collection, while ancestors start at that tree's root and the depth of each root is 0.",
  ["inputs"], "every list of trees (including the empty list) of every shape; all orders; all ownership modes; every collection type the library accepts",
  "the tests use collections of identical copies of the example tree; transitions between trees of different shapes, single-node trees and empty collections are not sampled",
  [R + "collection_iterators.rs"] + ITER + PRE, mech(("per-tree inner iterator swapped at each tree's end", R + "collection_iterators.rs"), ("path prefix", R + "collection_iterators.rs")),
  ["Iterator/StreamingIterator of *_each, *_each_iter, *_each_iter_mut"])
p("P08", "at_path finds exactly the node a path names, and nothing for any other path",
  "at_path, at_path_ref and at_path_mut on a tree return exactly the node reached by following the child indexes from the root (the root itself for the empty path), and None for every path that leaves the tree: out-of-range indexes, empty binary slots, indexes other than 0/1 in binary trees, or paths continuing below a leaf. On a collection the first index selects the tree and the empty path selects nothing.",
  ["inputs"], ALLTREES + " and every list of indexes, valid or not (including huge indexes)",
  "the tests try a few valid paths and a couple of invalid ones on the example tree",
  PRE, mech(("index walk with nth / slot match", R + "prelude.rs at_path*")),
  ["return value of at_path, at_path_ref, at_path_mut on nodes and collections"])
p("P09", "Writes through mutable traversals land in exactly the visited node",
  "A mutable traversal (plain, leaves, with ancestors, with context, or over a collection) hands out mutable access to each node's own value; after the traversal every node holds exactly what was last written to it, nodes that were not written are unchanged, and the shape of the tree is unchanged. Writing to a value while it is exposed as an ancestor changes that ancestor's node in the tree and is seen at later steps.",
  ["inputs", "histories"], ALLTREES + "; every choice of which visits write, including writes to ancestors and stopping anywhere",
  "the tests mostly read; the mutable iterators use raw-pointer code of their own that reading the same values back cannot exercise",
  ITER + LEAF + ALEAF, mech(("raw-pointer based mutable iterators", R + "*_iterators/mut_borrow.rs"), ("ancestors_mut / get_mut", R + "tree_context.rs, collection_iterators.rs")),
  ["tree contents after the traversal, values seen during it"])
p("P10", "Editing children during a context traversal changes exactly what is visited next",
  "In breadth-first and preorder context traversals whose children are a collection (owned traversals) or child slots, references or iterators (mutable traversals), children removed, reordered or consumed through children_mut() while at their parent are not visited (or visited in the new order), and children added are visited with their whole subtrees, exactly as if the tree had had that shape. Nodes elsewhere are unaffected and paths, depths and ancestors reported afterwards are those of the edited tree.",
  ["inputs", "histories"], "every tree shape, and every sequence of removals, insertions, swaps and reorderings applied at arbitrary steps",
  "the existing tests never edit children during traversal",
  [R + "tree_context.rs"] + ITER, mech(("children collection converted to an iterator only when the traversal leaves the node", R + "dfs_preorder_iterators/*.rs, bfs_iterators/mod.rs")),
  ["elements visited after children_mut() edits"])
p("P11", "map and map_path keep the shape and transform each value exactly once",
  "map, map_ref, map_mut and their _path forms return a tree of the same shape in which every node holds the closure's result for the node at that position; the closure is called exactly once per node, in preorder, and the _path forms pass it that node's path from the root.",
  ["inputs"], ALLTREES + "; every closure",
  "the tests map a constant offset over the example tree; the path argument and one-sided shapes are barely sampled",
  PIPE + PRE, mech(("path-tracking preorder iterator + collect_tree", R + "dfs_preorder_iterators/mod.rs, tree_iterators/mod.rs"), ("Map/MapPath adapters", R + "tree_iterators/map.rs, map_path.rs")),
  ["closure call log and returned tree"])
p("P12", "Pruning removes exactly the matching subtrees and nothing else",
  "prune (and prune_path) returns the tree without every node for which the closure returned true and without its descendants, or None when the root matches; all other nodes keep their values, relative order and (binary) left/right slot; the closure is consulted exactly once, in preorder and with the node's true path, for each node none of whose ancestors was pruned. prune_depth(d) keeps exactly the nodes at depth at most d.",
  ["inputs"], ALLTREES + "; every set of pruned nodes; every depth limit from 0 to beyond the height",
  "the tests prune a few fixed sets; a crash on asymmetric prunes shipped in 3.4.0 because no sampled set was asymmetric",
  PIPE + PRE, mech(("prune_current_subtree drops the on-deck children iterator", R + "dfs_preorder_iterators/*.rs"), ("Prune/PrunePath/PruneDepth adapters", R + "tree_iterators/prune*.rs"), ("collect_tree depth-driven assembly", R + "tree_iterators/mod.rs")),
  ["closure call log and returned tree"])
p("P13", "fold combines every node exactly once with the results of its own children",
  "fold, fold_ref, fold_mut and their _path forms call the closure exactly once per node, after all of its descendants, passing the results of exactly that node's children in order (in the left/right slot for binary trees, None for an absent child), the node's value, and in the _path forms the node's path; the root's result is returned.",
  ["inputs"], ALLTREES + "; every closure, including order-sensitive ones",
  "the tests sum the example tree: a commutative fold cannot see children handed over in the wrong order or slot, nor wrong paths",
  PIPE + PRE, mech(("inversion stack of pending values and partial results", R + "tree_iterators/mod.rs fold_tree/fold_path")),
  ["closure call log and final result"])
p("P14", "Chained pipelines behave like their stages applied one after another",
  "A pipeline chaining any number of prune, prune_path, prune_depth, map_tree and map_path stages and ending in collect_tree, fold_tree, fold_path or plain iteration gives the result of applying the stages one by one to whole trees, each path handed to a stage or reported by current_path() being the node's path in the tree that stage receives or produces (binary trees keep left/right slots). Stages run lazily, node by node in preorder, and no stage ever sees a node pruned by an earlier one.",
  ["inputs", "programs"], ALLTREES + "; every chain of stages with every parameter; every terminal operation",
  "the tests chain two or three fixed stages and compare one collected tree; wrong paths after earlier prunes do not show there",
  PIPE + PRE, mech(("current_path/prune_current_subtree delegated through nested adapters", R + "tree_iterators/*.rs"), ("sibling position bookkeeping of pruned pipelines", R + "tree_iterators/prune.rs, prune_path.rs")),
  ["closure call logs, current_path()/current_depth() at every element, collected trees and fold results"])
p("P15", "Pipelines and bulk operations over collections act on each tree individually",
  "map_each, prune_each, prune_path_each, prune_depth_each, fold_each, map_path_each, fold_path_each and collection pipelines (including trees()) produce, in order, exactly the result of the single-tree operation for every tree of the collection, dropping trees whose root is pruned; results come one tree at a time in an order-preserving way. Paths passed to closures or reported are prefixed with the tree's index.",
  ["inputs", "programs"], "every list of trees (including empty, and with pruned roots at any position), every ownership mode, every chain of stages",
  "the tests run collections of identical example trees; look-ahead handling at tree boundaries depends on neighbouring shapes and on which roots are pruned",
  CPIPE + PRE, mech(("one-element lookahead/peek at tree boundaries", R + "tree_collection_iterators/trees.rs, fold.rs, fold_path.rs"), ("collection path tracking", R + "dfs_preorder_iterators/*.rs *CollectionIteratorWithPathTracking")),
  ["closure call logs, yielded trees and fold outputs"])
p("P16", "Values are never lost, duplicated or dropped twice, however a traversal ends",
  "When a tree is consumed by any traversal, conversion or tree operation, every value it owned is at all times in exactly one place: handed to the caller, still inside the iterator, or already dropped once. After the iterator and everything it handed out are gone, whether it ran to the end, was dropped part-way, was converted, or was unwound by a panic in a caller's closure, every value has been dropped exactly once; borrowed and mutable traversals drop nothing and leave the tree whole.",
  ["inputs", "histories", "fault_sequences"], ALLTREES + "; every point at which iteration stops or a closure panics; every conversion",
  "the tests never drop an iterator early, never panic in closures and never count drops",
  ITER + LEAF + ALEAF + PIPE + CPIPE, mech(("unsafe value slots (ManuallyDrop/MaybeUninit/ptr::read) in the iterators", R + "bfs_iterators/mod.rs, dfs_*_iterators/*.rs"), ("values held by inversion/keeping stacks", R + "tree_iterators/mod.rs, tree_collection_iterators/*.rs")),
  ["creation/drop ledger of tracked values"])
p("P17", "No undefined behaviour from safe code under any traversal",
  "Using the library's safe API, with any tree, any ownership mode and any well-behaved user node type (including ones whose borrowed children collections own heap memory), performs no invalid memory access, no use after free, no double free, no uninitialised read and no aliasing violation, for full, partial and converted traversals and when values and children are read or changed in place through the references handed out.",
  ["inputs", "histories"], ALLTREES + "; all modes; all stopping and conversion points; in-place reads, writes and edits through contexts",
  "ordinary test runs cannot observe undefined behaviour; the 3.5.2 release had to fix aliasing bugs found only by miri",
  ITER + LEAF + ALEAF, mech(("unsafe blocks with raw pointers, ptr::read and transmuted lifetimes", R + "dfs_inorder_iterators/{borrow,mut_borrow}.rs, dfs_postorder_iterators/{borrow,mut_borrow}.rs, bfs_iterators/*.rs")),
  ["miri (Stacked Borrows), AddressSanitizer and heap-canary observations of the executions"])
p("P18", "Metadata can only be attached before iteration starts, and always can then",
  "attach_ancestors() and attach_context() panic exactly when the traversal they are called on has already yielded an element, and never on a fresh traversal; no other step of a traversal, context or leaves iterator over a well-formed tree panics, up to and including the step that reports the end.",
  ["inputs", "histories"], ALLTREES + "; every number of elements taken before the conversion, over single trees and collections",
  "the tests exercise no misuse; a silently accepted late conversion would yield stacks missing ancestors",
  ITER + [R + "collection_iterators.rs"], mech(("root/moved state check in attach_*", R + "*_iterators/{owned,borrow,mut_borrow}.rs")),
  ["panic / no panic of the conversion"])
p("P19", "Depth never costs call stack: arbitrarily deep trees traverse in constant stack",
  "Traversals, metadata and leaves conversions, at_path, map, prune and fold process trees of any depth without using call stack proportional to it, so trees hundreds of thousands of levels deep are processed in a small fixed stack with the same results as shallow ones.",
  ["inputs"], "chains, zig-zags, combs and brooms hundreds of thousands of levels deep, all orders and ownership modes, on threads with a small stack",
  "the deepest tree in the tests has 7 levels",
  ITER + LEAF + ALEAF + PIPE + PRE, mech(("explicit stacks instead of recursion", R + "*_iterators/*.rs"), ("iterative index walk", R + "prelude.rs at_path*")),
  ["completion and results on a thread with a small stack"])
p("P20", "Traversals open nodes only on demand and work on unbounded trees",
  "A traversal asks a node for its children only when it needs them to produce the next element: nodes opened so far are always ones already yielded, on the way to the current element, or children directly next in line, so lazily generated and infinite trees can be traversed for any number of elements in bounded work. Pipelines likewise handle one node at a time, never opening a pruned node's children, and folding keeps at most one pending value per level.",
  ["inputs", "histories"], "lazily generated finite and infinite trees of many branching patterns; any number of elements taken; all orders that can produce a first element; all pipelines",
  "the tests only use fully built small trees",
  ITER + PIPE + CPIPE, mech(("children opened at the yield, not ahead", R + "*_iterators/mod.rs"), ("prune drops unopened children", R + "dfs_preorder_iterators/*.rs")),
  ["log of node openings against elements yielded; live value counts"])
p("P21", "Serialization, cloning and comparison of library trees are faithful",
  "Serializing any Tree or BinaryTree with serde (feature \"serde\") and deserializing it gives an equal tree; cloning (Clone, and cloned() on trees of references) gives an equal, independent tree; two trees compare equal exactly when they have the same shape and values.",
  ["inputs"], "every tree shape, values including ones that need escaping, both tree types",
  "there is no serde test at all, and equality is only used to compare expected results",
  PRE + ["tree_iterators_rs/Cargo.toml"], mech(("derived Serialize/Deserialize/Clone/PartialEq", R + "prelude.rs"), ("cloned() via map_ref", R + "prelude.rs")),
  ["serialized text, deserialized/cloned trees"])
p("P22", "Borrowed traversals are independent, repeatable and shareable across threads",
  "Any number of borrowed traversals (plain, ancestors, context, leaves, pipelines) of one tree can run at the same time, interleaved step by step in one thread or concurrently on many threads, and each yields exactly what it would yield alone; traversing a borrowed tree any number of times always gives the same sequence and leaves the tree untouched.",
  ["inputs", "schedules"], ALLTREES + "; every interleaving of the traversals' steps, and thread schedules",
  "the tests run one iterator at a time in one thread",
  [R + d for d in ("bfs_iterators/borrow.rs", "dfs_preorder_iterators/borrow.rs", "dfs_inorder_iterators/borrow.rs", "dfs_postorder_iterators/borrow.rs")] + LEAF + ALEAF,
  mech(("iterators hold only shared references and private stacks", R + "*_iterators/borrow.rs")),
  ["elements of every interleaved traversal"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
