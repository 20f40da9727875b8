#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so it can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

prop("S01", "Bit set algebra is exact integer-set algebra",
 "For bit sets over the integers, finite or complemented, every operator (union, intersection, symmetric difference, difference, complement, shift), membership test, subset/superset/equality comparison, truth test, length and iteration gives exactly the result the mathematical set gives, whether the other operand is a bit set, an int, or any iterable of ints. Operands that are not updated in place are unchanged by the operation. Operands of unsupported type or value are rejected with a Python error and change nothing.",
 ["inputs"], "all pairs of sets (dense, sparse, negative, huge-gap, complemented, empty, multi-word) and all operand types",
 "guppy/sets/test.py checks a few dozen hand-picked values and one fixed random sequence; it never draws word-boundary, complemented and non-bitset operands together.",
 ["src/sets/bitset.c", "src/sets/bitset.h", "guppy/sets/__init__.py"],
 [("word-wise merge of sorted bit fields", "src/sets/bitset.c immbitset_op / cplbitset_* "), ("conversion of foreign operands", "src/sets/bitset.c anybitset_convert")])
prop("S02", "Mutable bit sets follow the set model over any history",
 "After any sequence of updates (add, remove, discard, append, pop, clear, in-place union, intersection, difference, symmetric difference, complementing) a mutable bit set holds exactly the integers that a model set holds, and each call's return value or raised error matches the model. Immutable snapshots and copies taken at any point never change afterwards, and taking them never changes the mutable set. This holds however large, fragmented or complemented the set has become.",
 ["histories"], "all sequences of mutating and observing operations, including ones that split the set into many segments and interleave snapshots",
 "The existing tests run short fixed histories; storage is split into segments only in histories far longer than most tests, and snapshot sharing depends on the interleaving of reads and writes.",
 ["src/sets/bitset.c"],
 [("copy-on-write sharing of fields between mutable and immutable sets", "src/sets/bitset.c root_ins1 / sf_realize / immbitset cur_field"), ("segment splitting and skipping", "src/sets/bitset.c mutbitset_findpos_ins / sf_tst_sf")])
prop("S03", "Equal bit sets are interchangeable; slices and conversions round-trip",
 "Bit sets that hold the same integers compare equal, order consistently, and hash equally however they were built (ranges, iterables, ints, operators, mutation, copying, pickling). Indexing and slicing return the first or last elements in increasing order as documented, ranges contain exactly what the builtin range contains, and conversion to and from ints, lists and pickles returns the same set. Lengths stay correct after every such derivation.",
 ["inputs"], "all sets, all construction routes, all slice bounds and range parameters, including at the limits of the index type",
 "Hash and equality agreement over construction routes and slices over segment and word boundaries cannot be settled by the handful of literals in the tests.",
 ["src/sets/bitset.c", "guppy/sets/__init__.py"],
 [("canonical field form (no zero words)", "src/sets/bitset.c"), ("cached length", "src/sets/bitset.c immbitset_length / ob_length"), ("slice copying", "src/sets/bitset.c sf_slice"), ("reduce / _bs", "src/sets/bitset.c immbitset_reduce")])
prop("N01", "Node sets are exact identity sets over any history",
 "A node set, mutable or immutable, holds exactly the objects put into it, by identity, whatever the order and mixture of add, remove, discard, append, pop, clear and in-place or binary set operators with other node sets, or iterables; each member is yielded exactly once and members that compare equal but are distinct objects stay distinct. Immutable sets with the same members compare equal and hash equal, subset comparisons follow the identity-set model, and copies and derived sets are unaffected by later mutation of their sources. Each call returns or raises what the identity-set model says.",
 ["histories", "inputs"], "all histories of node set operations over objects with arbitrary __eq__/__hash__ behaviour",
 "Tests use one class of objects and short scripts; identity semantics and order independence quantify over objects, addresses and histories.",
 ["src/sets/nodeset.c", "src/sets/immnodeset.c", "guppy/sets/__init__.py"],
 [("address bit set in mutable node sets", "src/sets/nodeset.c"), ("sorted array merge in immutable node sets", "src/sets/immnodeset.c immnodeset_op")])
prop("N02", "Containers own exactly one reference per member and release it",
 "A node set or node graph keeps every object it holds alive, and adds exactly one reference for each distinct member (or each edge end), no matter how the member entered; removing, clearing, overwriting or destroying the container gives exactly those references back. A failed operation leaves the counts in step with the members. Reference cycles through these containers are found by the garbage collector.",
 ["histories", "fault_sequences"], "all histories of container operations, including failing ones",
 "No test looks at reference counts after mixed histories; an off-by-one shows up only as a crash or leak much later.",
 ["src/sets/nodeset.c", "src/sets/immnodeset.c", "src/heapy/nodegraph.c"],
 [("INCREF on insert, DECREF on remove/clear/dealloc", "src/sets/nodeset.c, src/heapy/nodegraph.c")])
prop("G01", "A node graph is an exact relation between object identities",
 "A node graph built by any sequence of edge additions, updates, assignments, copies and inversions answers indexing, iteration, length, image, domain restriction, domain coverage and inversion exactly as the relation (set of object pairs by identity) it was built from, with duplicate edges collapsed after use. In mapping form each source has at most its one assigned target. Queries interleaved with additions always see everything added so far.",
 ["histories"], "all sequences of graph updates and queries",
 "The unit test builds two small graphs; sortedness and duplicate elimination depend on the interleaving of adds and queries.",
 ["src/heapy/nodegraph.c"],
 [("lazy sort and deduplicate before search", "src/heapy/nodegraph.c ng_maybesortetc / ng_sortetc"), ("binary search of a region", "src/heapy/nodegraph.c NyNodeGraph_Region")])
prop("H01", "A heap snapshot is exactly what is reachable from the roots",
 "A heap snapshot contains every object the program can reach from its modules, frames and interpreter state through references of any kind that an object holds (attributes, elements, slots, dictionaries, local and cell variables, classes; not the evaluation-stack temporaries of a running frame), and contains no object that only unreachable garbage or the analyser itself refers to. The same holds of reachability queries from a chosen starting set with chosen objects or edges to avoid. Each object appears once.",
 ["programs", "inputs"], "all object graphs over builtin, extension and user-defined types, including cycles, deep chains, slots, subclasses, descriptors, closures, generators and weak references",
 "Tests look for one or two planted objects in fixed small graphs; completeness quantifies over graph shapes and container types.",
 ["src/heapy/hv.c", "src/heapy/stdtypes.c", "guppy/heapy/View.py"],
 [("heap traversal", "src/heapy/hv.c hv_heap / iter_rec"), ("per-type traversal", "src/heapy/hv.c hv_std_traverse, xt_*; src/heapy/stdtypes.c"), ("avoidance", "src/heapy/hv.c hv_reachable")])
prop("H02", "Interpreter and thread state references are all covered and named",
 "Objects referenced only from interpreter-wide or per-thread state (module table, builtins, codec and import state, trace and profile functions, exception state, context, async-generator hooks, fork hooks, thread state dictionaries, frames of every thread) are found by a heap snapshot. Each such reference is listed as an attribute of the symbolic root; the reported name, looked up on the root, yields that very object, and every listed attribute can be read.",
 ["configurations", "programs"], "all ways of installing an object in interpreter or thread state, over any number of threads",
 "Tests read a couple of root attributes in a single-threaded process.",
 ["src/heapy/rootstate.c", "guppy/heapy/View.py"],
 [("root traversal, relate, getattr and dir over interpreter and thread state", "src/heapy/rootstate.c rootstate_traverse / rootstate_relate / rootstate_getattr / rootstate_dir")])
prop("H03", "Referents and referrers mirror the actual references",
 "The referents of a set are exactly the objects its members refer to, and the referrers of a set are exactly the visible reachable objects that refer to some member, for every type of object. Referents always reflect the references that exist at the time of the query; referrers, which are cached, reflect the references that existed at the time of the last garbage collection or later (a heap snapshot makes one). The two are converse: a is among the referrers of b if and only if b is among the referents of a. Evaluation-stack temporaries of running frames are excepted.",
 ["programs", "histories"], "all object graphs and all interleavings of mutation and query",
 "Tests query fixed graphs once or twice; exactness quantifies over types of referrer and over mutation histories (results are cached between queries).",
 ["guppy/heapy/View.py", "src/heapy/hv.c", "src/heapy/stdtypes.c", "guppy/heapy/ImpSet.py"],
 [("cached referrer graph and its update", "guppy/heapy/View.py update_referrers / referrers; src/heapy/hv.c hv_update_referrers*"), ("direct image", "src/heapy/hv.c hv_relimg")])
prop("H04", "Every reference is explained by truthful relation labels",
 "For every direct reference from a standard container (list, tuple, dict, set, frozenset, subclasses of them, instance with dictionary or slots, class, function, method, module, frame, cell, traceback, code object, mapping proxy, node set or node graph) to another object the analyser reports at least one relation; other types may give the unknown relation. Each reported relation of any object is true: following it (attribute, index, key, value, cell, local variable, slot, inherited field) from the source yields that very target. No relation is reported between objects that are not related, and the count of edges between them agrees with the relations reported for ordinary containers.",
 ["inputs", "programs"], "all pairs of directly related objects of all standard and user-defined types",
 "Tests check a label per type on one instance; truth of labels quantifies over positions, keys, duplicates and types.",
 ["src/heapy/stdtypes.c", "src/heapy/hv.c", "src/heapy/rootstate.c", "guppy/heapy/Path.py"],
 [("relate functions", "src/heapy/stdtypes.c dict_relate, list_relate, set_relate, frame_relate, type_relate ...; src/heapy/hv.c hv_relate, inherited/slots relation"), ("label rendering", "guppy/heapy/Path.py R_*")])
prop("H05", "Shortest paths are valid, shortest and complete",
 "The shortest paths reported from the root, or from a chosen source set, to a target set are real reference chains: every step is an actual reference, avoiding the excluded objects and edges, with length equal to the true graph distance. All shortest chains are included exactly once, one for each relation by which a step can be made, and the reported number of paths equals the number that enumeration, indexing and printing deliver. An empty result is given exactly when no chain leads to a target that is not itself a source.",
 ["programs", "inputs"], "all finite reference graphs, source and target sets, and avoidance sets",
 "Tests use a few hand-drawn graphs; completeness and minimality quantify over graphs.",
 ["src/heapy/hv.c", "guppy/heapy/Path.py", "src/heapy/nodegraph.c"],
 [("breadth-first shortest path graph", "src/heapy/hv.c hv_shpathstep; guppy/heapy/Path.py shpgraph_algorithm"), ("path counting and iteration", "guppy/heapy/Path.py Paths / PathsIter")])
prop("H06", "Dominated sets and sizes are exact",
 "The dominated set of a set of objects is exactly the set of visible objects that can no longer be reached from the root once those objects are removed, together with themselves, and the dominated size is the sum of their individual sizes. The immediate dominators of a set are those of its referrers that can be reached from the root without passing through another of its referrers. Sharing, cycles and multiple parents change the result just as this definition says.",
 ["programs"], "all object graphs and starting sets",
 "Tests check two or three graphs; dominance is a global property of every path in the heap.",
 ["guppy/heapy/View.py", "src/heapy/hv.c"],
 [("reachability avoiding a set", "guppy/heapy/View.py dominos / imdom; src/heapy/hv.c hv_reachable_x")])
prop("H07", "Relative heaps show exactly what was allocated since the reference point",
 "After a reference point is set, a heap snapshot contains exactly the reachable objects created after it: no object that existed before is shown, and every object created since is shown, even when old objects have died and their memory has been reused. Setting the reference point again, or clearing it, takes effect at once, and subtracting or adding snapshots behaves likewise.",
 ["histories"], "all interleavings of allocation, deallocation, address reuse, and reference points",
 "Address reuse between the reference point and the snapshot depends on allocator history; the tests allocate a few objects once.",
 ["src/heapy/horizon.c", "guppy/heapy/Use.py", "guppy/heapy/View.py"],
 [("deallocation patching to forget dead members", "src/heapy/horizon.c horizon_patched_dealloc"), ("setref / setrelheap", "guppy/heapy/Use.py")])
prop("H08", "Observation does not disturb the program and hides the observer",
 "Taking snapshots and running any query leaves the program's objects as they were: values, reference counts and liveness are unchanged once the results are dropped, and no query keeps program objects alive afterwards. Objects belonging to the analyser never appear in snapshots, referrers or paths, and two snapshots of an idle program, taken in succession, contain the same objects.",
 ["programs", "histories"], "all programs and all sequences of queries",
 "Tests inspect results, not side effects; non-interference quantifies over queries.",
 ["src/heapy/hv.c", "guppy/heapy/View.py", "guppy/heapy/Use.py", "src/heapy/stdtypes.c"],
 [("hiding tags", "src/heapy/hv.c hv_is_obj_hidden; src/heapy/stdtypes.c"), ("clearing of caches and garbage collection", "guppy/heapy/View.py gchook / clear_*")])
prop("H09", "Snapshots and queries are safe and complete while other threads run",
 "While other threads start, run, block, allocate and end, snapshots and queries in one thread neither crash nor corrupt state, and always include objects held by local variables of threads that exist and are blocked throughout the call. Several threads may run queries at the same time, each with a session of its own, and each gets the result it would get alone.",
 ["schedules"], "all interleavings of querying threads and mutating, starting and ending threads",
 "The tests are single-threaded except for one root-state test; interleavings are not sampled at all.",
 ["src/heapy/rootstate.c", "src/heapy/hv.c", "guppy/heapy/View.py"],
 [("thread state walk", "src/heapy/rootstate.c"), ("atomicity under the GIL", "src/heapy/hv.c")])
prop("Z01", "Sizes are exact and additive",
 "The individual size reported for an object equals the memory the interpreter accounts to it, header included, for every type of object; the size of a set is the sum over its distinct members, and is the same however it is computed (directly, by partition, by row, cumulatively, or for a union of disjoint parts). Count and size of a set never depend on how it was built.",
 ["inputs"], "all objects of standard and user-defined types and all sets of them",
 "Tests compare sizes of a few types; the sum property quantifies over sets.",
 ["src/heapy/hv.c", "src/heapy/stdtypes.c", "guppy/heapy/View.py", "guppy/heapy/UniSet.py"],
 [("size functions", "src/heapy/hv.c hv_std_size, xt_size; src/heapy/stdtypes.c"), ("indisize sum", "src/heapy/hv.c hv_indisize_sum")])
prop("C01", "Classification by intrinsic attributes is correct for every object",
 "Classifying by type, by class, by class or dictionary owner, by size, by identity, by module, by producer and by unity assigns each object the class its definition says: its exact type, its class, the class of the object that owns the dictionary (or 'no owner'), its individual size, itself, the module it is, the file and line where it was allocated, and one class for all. A combination of classifiers assigns the tuple of the separate results. Classification does not depend on which other objects are in the set or on earlier classifications.",
 ["inputs", "histories"], "all objects and all sets, in any order of queries",
 "Tests classify small hand-made sets; caches (memo, dictionary owners) make results depend on history if wrong.",
 ["guppy/heapy/Classifiers.py", "src/heapy/hv_cli_prod.c", "src/heapy/hv_cli_dictof.c", "src/heapy/hv_cli.c", "src/heapy/hv_cli_indisize.c", "src/heapy/hv_cli_and.c", "src/heapy/hv_cli_id.c"],
 [("classify functions", "src/heapy/hv_cli*.c"), ("memoised kinds", "guppy/heapy/Classifiers.py")])
prop("C02", "Classification by referrers is correct for every object",
 "Classifying by referrer kinds assigns each object exactly the set of kinds of the visible reachable objects that refer to it, and classifying by inbound relation assigns exactly the set of relations through which it is referred to. Classification by index of the first matching kind, and by membership of given sets, gives the first alternative that really contains the object. Results are the same for every order and grouping of the queried objects.",
 ["programs", "inputs"], "all object graphs and all queried sets",
 "Tests check a few graphs; correctness quantifies over all referrers of every object.",
 ["src/heapy/hv_cli_rcs.c", "src/heapy/hv_cli_rel.c", "src/heapy/hv_cli_findex.c", "src/heapy/hv_cli_idset.c", "src/heapy/hv_cli_user.c", "guppy/heapy/Classifiers.py"],
 [("referrer region scan", "src/heapy/hv_cli_rcs.c hv_cli_rcs_fast / src/heapy/hv_cli_rel.c"), ("first match", "src/heapy/hv_cli_findex.c")])
prop("C03", "Symbolic kinds behave as consistent predicates",
 "A symbolic kind denotes a predicate on objects: intersecting any set with it keeps exactly the members that satisfy the predicate, and membership tests agree. Union, intersection, difference, symmetric difference and complement of kinds denote the corresponding Boolean combinations, and whenever equality, subset or disjointness of kinds is claimed it holds for every set of objects. Comparison variants (subtype, at most, size bounds) select by the stated ordering.",
 ["inputs"], "all kind expressions over the basic kinds and all sets of objects",
 "Tests check particular identities; Boolean consistency quantifies over expressions and objects.",
 ["guppy/heapy/UniSet.py", "guppy/heapy/Classifiers.py", "src/heapy/classifier.c"],
 [("symbolic simplification", "guppy/heapy/UniSet.py families"), ("select by comparison", "src/heapy/classifier.c cli_select")])
prop("C04", "Object sets support exact identity-set operations",
 "Sets of objects returned by the analyser behave as sets by identity under union, intersection, difference, symmetric difference, in-place variants, equality, subset, superset, disjointness, truth, length, iteration and membership, whatever mixture of empty, singleton and larger sets is combined, and no operation alters its operands. Indexing a set by row number or slice returns exactly the rows of its partition; looking up an attribute or an item in all the members (maprox) gives exactly the set of the values found.",
 ["inputs"], "all families of object sets and all combinations of operators",
 "Tests use a few small sets; singleton, empty and larger sets take different code paths in every operator.",
 ["guppy/heapy/UniSet.py", "guppy/heapy/ImpSet.py", "src/sets/immnodeset.c"],
 [("identity set families", "guppy/heapy/UniSet.py IdentitySetFamily")])
prop("C05", "The text of a symbolic kind or relation denotes it",
 "The text that repr gives for a symbolic kind or an equivalence relation, evaluated where the session has the name that the text starts with, gives an equal kind (or a relation that classifies in the same way), which selects the same objects, as long as the classes and objects it names by address exist in the heap. This holds for kinds made by calls, operators, comparison variants, or taken from partitions, with class, module, file and attribute names of any form. Kinds recognized as equal hash equally, whatever order their parts were given in (for the simplified forms that the operators give).",
 ["inputs"], "all expressions over classifiers, kinds and operators, and all names of classes and modules",
 "Tests evaluate the text of a few fixed kinds with well-behaved names.",
 ["guppy/heapy/Classifiers.py", "guppy/heapy/UniSet.py", "guppy/heapy/Use.py"],
 [("text of kinds", "guppy/heapy/Classifiers.py c_repr / get_userkindargrepr / get_sokindrepr / tc_repr / tc_adapt"), ("text of combinations, hash", "guppy/heapy/UniSet.py c_repr, c_hash")])
prop("P01", "Partitions split a set without loss, overlap or misfiling",
 "For every set and every equivalence relation, the rows of the partition are non-empty, pairwise disjoint and together equal the set; each row holds exactly the members with the row's kind; counts, sizes, percentages and cumulative totals add up to those of the whole. Rows are ordered by decreasing size as documented, and row, slice and per-object access all give the same objects.",
 ["inputs"], "all sets, all equivalence relations and combinations of them, all row and slice accesses",
 "Tests print a few partitions; conservation quantifies over sets and relations, including ties and large tables.",
 ["guppy/heapy/Part.py", "guppy/heapy/Classifiers.py", "src/heapy/classifier.c"],
 [("partition by classifier", "src/heapy/classifier.c cli_partition; guppy/heapy/Classifiers.py partition"), ("row tables", "guppy/heapy/Part.py")])
prop("P02", "Reference patterns describe the true referrer structure",
 "In a reference pattern, each node's child rows are exactly the partition of the referrers of that node's objects (excluding those already shown on the way, as marked), so that every referrer of every object is accounted for in exactly one row. Cycle, repeat and unfinished marks are shown exactly where the same set occurs earlier or the depth is cut off, and looking up a row by its label yields the set of objects that row describes.",
 ["programs"], "all reference graphs, depths and equivalence relations",
 "Tests compare a few fixed pictures.",
 ["guppy/heapy/RefPat.py", "guppy/heapy/View.py"],
 [("reference pattern iteration", "guppy/heapy/RefPat.py ReferencePattern / iter_children")])
prop("P03", "Printed tables show every row exactly once",
 "Printing a table and asking for more, or for all, displays every row exactly once in order, with the announced number of remaining rows being correct at each step, and the header totals agreeing with the set. The text of a row gives the true count, size, percentage and kind of that row. This holds for sets, statistics, paths and reference patterns of any number of rows and with any object, key, attribute or kind text.",
 ["inputs"], "all table sizes around the page limits and all printed names and values",
 "Tests print short tables with well-behaved names.",
 ["guppy/heapy/OutputHandling.py", "guppy/heapy/Part.py", "guppy/heapy/Path.py", "guppy/heapy/RefPat.py"],
 [("more-printer paging", "guppy/heapy/OutputHandling.py MorePrinter / BasicMorePrinter"), ("row formatting", "guppy/heapy/Part.py")])
prop("D01", "Statistics survive dump, load and arithmetic unchanged",
 "A statistical summary has the same rows, kinds, counts, sizes and totals as the set it was taken from; dumping it and loading it back, in any grouping of several summaries in one file or stream, yields an equal summary. Subtracting summaries subtracts the counts and sizes of each kind, with nothing lost or invented, and loading everything from a stream ends cleanly after the last one.",
 ["inputs", "histories"], "all summaries, file layouts, and sequences of dump, load and subtraction",
 "Tests dump and load one summary; names, ordering and multi-package streams are not varied.",
 ["guppy/heapy/Part.py", "guppy/heapy/Use.py"],
 [("dump / load format", "guppy/heapy/Part.py Stat.dump / load; guppy/heapy/Use.py load / loadall"), ("subtraction", "guppy/heapy/Part.py StatPartition")])
prop("E01", "Errors raised by user code surface cleanly and corrupt nothing",
 "When user-defined code that the analyser calls (iterators, size methods, classifiers, comparison, hash, text and attribute methods) raises, the error reaches the caller as an ordinary Python exception: no crash, no internal-error exception, no silently wrong result. After the failure every structure involved still obeys its contract and holds no stray references.",
 ["fault_sequences"], "all points at which a callback can fail, in all operations that make callbacks",
 "No test makes callbacks fail.",
 ["src/sets/bitset.c", "src/sets/nodeset.c", "src/heapy/hv.c", "src/heapy/classifier.c", "src/heapy/hv_cli_user.c", "src/heapy/hv_cli_indisize.c"],
 [("error propagation", "all C entry points")])
prop("E02", "Running out of memory is reported, never crashes or corrupts",
 "If any single memory allocation, or every allocation from some point on, fails during an operation on bit sets, node sets, node graphs or a heap query, the operation raises a memory error (or completes), and the process survives. Afterwards the operands still hold consistent contents, and repeating the operation with memory available gives the correct result. No reference is leaked or lost by the failure.",
 ["fault_sequences"], "every allocation in every operation, failing once or permanently",
 "No test injects allocation failures.",
 ["src/sets/bitset.c", "src/sets/nodeset.c", "src/sets/immnodeset.c", "src/heapy/nodegraph.c", "src/heapy/hv.c", "src/heapy/classifier.c"],
 [("allocation failure paths", "all C entry points")])
prop("E03", "A query that is interrupted leaves the session correct",
 "If a query is interrupted by an exception from outside, as a KeyboardInterrupt is, at any point of its Python code where such exceptions are delivered (save in the very statements that restore the state of the view), the exception reaches the caller, and the same query asked again, and every other query of the session, gives the answer that a session that was never interrupted gives. This holds for any number of interruptions, and for interruptions and failures of the clean-up that follows a garbage collection: changes of the heap that came before the collection are seen by the queries after it.",
 ["crash_points", "histories"], "every point of every query where a signal can be delivered, any number of times",
 "No test interrupts a query; all caches and locks are tested on undisturbed runs.",
 ["guppy/heapy/View.py", "guppy/heapy/UniSet.py", "guppy/heapy/Classifiers.py", "guppy/heapy/Part.py", "guppy/heapy/Path.py", "guppy/heapy/RefPat.py", "guppy/etc/Glue.py"],
 [("clean-up hook of the referrer graph", "guppy/heapy/View.py:clear_callback"), ("cached referrers", "guppy/heapy/View.py:referrers"), ("lazily computed attributes", "guppy/etc/Glue.py:getattr3")])
prop("M01", "No memory error or undefined behaviour in the extensions",
 "For every sequence of calls through the public interface, and every heap the analyser is run on, the compiled extensions never read or write memory they do not own, never use an object after its release, and never execute undefined behaviour; the process never crashes or aborts.",
 ["inputs", "histories", "programs"], "all call sequences and all heaps",
 "The tests run uninstrumented and on well-formed inputs.",
 ["src/sets/bitset.c", "src/sets/nodeset.c", "src/sets/immnodeset.c", "src/heapy/hv.c", "src/heapy/stdtypes.c", "src/heapy/nodegraph.c", "src/heapy/classifier.c", "src/heapy/rootstate.c", "src/heapy/horizon.c"],
 [("bounds, lifetime and overflow discipline of the C code", "src/")])
prop("M02", "Repeated use leaks nothing",
 "Repeating any operation of the set types, node graphs, classifiers or heap queries, with its results dropped, leaves the reference counts of the operands, the number of live objects and the amount of allocated memory as they were. This includes operations that end in an error. Objects of the extensions that are part of a cycle of references nothing else refers to are freed by the garbage collector.",
 ["histories"], "all operations repeated any number of times",
 "Tests run operations once and never compare reference counts before and after.",
 ["src/sets/bitset.c", "src/sets/nodeset.c", "src/heapy/hv.c", "src/heapy/stdtypes.c", "src/heapy/nodegraph.c", "src/heapy/classifier.c", "src/heapy/rootstate.c"],
 [("reference counting discipline of the C code", "src/")])
prop("X01", "Lazily composed interfaces resolve each attribute once and consistently",
 "Every public attribute of the entry objects resolves, on first use and in any order of access, to one object that later accesses return again; sessions created separately do not share state, while views derived from the same session do. An attribute declared changeable can be reassigned, and the change is seen from then on through every interface to its module in that session and in no other session; attributes declared settable can be set until they are resolved, and all others refuse assignment and stay as they were. A failed resolution, recursive definitions included, is reported and leaves the rest of the session intact.",
 ["histories"], "all orders of attribute access and assignment, over any number of sessions",
 "Tests access attributes in a fixed order from one session per test.",
 ["guppy/etc/Glue.py", "guppy/__init__.py", "guppy/heapy/Use.py"],
 [("share/interface resolution and caching", "guppy/etc/Glue.py Share.getattr / Owner")])
prop("X02", "Regular-expression and automaton tools preserve the language",
 "Regular expressions built, normalised, reversed, factored or converted to and from automata by the support tools denote the same language as before the transformation. Automata derived by minimisation and combination accept exactly the words the definition says. Permutation generation yields every permutation exactly once.",
 ["inputs"], "all small expressions, automata and words",
 "The module tests check particular outputs.",
 ["guppy/etc/RE.py", "guppy/etc/RE_Rect.py", "guppy/etc/FSA.py", "guppy/etc/IterPermute.py"],
 [("simplification rules", "guppy/etc/RE.py rempretup / simulform"), ("subset construction and minimisation", "guppy/etc/FSA.py")])
prop("X03", "Rewriting completion preserves the congruence and gives normal forms",
 "When completion of a set of string equations succeeds, the resulting rewrite rules are confluent and terminating: every string reduces to one normal form whatever rules are applied first, and two strings have the same normal form exactly if the given equations make them equal. Functors and categories built from such presentations compose accordingly.",
 ["inputs"], "all small presentations and all short strings",
 "The module's tests complete three fixed presentations.",
 ["guppy/etc/KnuthBendix.py", "guppy/etc/KanExtension.py", "guppy/etc/Cat.py"],
 [("Knuth-Bendix completion", "guppy/etc/KnuthBendix.py")])

prop("L01", "The document language reads back, applies and writes exactly what it is given",
 "The document language's dotted trees, specification nodes, attributes, filing and markup keep what they are given: a tree of tags unparsed to dotted text and parsed again is the same tree with the same text in every tag, for every string a tag may hold (leading dots, quotes, empty lines, other separators, non-ASCII); a text whose levels are not well formed raises SyntaxError; specification nodes written to text, a file or an include read back as the same nodes, each child is visited once and in order by the method named after it, and attributes given with .with or name=value end up on the node they are written on; writing files gives exactly the described contents, keeping previous contents as backups and leaving other files alone; and markup is read into the elements, attributes and text it has.",
 ["inputs"], "all trees, texts, node trees, sets of files and markup documents",
 "The tests parse and unparse a few fixed texts; quoting is only wrong for particular combinations of separators, quotes and line breaks.",
 ["guppy/gsl/DottedTree.py", "guppy/gsl/SpecNodes.py", "guppy/gsl/Filer.py", "guppy/gsl/FileIO.py", "guppy/gsl/Gsml.py"],
 [("parsing and unparsing of dotted trees", "guppy/gsl/DottedTree.py"), ("nodes, visitors, includes and attributes", "guppy/gsl/SpecNodes.py"), ("writing files with backups", "guppy/gsl/Filer.py, guppy/gsl/FileIO.py"), ("reading markup", "guppy/gsl/Gsml.py")])

prop("L02", "Documents are written as HTML with exactly their text, elements and links",
 "A document of the document language written as HTML or XHTML is well formed, and what an HTML reader finds in it is exactly what the document holds: its elements in order and nested as they were, every attribute with its value and every text and character as given, whatever characters they contain; titles, authors, language and meta data are in its header. Names are written as valid anchors, distinct names as distinct anchors; links between the documents that are made together lead to the anchor of the name in the document that defines it, and links to names that none defines are emphasized text instead. An unknown tag, an unknown character, or contents in an element that can have none raise an error. Writing to a file writes the same text. White space between elements, and line breaks before long texts, are not judged; Latex and Tk output are not part of this.",
 ["inputs"], "all documents, texts, attribute values and names, and sets of documents that link to each other",
 "No test writes HTML.",
 ["guppy/gsl/Html.py", "guppy/gsl/XHTML.py", "guppy/gsl/Main.py", "guppy/gsl/SpecNodes.py"],
 [("writing HTML", "guppy/gsl/Html.py: Node2Html"), ("writing XHTML", "guppy/gsl/XHTML.py: Node2XHTML"), ("names of anchors", "encode_name"), ("linking documents", "guppy/gsl/Main.py: SpecEnv.link_documents")])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
