# One entry per property: id, title, statement, quantifier over, quantifier text, why tests can't, files, mechanisms, technique
def P(id, title, statement, over, qtext, why, files, mech, tech, note): return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note)
PROPS = [
P("C01", "Handles keep objects alive: counts are conserved by every handle operation",
  "Whatever sequence of copies, moves, assignments (including self-assignment and assignment from a part of the object being released), swaps and destructions a program performs on diagrams and operations, the count of each object equals the number of live handles on it. An object is destroyed exactly when its last handle goes away, never earlier and never twice.",
  ["histories", "programs"], "every sequence of handle operations, including aliasing ones",
  "tests copy a few handles in straight-line code; aliasing assignments and release orders are unbounded and a missed count is silent until memory is reused",
  ["sdd/mem/ptr.hh", "sdd/mem/unique.hh", "sdd/dd/definition.hh", "sdd/hom/definition.hh"],
  [("handle special members", "sdd/mem/ptr.hh"), ("reference counter", "sdd/mem/unique.hh"), ("wrappers", "sdd/dd/definition.hh, sdd/hom/definition.hh")],
  "abstract interpretation of every handle operation in alias scenarios (reference-count conservation typestate)",
  "Decides, for every exported instantiation, that each handle operation conserves counts in each alias scenario and calls the deletion handler exactly at zero. Raw pointer misuse outside the handle class is covered by C02/C20 only."),
P("C02", "Equal objects are stored once, so equality of handles is equality of content",
  "Two diagrams or operations built in any way are equal if and only if they are the same stored object: every construction goes through unification, which returns the already stored equal object and discards the new one, or stores the new one. An object that is no longer used is removed from the store before its memory is released, and its memory is never handed out twice.",
  ["histories", "inputs"], "every interleaving of constructions and releases",
  "tests compare a few pairs; the uniqueness of every object over every history cannot be sampled",
  ["sdd/mem/unique_table.hh", "sdd/dd/definition.hh", "sdd/hom/definition.hh", "sdd/manager.hh", "sdd/internal_manager.hh", "sdd/values_manager.hh", "sdd/values/flat_set.hh"],
  [("unification", "sdd/mem/unique_table.hh operator()"), ("recycled block", "sdd/mem/unique_table.hh allocate"), ("construction entry points", "sdd/dd/definition.hh, sdd/hom/definition.hh, sdd/values/flat_set.hh"), ("equality", "sdd/mem/ptr.hh")],
  "abstract interpretation of unification/allocation/erasure plus who-may-construct query over resolved constructor calls",
  "Decides the unification protocol on every path and that no constructor call of a unified type bypasses it."),
P("C03", "Equality and hash of every stored or cached object agree and read all of it",
  "For every kind of object kept in a unique table or used as a cache key, equality compares every component that distinguishes two objects, and equal objects always hash equally. Components that are not compared never influence the hash.",
  ["inputs"], "every pair of objects of every kind",
  "a congruence over all pairs of values; a missed component only shows on a collision of particular objects",
  ["sdd/dd/node.hh", "sdd/dd/alpha.hh", "sdd/dd/nary.hh", "sdd/dd/difference.hh", "sdd/hom", "sdd/values", "sdd/order/order.hh", "sdd/mem/variant.hh", "sdd/util/hash.hh"],
  [("hash specialisations", "std::hash<...> in each header"), ("equality operators", "operator== in each header")],
  "field-footprint dataflow of every equality/hash pair with congruence check",
  "Decides which components equality and hash read on every path; user-provided callables are trusted to satisfy the same contract."),
P("C04", "Union, intersection and difference of diagrams are the set operations",
  "For all operands over the same variables, the union, intersection and difference of diagrams contain exactly the assignments that the set operation of the same name gives, including when an operand is the empty set, the one-terminal or equal to another operand, and for any number of operands. The operator forms, in-place forms and range forms agree with each other.",
  ["inputs"], "all operands, all numbers of operands, both kinds of nodes and all value types",
  "tests check a few dozen small diagrams; partition refinement errors need particular overlaps of values and successors",
  ["sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/square_union.hh", "sdd/dd/nary.hh"],
  [("work", "sdd/dd/sum.hh, intersection.hh"), ("difference visitor", "sdd/dd/difference.hh"), ("square union", "sdd/dd/square_union.hh")],
  "one-point abstraction: finite abstract interpretation of the set-algebra code on a generic assignment, to a fixpoint",
  "Decides that membership of one arbitrary assignment is preserved through the algorithms; recursive calls are assumed to satisfy the same specification (structural induction)."),
P("C05", "Value sets behave as mathematical sets",
  "For the provided value sets, union, intersection, difference, insertion, removal, emptiness, size, equality and ordering are those of finite sets of elements, and operations never modify their arguments. Two equal sets are indistinguishable, and an insertion through one value never changes another.",
  ["inputs"], "all value sets and elements",
  "tests use small sets of small numbers",
  ["sdd/values/bitset.hh", "sdd/values/flat_set.hh", "sdd/values/empty.hh", "sdd/values/size.hh"],
  [("bitset", "sdd/values/bitset.hh"), ("unique flat set", "sdd/values/flat_set.hh")],
  "value-numbering summaries of each operation compared with the set-algebra specification",
  "Decides that each operation applies the matching standard-library set operation to the right operands; the standard library is trusted."),
P("C06", "A memoised result is the result of that very operation on those operands",
  "Evaluating an operation through a cache returns what evaluating it directly returns: a hit is only served for an equal operation, a miss evaluates the operation before the cache is modified and stores exactly that result under exactly that operation, and an operation excluded from caching is simply evaluated. If the evaluation throws, the cache is as if the operation had not been requested.",
  ["histories", "inputs"], "all sequences of cached operations, nested evaluations and failures",
  "a wrong association shows only for particular eviction and nesting histories",
  ["sdd/mem/cache.hh", "sdd/mem/cache_entry.hh", "sdd/hom/evaluation.hh", "sdd/dd/context.hh", "sdd/hom/context.hh"],
  [("cache lookup", "sdd/mem/cache.hh operator()"), ("entry", "sdd/mem/cache_entry.hh"), ("filters", "sdd/hom/evaluation.hh")],
  "path-sensitive dataflow over the cache entry point (order of evaluation, insertion and result)",
  "Decides the protocol on every path of the cache for every exported operation type."),
P("C07", "Caches stay bounded, evict the least recently used entry, and reset to empty",
  "A cache never holds more entries than its capacity, whatever is evaluated; when it is full the entry dropped is the one not used for the longest time, and it is dropped from every internal index before its memory is reused. Resetting a cache drops every entry and leaves the cache as new.",
  ["histories"], "all sequences of lookups, insertions and resets",
  "eviction needs full caches and resets in particular histories; tests use few operations",
  ["sdd/mem/cache.hh", "sdd/dd/context.hh", "sdd/hom/context.hh", "sdd/manager.hh"],
  [("eviction", "sdd/mem/cache.hh operator()"), ("clear", "sdd/mem/cache.hh clear"), ("pool", "sdd/mem/cache.hh pool")],
  "typestate analysis of cache entries across the three indexes (table, LRU list, pool)",
  "Decides the protocol of eviction, insertion, hit and clear on every path."),
P("C08", "Combining incompatible diagrams raises an error instead of giving a result",
  "A set operation on two non-empty diagrams that cannot belong to the same set (different variables, different kinds of nodes at the same level, a terminal and a node) raises the documented incompatibility error carrying the two operands, for every operand position and both operand orders. Compatible operands never raise it.",
  ["inputs"], "all pairs and tuples of operands",
  "tests try a handful of incompatible pairs in a few positions",
  ["sdd/dd/check_compatibility.hh", "sdd/dd/nary.hh", "sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/top.hh"],
  [("compatibility check", "sdd/dd/check_compatibility.hh"), ("n-ary dispatch", "sdd/dd/nary.hh"), ("difference visitor", "sdd/dd/difference.hh")],
  "dominance analysis: every downcast of an operand is dominated by the compatibility check or the dispatch on its kind",
  "Decides that no operand is reinterpreted unchecked and that the check compares what it must."),
P("C09", "Applying an operation gives the result its definition prescribes",
  "Applying identity, constant, composition, union, intersection, conditional, fixpoint, local, function, inductive and prepending operations, and their saturated forms, to any diagram gives what their definitions say: operands are applied to the right argument, in the right order and at the right level, all of them contribute, and a fixpoint returns a diagram its operand leaves unchanged.",
  ["inputs", "programs"], "all operations and diagrams",
  "tests apply small operations to small diagrams; each operator has cases (empty intermediate results, artificial levels, hierarchical successors) that are not sampled together",
  ["sdd/hom/composition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/if_then_else.hh", "sdd/hom/fixpoint.hh", "sdd/hom/local.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/hom/cons.hh", "sdd/hom/constant.hh", "sdd/hom/identity.hh", "sdd/hom/saturation_sum.hh", "sdd/hom/saturation_intersection.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/evaluation.hh"],
  [("operation application", "operator() of each operation in sdd/hom/*.hh"), ("evaluation visitor", "sdd/hom/evaluation.hh")],
  "value-numbering abstract interpretation of each operator's application against its definition",
  "Decides the flow of operands, levels and results of each operator on every path, with the recursive applications uninterpreted."),
P("C10", "Simplifications made when building operations do not change their meaning",
  "The operation returned by a constructor is equivalent to the one asked for: neutral and absorbing operands are only dropped when they are neutral or absorbing, flattening and regrouping keep every operand with its level, and operands are kept in an order that the meaning does not depend on.",
  ["inputs", "programs"], "all operands of all constructors",
  "each simplification triggers on particular shapes of operands",
  ["sdd/hom/composition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/fixpoint.hh", "sdd/hom/local.hh", "sdd/hom/if_then_else.hh", "sdd/hom/cons.hh", "sdd/hom/constant.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/order/carrier.hh"],
  [("constructors", "free functions at the end of each sdd/hom/*.hh")],
  "operand-conservation dataflow on every path of each constructor",
  "Decides that every operand reaches the constructed operation or is provably neutral on that path."),
P("C11", "Rewriting for saturation preserves the operation",
  "Rewriting an operation for an order yields an operation with the same result on every diagram of that order: every operand of the original appears exactly once in the rewritten one, in the part (this level, nested level, below) that its skipping behaviour allows, at the level of the order it was found at. Operations that the rewriting does not understand are returned unchanged.",
  ["inputs", "programs"], "all operations and orders",
  "tests rewrite a few sums and fixpoints",
  ["sdd/hom/rewrite.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/saturation_sum.hh", "sdd/hom/saturation_intersection.hh"],
  [("rewriter", "sdd/hom/rewrite.hh"), ("saturation constructors", "sdd/hom/saturation_*.hh")],
  "operand partition dataflow in the rewriter",
  "Decides conservation and placement of operands on every path."),
P("C12", "A level is skipped only by an operation that leaves it untouched",
  "An operation claims to skip a level, or to be a selector, only if all the operations it is built from do; applying an operation to a level it skips applies it, with the order moved to the next level, to every successor and keeps the level's values as they are. Operations that do work at a level are never propagated past it.",
  ["inputs", "programs"], "all operations, levels and orders",
  "a wrong claim only shows for combinations of operators and levels not in the tests",
  ["sdd/hom/evaluation.hh", "sdd/hom/composition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/local.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/hom/fixpoint.hh", "sdd/hom/if_then_else.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/definition.hh"],
  [("skip and selector predicates", "skip()/selector() of each operation"), ("skipping evaluation", "sdd/hom/evaluation.hh")],
  "predicate dataflow: each skip/selector result is implied by those of all operands",
  "Decides the boolean structure of every predicate and the skipping evaluation on every path."),
P("C13", "Orders give every identifier one place, consistently",
  "An order never contains the same identifier twice, gives each of its levels its own position and its variable, identifier, nested and next levels as they were declared, and answers membership and containment questions consistently with them. Looking up an identifier that is not in the order, or building one from duplicates, raises an error.",
  ["inputs"], "all order descriptions and lookups",
  "tests build small orders of a few shapes",
  ["sdd/order/order.hh", "sdd/order/order_builder.hh", "sdd/order/order_node.hh", "sdd/order/order_identifier.hh", "sdd/order/order_error.hh", "sdd/order/carrier.hh"],
  [("flattening of a builder", "sdd/order/order.hh mk_order"), ("lookups", "sdd/order/order.hh"), ("builder", "sdd/order/order_builder.hh")],
  "value-numbering summaries of construction and lookups; must-raise analysis",
  "Decides construction and lookups on every path; deep structural induction over builders is assumed for recursive calls."),
P("C14", "Ordering strategies only rearrange: no identifier is lost, added or duplicated",
  "Flattening, grouping into hierarchies and force-directed reordering each return an order description with exactly the identifiers of their input. The force-directed heuristic keeps the best arrangement it has seen.",
  ["inputs"], "all order descriptions and hypergraphs",
  "tests run strategies on a few small inputs",
  ["sdd/order/strategies/flatten.hh", "sdd/order/strategies/identifiers_per_hierarchy.hh", "sdd/order/strategies/force.hh", "sdd/order/strategies/force_hypergraph.hh", "sdd/order/strategies/force_hyperedge.hh", "sdd/order/strategies/force_vertex.hh"],
  [("strategies", "sdd/order/strategies/*.hh")],
  "element-conservation dataflow from the input description to the returned one",
  "Decides that each iteration path passes its identifier on exactly once; numerical quality of the heuristic is not decided."),
P("C15", "A manager owns its library state from start to end",
  "Only one manager per configuration can be live; it installs all the state that operations need before returning, gives each configuration the settings it was asked for, and on destruction releases everything in an order where nothing is used after its owner is gone, so that a new manager can be created afterwards. Handles work for as long as the manager lives.",
  ["histories", "configurations"], "all sequences of manager creation and destruction, for all configurations",
  "tests create one manager per test process or fixture",
  ["sdd/manager.hh", "sdd/internal_manager.hh", "sdd/values_manager.hh", "sdd/conf/default_configurations.hh", "sdd/dd/context.hh", "sdd/hom/context.hh"],
  [("init", "sdd/manager.hh"), ("destructor", "sdd/manager.hh"), ("member order", "sdd/internal_manager.hh, sdd/values_manager.hh")],
  "typestate analysis of the manager's lifecycle, declaration-order analysis and size-parameter flow",
  "Decides installation/teardown order and parameter flow on every path."),
P("C16", "Temporary memory of an operation never outlives it nor overlaps another's",
  "Memory taken from an operation's scratch area is given back only after the last object in it is gone, nested operations never give back or overwrite memory of the operations that called them, and requests that do not fit are served correctly from elsewhere.",
  ["histories", "inputs"], "all nestings of operations and sizes of operands",
  "tests never exhaust the area nor nest deeply with large operands",
  ["sdd/mem/linear_alloc.hh", "sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/hom/evaluation.hh", "sdd/hom/local.hh"],
  [("arena", "sdd/mem/linear_alloc.hh"), ("rewinder", "sdd/mem/linear_alloc.hh"), ("users", "sdd/dd/*.hh, sdd/hom/*.hh")],
  "scope/ownership analysis of rewinders and arena-backed containers; interval reasoning on the bump pointer",
  "Decides scoping at every user of the area and the allocation arithmetic on every path."),
P("C17", "Errors reach the caller: no error path ends the program or is swallowed",
  "An error raised while an operation is evaluated (incompatible operands, a failing user callback, an unknown identifier) propagates to the caller of that operation; no function on the way promises not to throw while calling something that can, and nothing on the way catches and drops it.",
  ["inputs", "fault_sequences"], "all call paths from the public API to a point that can raise",
  "tests trigger errors at the top level only",
  ["sdd/hom/evaluation.hh", "sdd/dd/nary.hh", "sdd/hom/inductive.hh", "sdd/hom/function.hh", "sdd/order/order.hh", "sdd/mem/cache.hh"],
  [("exception specifications", "all headers"), ("handlers", "all headers")],
  "interprocedural may-throw analysis over the resolved call graph against exception specifications and handlers",
  "Decides that no nothrow function can reach a throw of the library or a user callback; allocation failure is out of scope."),
P("C18", "Every kind of object is dispatched to the code for its own kind",
  "An operation applied to a stored object of any kind runs the code for exactly that kind, for one and for two operands; testing an object's kind and viewing it as that kind agree; and an object is destroyed, compared and hashed as the kind it was created with.",
  ["inputs"], "all kinds, and all pairs of kinds",
  "tests reach some pairs of kinds",
  ["sdd/mem/variant.hh", "sdd/mem/variant_impl.hh", "sdd/util/typelist.hh"],
  [("dispatch tables", "sdd/mem/variant_impl.hh"), ("storage", "sdd/mem/variant.hh")],
  "evaluation of the resolved dispatch tables entry by entry; index arithmetic by value numbering; storage size/alignment by constant evaluation",
  "Decides each entry of each exported dispatch table."),
P("C19", "The hash table never loses, duplicates or misplaces an element",
  "After any sequence of insertions, removals, growths and clearing, looking up an element finds it if and only if it was inserted and not removed, its size is the number of elements it holds, and growing it moves every element. Clearing disposes of each element exactly once.",
  ["histories", "inputs"], "all sequences of operations and all collisions",
  "tests use few elements and rarely collide or grow",
  ["sdd/mem/hash_table.hh"],
  [("chained buckets", "sdd/mem/hash_table.hh")],
  "shape-preserving dataflow on chain updates (link/unlink/move) on every path",
  "Decides link, unlink, growth and clear on every path with a generic chain position."),
P("C20", "Shared objects cannot be modified through the public interface",
  "No program using the public interface can modify a diagram, an operation or a value set that is shared: everything it can reach through them is read-only, and every modifying operation on a handle makes that handle designate another object.",
  ["programs"], "all client programs",
  "a test shows one program, not that no program compiles",
  ["sdd/dd/definition.hh", "sdd/dd/node.hh", "sdd/dd/alpha.hh", "sdd/hom/definition.hh", "sdd/mem/ptr.hh", "sdd/mem/unique.hh", "sdd/values/flat_set.hh", "sdd/order/order.hh"],
  [("accessors", "public methods of the listed classes"), ("const members", "sdd/mem/unique.hh, sdd/dd/alpha.hh")],
  "type-level query of every public accessor plus compile-fail witnesses",
  "Decides that no public accessor yields a mutable path into a shared object; casts by the client are out of scope."),
P("C21", "Counting and inspection tools account for every node, arc and assignment once",
  "The number of assignments, of nodes, of arcs and the memory size reported for a diagram count each reachable node exactly once and each arc of it, through nested diagrams as well as successors; path enumeration yields every assignment; the textual exports mention every node.",
  ["inputs"], "all diagrams, flat and hierarchical, with sharing",
  "tests count small diagrams",
  ["sdd/dd/count_combinations.hh", "sdd/dd/path_generator.hh", "sdd/tools/nodes.hh", "sdd/tools/arcs.hh", "sdd/tools/size.hh", "sdd/tools/sdd_statistics.hh", "sdd/tools/dot/sdd.hh"],
  [("visitors", "sdd/tools/*.hh, sdd/dd/count_combinations.hh, sdd/dd/path_generator.hh")],
  "traversal-coverage dataflow of each visitor (visited test, recursion on every arc, both kinds of nodes)",
  "Decides coverage and the counting term per arc; overflow of counters is not decided except where the counter type is arbitrary precision."),
P("C22", "Variable-length objects own exactly the memory they use",
  "Objects that store their operands or arcs after themselves are always given memory for all of them, construct each once, destroy each once, and never read or write past them.",
  ["inputs"], "all numbers of operands and arcs",
  "tests build small objects and do not check memory",
  ["sdd/dd/node.hh", "sdd/dd/alpha.hh", "sdd/dd/nary.hh", "sdd/dd/definition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/saturation_sum.hh", "sdd/hom/consolidate.hh", "sdd/hom/definition.hh", "sdd/mem/unique_table.hh"],
  [("consolidation", "sdd/dd/alpha.hh, sdd/dd/nary.hh, sdd/hom/consolidate.hh"), ("allocation sizes", "sdd/dd/definition.hh, sdd/hom/definition.hh")],
  "size/stride value numbering of allocation, construction, iteration and destruction sites",
  "Decides that the four sites of each object agree on element type, count and base address."),
P("C23", "Diagrams are always in reduced form",
  "No diagram ever contains an arc labelled by an empty set of values or leading to the empty diagram, a node without arcs is the empty diagram, and no two arcs of a node lead to the same successor. This holds for the results of constructors, set operations and operations alike.",
  ["inputs", "programs"], "all ways of building a diagram",
  "a node with an empty arc prints like any other; tests look at a few results",
  ["sdd/dd/definition.hh", "sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/square_union.hh", "sdd/dd/alpha.hh", "sdd/hom/evaluation.hh", "sdd/hom/local.hh", "sdd/hom/function.hh", "sdd/hom/cons.hh"],
  [("node creation", "sdd/dd/definition.hh"), ("arc builders", "sdd/dd/alpha.hh, sdd/dd/square_union.hh"), ("guards", "every call site that adds an arc")],
  "guard-dominance dataflow at every site that adds an arc or creates a node",
  "Decides that each added arc is provably non-empty on both sides on every path."),
]
NA = [
 ("Exact numerical quality of force-directed reordering", "quantifies over floating-point runtime values"),
]
NA = {
"C11": "equivalence of the saturated form rests on commutation of the user's operations with skipped levels and on termination of nested fixpoints, which no static abstraction in reach expresses; the parts that can be stated (each saturated form evaluates to its definition, skip predicates) are C09 and C12",
"C13": "positions, paths and lookups are arithmetic over recursively built vectors (indices assigned by a depth-first count): element-exact shape and index invariants that the engine's first/arbitrary/rest summary of a sequence cannot represent",
"C14": "conservation of identifiers goes through std::sort / deque / floating-point gravity computations; that the sequence is a permutation needs element-exact container reasoning, and 'best arrangement' is a numerical quantity",
"C21": "counts are numerical results over unbounded graphs (sums of products through memo tables): the one-point domain follows membership, not cardinality",
}
for p in PROPS:
    if p["id"] in NA: p["na"] = NA[p["id"]]
