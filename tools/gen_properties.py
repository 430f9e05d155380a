#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that ids, titles and wording stay in one place)."""
import json, sys
P=[]
def p(id,title,st,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
                  anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech])))
H=["histories","fault_sequences","inputs"]
p("C01","BDD operations return exactly the specified Boolean function, in any history",
 "Whatever operations, garbage collections, cache clears and handle drops came before on a BDD manager, every BDD operation (not, and, or, xor, imp, nand, nor, xnor, if-then-else, n-ary and/or, k-of-n over arbitrary functions, dual, variable definition, node creation) returns a node that evaluates, at every assignment of the variables, to what the operation's truth table prescribes for its operands. This holds at the engine (bddcore) and at the handle layer (bss), wherever the operands are determined (0/1); with exactly one undetermined operand the result is undetermined, or what the other operand alone decides.",
 H,"all interleavings of client operations, gc points and memo-table losses on one manager; all operand functions and variable orders",
 "Tests build a few fixed 2-5 variable expressions on fresh managers and mostly print the DOT; none compares results point by point after gc, slot reuse and cache loss.",
 ["bddcore/src/bdd.rs","bddcore/src/bdd_ops.rs","bss/src/bdd.rs","bss/src/bdd_kofn.rs","bss/src/bdd_dual.rs","common/src/compute_cache.rs"],
 ["recursive apply over the hash-consed arena","memo tables keyed on node ids that gc recycles","kofn/dual memo per call"])
p("C02","Equal functions are one node: every diagram engine stays canonical",
 "In every engine (BDD, ZDD, MDD, multi-terminal MDD, the two-forest MDD, zero-suppressed MDD) two live nodes of one manager are the same node if and only if they denote the same function or family, at every moment of every history including after garbage collection, slot reuse and cache loss. Every diagram reachable from a live node is ordered (levels strictly descend), reduced by its engine's rule and free of duplicate nodes. Minimal path/cut families obtained by separate calls obey the same identity.",
 H,"all histories of node creation, operations, gc and cache loss on one manager; all pairs of live nodes",
 "Tests compare ids for a handful of pairs right after construction; canonicity can be lost only through particular orders of gc, slot recycling and re-creation.",
 ["bddcore/src/bdd.rs","bddcore/src/zdd.rs","mddcore/src/mdd.rs","mddcore/src/mtmdd.rs","mddcore/src/mtmdd2.rs","mddcore/src/zmdd.rs","bss/src/zdd_convert.rs","mss/src/zmdd_convert.rs"],
 ["unique tables retained across gc","reduction in create_node","free list of recycled slots","header reuse in the ZDD/ZMDD converters"])
p("C03","A live handle never changes meaning, whatever is collected around it",
 "As long as a handle to a BDD, ZDD, MDD or ZMDD node exists (original or clone), it denotes the function or family it was created with and remains usable as operand and query subject, no matter when automatic collection fires (any threshold), when explicit collection is requested, which other handles are cloned or dropped in which order, and which caches are cleared. Declared variables stay usable for the manager's lifetime even if the caller keeps no handle to them.",
 ["histories","schedules","fault_sequences"],"all interleavings of handle creation, cloning, dropping and use by several clients with automatic gc at every possible threshold",
 "test_autogc runs two fixed workloads; the hazardous cases are specific orders of drop, gc and re-creation at particular thresholds.",
 ["bss/src/bdd.rs","bss/src/zdd.rs","mss/src/mdd.rs","mss/src/zmdd.rs","bddcore/src/bdd.rs","mddcore/src/mtmdd2.rs"],
 ["reference-counted gc roots in Clone/Drop","collection only at operation boundaries","mark from roots, non-compacting sweep"])
p("C04","Collection frees exactly the unreachable nodes and memory stays bounded",
 "A collection leaves alive exactly the terminals and the nodes reachable from the given roots (for handle managers: from live handles and declared variables), so the live-node count afterwards equals that number, its return value equals the number of free slots, and freed slots are reused before the arena grows. With the collection threshold of a handle manager (one that was set, or the built-in one), after every operation that returns a node the live-node count never exceeds the larger of the threshold and twice the largest set reachable from live handles so far.",
 H,"all histories of operations, root sets, drops and collections, all thresholds",
 "Tests check one or two counts after one collection; leaks and over-collection show only after particular sequences of collections and partial slot reuse.",
 ["bddcore/src/bdd.rs","bddcore/src/zdd.rs","mddcore/src/mdd.rs","mddcore/src/mtmdd.rs","mddcore/src/mtmdd2.rs","mddcore/src/zmdd.rs","bss/src/bdd.rs","bss/src/zdd.rs","mss/src/mdd.rs","mss/src/zmdd.rs"],
 ["mark and sweep with free list rebuilt from dead slots","threshold re-armed at twice the survivors"])
p("C05","Operation caches are only hints: losing entries never changes a result",
 "Running the same sequence of operations with the operation caches shrunk, colliding, at their growth ceiling, randomly forgetting or losing entries, cleared at any point or never hit at all yields the same functions as running it undisturbed, in every engine. The shared computed table itself returns for a key either nothing or the value most recently stored under exactly that key, never an entry whose operands or result were collected, keeps that promise across growth, collection and clearing, and reports as its length the number of entries it holds.",
 ["fault_sequences","histories","configurations"],"all sequences of cache losses, sizes, clears and collections; all key sequences for the table",
 "The unit tests never fill a cache, so growth, collision, the ceiling and stale entries after slot reuse are not reached at all.",
 ["common/src/compute_cache.rs","bddcore/src/bdd_ops.rs","bddcore/src/zdd_ops.rs","mddcore/src/mdd_ops.rs","mddcore/src/mtmdd_ops.rs","mddcore/src/mtmdd2_ops.rs","mddcore/src/zmdd_ops.rs"],
 ["direct-mapped lossy table","retain_live/retain_live3 after gc","op codes and operand order in keys","caches cleared on gc in MTMDD2"])
p("C06","ZDD set algebra computes exact set families, in any history",
 "Whatever came before on a ZDD manager, union, intersection, difference, product (pairwise unions) and division (weak-division quotient by a non-empty family), singletons, families built from explicit sets (duplicates and the empty set included) and created nodes denote exactly the prescribed family of sets, at the engine and at the handle layer. Enumerating a family yields each member set exactly once.",
 H,"all families over any number of elements, all histories with gc and cache loss",
 "Tests check three-element families on fresh managers (intersection with {∅} and division were in fact wrong before this work).",
 ["bddcore/src/zdd_ops.rs","bddcore/src/zdd.rs","bss/src/zdd.rs","bss/src/zdd_path.rs"],
 ["recursive apply under zero suppression","HashMap memo filtered by liveness on gc"])
p("C07","Boolean MDD operations return exactly the specified function, in any history",
 "Whatever came before on an MDD manager, not, and, or, xor, imp, nand, nor, xnor, if-then-else and node creation over variables with any mix of state counts (two or more) return a node that evaluates at every state vector to what the truth table prescribes, wherever the operands are determined (with exactly one undetermined operand: undetermined, or what the other operand alone decides); replace fills exactly the undetermined points of its first operand from its second.",
 H,"all state counts, orders, operand functions; all histories with gc and cache loss",
 "Tests use one or two small diagrams and print them.",
 ["mddcore/src/mdd.rs","mddcore/src/mdd_ops.rs"],["n-ary recursive apply","memo and ite tables","reduction when all edges are equal"])
p("C08","Multi-valued arithmetic is exact at every state vector, in any history",
 "Whatever came before on a multi-terminal MDD manager, +, -, *, /, remainder, min and max return a node whose value at every state vector is the arithmetic of the operand values there, is undetermined exactly where an operand is undetermined or the divisor is zero, and replace fills exactly the undetermined points of its first operand from its second. Constants and node creation are exact for any value of the user's value type.",
 H,"all value types obeying the trait, all operand functions, all histories with gc and cache loss",
 "Tests check a few sums and products of two or three variables.",
 ["mddcore/src/mtmdd.rs","mddcore/src/mtmdd_ops.rs","mss/src/mdd.rs"],["n-ary recursive apply with value terminals","value table and unique table filtered by liveness"])
p("C09","Comparisons and selection between value and boolean diagrams are exact",
 "Whatever came before, ==, !=, <, <=, >, >= between value diagrams yield a boolean diagram that is true at exactly the state vectors where the comparison of the two (determined) values is true; == and != between boolean diagrams are equivalence and exclusive-or; where a value is undetermined, ==, <, <= and > are never true; if-then-else with a boolean condition over two value or two boolean diagrams selects pointwise, and if-then without else is undetermined where the condition does not hold; mixing the wrong kinds of operands yields an undetermined node (or, where no result kind is defined, a panic that leaves the manager intact), never a wrong determined one. The same holds for the n-ary and/or/min/max of the handle layer.",
 H,"all pairs of diagrams across the two forests, all histories with gc and cache loss",
 "No test evaluates comparisons pointwise (<= in fact behaved as < before this work); cross-forest caches keyed on ids of two different forests are exercised by no test after gc.",
 ["mddcore/src/mtmdd2.rs","mddcore/src/mtmdd2_ops.rs","mss/src/mdd.rs"],["cross-forest memo tables cleared on gc","veq/vlt/vite recursion"])
p("C10","Zero-suppressed multi-valued families combine exactly, in any history",
 "Whatever came before on a zero-suppressed MDD manager, intersection keeps exactly the vectors both families file under the same label, difference keeps exactly the vectors of the first family that the second does not file under the same label, and inserting the baseline adds the all-zero vector with the given label if it is missing and changes nothing else. Counting and label listing agree with the family, at the engine and on minimal path/cut families.",
 H,"all labelled families of vectors, all histories with gc and cache loss",
 "Tests combine two tiny families on a fresh manager.",
 ["mddcore/src/zmdd.rs","mddcore/src/zmdd_ops.rs","mss/src/zmdd.rs"],["recursive apply under zero suppression","label-wise terminal comparison"])
p("C11","Binary minimal path and cut sets are exact, and refused iff not monotone",
 "For every Boolean structure function in any manager history, minpath returns exactly the minimal sets of components whose being up makes the function true, mincut returns exactly the minimal sets whose being down makes it false, and both return nothing if and only if the function is not monotone. The results are genuine set families usable in set algebra with each other and stay valid while either manager is collected.",
 H,"all structure functions, all manager histories and collections before, between and after the calls",
 "Tests cover about ten fixed functions; the minimality recursion goes wrong only for particular sharing/skipping patterns.",
 ["bss/src/bdd_minsol.rs","bss/src/bdd_dual.rs","bss/src/bss.rs","bss/src/zdd_convert.rs"],["Rauzy minsol with subsumption (without)","dual for cuts","structural conversion to ZDD"])
p("C12","Multi-state minimal path and cut vectors are exact, refused iff not monotone",
 "For every multi-state structure function (value or boolean) in any manager history, minpath files under each label exactly the minimal vectors among those with that performance value and mincut exactly the maximal ones, the per-level reading returns exactly the minimal vectors with performance at least v (for cuts: maximal with at most v), and both calls return nothing if and only if the function is not monotone. Vectors are complete (every declared variable present) and the baseline vector is always included.",
 H,"all structure functions over any mix of state counts, all histories",
 "Tests cover a handful of fixed two- or three-component systems.",
 ["mss/src/mdd_minsol.rs","mss/src/mss.rs","mss/src/zmdd.rs","mss/src/zmdd_convert.rs"],["minsol/maxsol recursion with subsumption","conversion with reversed edges for cuts","dense re-expansion of sparse vectors"])
p("C13","Binary system probability and Birnbaum importance are exact",
 "For every BDD in any history and every assignment of component probabilities, the probability of the selected outcome set equals the sum over all assignments of the product of component probabilities, and the Birnbaum importance reported for each component equals P(outcome | component up) minus P(outcome | component down), with every component the function depends on reported. Queries do not disturb the manager.",
 H,"all functions, probabilities (including 0 and 1), outcome sets and histories",
 "Tests print or compare single numbers for one or two functions.",
 ["bss/src/bdd_prob.rs","bss/src/bdd.rs"],["memoised expectation over the DAG","reverse accumulation in topological order"])
p("C14","Multi-state probability and importance are exact",
 "For every value or boolean MDD in any history, every set of outcome values and every assignment of state probabilities, the probability of the outcome set equals the sum over all state vectors with that outcome of the product of state probabilities, and the importance reported for each variable lists exactly P(outcome | state j) minus P(outcome | state j-1) for each j, with every variable the function depends on reported. Queries do not disturb the manager.",
 H,"all functions, probabilities (including 0), outcome sets and histories",
 "Tests compare single numbers for one or two functions.",
 ["mss/src/mdd_prob.rs","mss/src/mdd.rs"],["memoised expectation over the DAG","reverse accumulation in topological order"])
p("C15","Binary counting and enumeration are exact and agree, even when interleaved",
 "For every BDD or ZDD handle in any history, the count for an outcome set equals the number of assignments of the variables up to the diagram's top variable (for a ZDD: of member sets) with that outcome, the iterator yields each of them exactly once and its length equals the count, and this remains so when iteration is suspended and resumed between arbitrary other operations, collections and drops of the handle it came from. Node-size statistics equal the diagram's distinct non-terminal nodes, terminals and edges.",
 ["histories","schedules","inputs"],"all functions and outcome sets; all interleavings of iterator steps with other operations and collections",
 "Tests exhaust iterators immediately on fresh managers and mostly print the items.",
 ["bss/src/bdd_path.rs","bss/src/bdd_count.rs","bss/src/zdd_path.rs","bss/src/zdd_count.rs"],["explicit-stack iterators that own a pinned handle","count memo per node and level"])
p("C16","Multi-state counting and enumeration are exact and agree, even when interleaved",
 "For every value or boolean MDD handle in any history, the count for a set of outcome values equals the number of state vectors of the variables up to the diagram's top variable with such an outcome, the iterator yields each of them exactly once and its length equals the count; iterating a minimal path/cut family yields each filed vector exactly once and agrees with its count. This remains so when iteration is suspended and resumed between arbitrary other operations, collections and drops.",
 ["histories","schedules","inputs"],"all functions and outcome sets; all interleavings of iterator steps with other operations and collections",
 "Tests exhaust iterators immediately on fresh managers (counts were in fact wrong for boolean diagrams that skip levels and for constants before this work).",
 ["mss/src/mdd_path.rs","mss/src/mdd_count.rs","mss/src/zmdd.rs"],["explicit-stack iterators that own a pinned handle","count memo per node and level"])
p("C17","RPN expressions mean what the node operations mean; bad ones fail cleanly",
 "For every well-formed RPN expression, in any manager history, the binary and the multi-state parser return the same node as performing the corresponding operations one by one, including save/load sharing, literals, constants and on-the-fly variable declaration. An expression that runs out of operands, leaves more or less than one result, loads an unknown name or saves from an empty stack returns an error without panicking, and the manager remains fully usable with all live handles intact.",
 H,"all expressions (well-formed and malformed), all histories",
 "Tests parse a few well-formed strings; operand underflow in fact panicked before this work.",
 ["bss/src/bdd.rs","mss/src/mdd.rs"],["stack machine over unpinned node ids (no gc until the end)","defvar on first use"])
p("C18","An operation cut short by a panic leaves the manager consistent",
 "If an operation or query on a manager unwinds part-way (the user's value or probability arithmetic panics, an invalid request panics, or execution is cut at any memo-table access), then after catching the panic all live handles keep their meaning, all later operations return exact and canonical results, and collection still frees exactly the unreachable nodes.",
 ["crash_points","fault_sequences","histories"],"all operations, all points at which they can be cut, all later histories",
 "No test injects a panic into an operation.",
 ["bddcore/src/bdd_ops.rs","bddcore/src/zdd_ops.rs","mddcore/src/mtmdd_ops.rs","mddcore/src/mtmdd2_ops.rs","mss/src/mdd.rs","bss/src/bdd.rs","mddcore/src/nodes.rs"],
 ["memo entries written only after the result is complete","RefCell borrows released on unwind","roots pinned only for completed results"])
p("C19","DOT output describes exactly the diagram and survives slow or failing writers",
 "For every node of every engine in any history, the DOT text lists exactly the reachable nodes and edges of that node, each once, such that evaluating the graph read back from the text gives the node's function; it is byte-identical when the writer accepts only short writes or reports interruptions. If the writer fails, only that call fails and the manager and all handles are unaffected.",
 ["fault_sequences","histories","inputs"],"all diagrams; all short-write, interruption and error sequences of the writer",
 "Tests print DOT text without looking at it and never use a writer that misbehaves.",
 ["common/src/dot.rs","bddcore/src/bdd_dot.rs","bddcore/src/zdd_dot.rs","mddcore/src/mdd_dot.rs","mddcore/src/mtmdd_dot.rs","mddcore/src/mtmdd2_dot.rs","mddcore/src/zmdd_dot.rs"],
 ["depth-first dump with a visited set","write_all on a caller-supplied writer"])
p("C20","Managers are isolated; variables are stable; handles may outlive managers",
 "Operations on one manager never influence the results, node identities or statistics of another one used in any interleaving with it, and the same operation sequence always produces the same results. Declaring a variable again returns the same variable, declaration order alone fixes the variable order, and reported order, labels, levels, state counts and children of a node always match the diagram. Dropping a manager while handles, clones and iterators to it still exist is safe.",
 ["schedules","histories","configurations"],"all interleavings of operations on several managers and all drop orders",
 "Tests use one manager at a time and drop handles before managers.",
 ["bss/src/bdd.rs","bss/src/zdd.rs","bss/src/bss.rs","mss/src/mdd.rs","mss/src/zmdd.rs","mss/src/mss.rs"],
 ["all state owned by the manager (no globals)","Weak parents in handles","variable table keyed by label"])
p("C21","Large diagrams: same guarantees beyond small sizes",
 "The guarantees on operations, handles and queries do not depend on size: diagrams with many variables, wide state ranges, thousands of nodes, deep sharing, grown caches and many collections evaluate, count, enumerate and combine as exactly as small ones. Structures with a known closed form (k-of-n counts and probabilities, series and parallel systems, sums of many variables) agree with it at every size.",
 ["inputs","histories","configurations"],"all sizes; sampled points and closed forms in place of full truth tables",
 "Tests stop at a few variables except one k-of-n count with n = 20.",
 ["common/src/compute_cache.rs","bddcore/src/bdd.rs","bss/src/bdd_kofn.rs","bss/src/bdd_count.rs","mss/src/mdd_count.rs","mddcore/src/mtmdd_ops.rs"],
 ["cache growth and rehash","collections with many slots","level-skipping counts"])
p("C22","Sharing keeps every operation's work polynomial in diagram sizes",
 "Operations and queries work on the diagram, not on its paths: apply-style operations (boolean, arithmetic, comparison, if-then-else, set algebra), k-of-n construction, minimal paths and cuts, counting, probabilities, importance measures, sizes, DOT output, conversion and garbage collection finish in a number of elementary steps polynomial in the sizes of their operands and result, however many paths these have. This holds with the shipped operation caches, also when a single recursion produces more entries than the cache first has room for. (Product and division of two arbitrary set families are exempt.)",
 ["inputs","histories"],"all diagrams, however large the ratio of paths to nodes; all operations and queries",
 "Tests use diagrams so small that an exponential recursion finishes at once; none measures work, and one that never finished would only be noticed at sizes no test reaches.",
 ["common/src/compute_cache.rs","bddcore/src/bdd_ops.rs","mddcore/src/mdd_ops.rs","mddcore/src/mtmdd_ops.rs","mddcore/src/mtmdd2_ops.rs","mddcore/src/zmdd_ops.rs","bss/src/bdd_kofn.rs","bss/src/bdd_count.rs","bss/src/bdd_prob.rs","bss/src/bdd_minsol.rs","mss/src/mdd_count.rs","mss/src/mdd_prob.rs","mss/src/mdd_minsol.rs","mss/src/zmdd.rs"],
 ["memoisation of every recursion on shared nodes","computed table grows under occupancy and eviction pressure"])
p("C31","Interval-valued importance encloses every point value",
 "With an interval number type, reported probabilities and importances enclose the exact value for every choice of point probabilities inside the input intervals.",
 ["inputs"],"all interval inputs and all point choices","No interval type is in the repository.",["bss/src/bdd_prob.rs","mss/src/mdd_prob.rs"],["generic arithmetic type"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
