"""Source of properties.jsonl and MANIFEST.json (bin/gen writes them)."""
PROPS = []
NOT_APPLICABLE = []


def P(pid, title, statement, over, quant, why, files, mech, state=None, claim=True, note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a,
                  "_claim": claim, "_note": note})


P("C01", "The data-flow solver reports exactly the facts on call/return-matched paths",
  "For every program graph and every distributive flow problem, the solver terminates and reports a fact at a statement "
  "if and only if the fact is reachable from a seed along a path whose returns match its calls, applying the flow "
  "functions on the way. That covers loops, recursion, indirect calls, several exits and return sites, calls without a body, "
  "user-supplied callee summaries, seeds anywhere, and, when enabled, returns past the seeded function into all its callers.",
  ["inputs", "histories"], "all combinations of flow edges in the exploded graph, for a family of program shapes and seed placements",
  "Tests run fixed analyses on fixed programs and compare with hand-written results; the order in which summaries, "
  "incoming calls and recursion meet is not sampled.",
  ["include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h", "include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h",
   "include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h", "include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h"],
  [("IDE tabulation (both phases)", "include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h"),
   ("jump function table", "include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h"),
   ("flow/edge function cache", "include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h")])

P("C02", "The solver's values are the join over all valid paths",
  "For every value analysis with distributive edge functions, the value the solver reports for a fact at a statement "
  "equals the join, over all call/return-matched paths from the seeds, of the seed value transformed by the edge functions "
  "along the path. It holds for loops, recursion, several calls of one function, indirect calls, callee summaries "
  "and arbitrary seed values, and the row, single-fact, zero-stripped, listing and owned views of the results agree.",
  ["inputs", "histories"], "all edge functions and seed values of the given lattice on a family of program shapes",
  "Tests compare a few fixed constants on fixed programs; the order in which jump functions are refined and joined is not sampled.",
  ["include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h", "include/phasar/DataFlow/IfdsIde/SolverResults.h",
   "include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h", "include/phasar/DataFlow/IfdsIde/InitialSeeds.h"],
  [("IDE tabulation (both phases)", "include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h"),
   ("result views", "include/phasar/DataFlow/IfdsIde/SolverResults.h")])

P("C28", "Interrupting and resuming the solver does not change its results",
  "Solving step by step, in chunks, or cancelled at any point (by flag, predicate or timeout) and resumed in any way ends with "
  "exactly the results of an uninterrupted run; a cancelled run yields no result and an uncancelled one always does. The solver "
  "makes progress between cancellation checks whatever the check interval and machine speed, and options "
  "that only record information do not influence results.",
  ["histories", "schedules"], "all cancellation points, chunk sizes, clock behaviours and ways to resume",
  "Tests cancel at one or two points on one machine; cancellation after the last step and slow or coarse clocks are not sampled.",
  ["include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h", "include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h"],
  [("interruptible solving", "include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h")])

P("C03", "Flow-function combinators compute exactly their documented set functions",
  "For every fact, each ready-made flow function (identity, generate, generate-if, generate-many, kill, kill-if, "
  "kill-many, kill-all, transfer, strong update, lambda, zero-preserving wrapper, union, composition) returns exactly "
  "the set its documentation defines, whichever of the facts involved coincide. The result does not depend on how "
  "often or on which other facts the function was applied before.",
  ["inputs", "histories"], "all facts (source, generated, killed, zero) including every pattern of equal ones, and "
  "repeated application",
  "The unit tests apply each combinator to a few hand-picked distinct facts; the coincidence patterns and reuse are not sampled.",
  ["include/phasar/DataFlow/IfdsIde/FlowFunctions.h"],
  [("flow function templates", "include/phasar/DataFlow/IfdsIde/FlowFunctions.h")])

P("C04", "Edge-function algebra: composition, join, equality, ownership",
  "Composing edge functions yields the function that applies them in order, joining them yields a function that is an "
  "upper bound of both at every value, and two edge functions that compare equal compute the same values (with equal "
  "parameters they do compare equal). Copying, moving, swapping, resetting and caching edge functions never changes "
  "what a live handle computes, never uses freed memory and frees each heap-allocated function exactly once.",
  ["inputs", "histories"], "all parameters and arguments of the built-in and user-defined edge functions, all pairs and "
  "triples of kinds, and bounded histories of handle operations",
  "Tests compose a few fixed constants and count allocations in a few scripted scenarios; parameter coincidences and "
  "other operation orders are never tried.",
  ["include/phasar/DataFlow/IfdsIde/EdgeFunction.h", "include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h",
   "include/phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h",
   "include/phasar/DataFlow/IfdsIde/EdgeFunctions.h"],
  [("type-erased reference-counted handle", "include/phasar/DataFlow/IfdsIde/EdgeFunction.h"),
   ("default compose/join rules", "include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"),
   ("canonicalising cache", "include/phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h")])

P("C05", "Value lattices are lattices",
  "For the lattice-wrapped value domain and the binary domain, join is commutative, associative and idempotent with the "
  "top element neutral and the bottom element absorbing; equality is an equivalence consistent with hashing; and the "
  "ordering, where provided, is a strict order consistent with equality.",
  ["inputs"], "all pairs and triples of elements over arbitrary 64-bit payloads",
  "Tests join a handful of elements; algebraic laws quantify over all triples.",
  ["include/phasar/Domain/LatticeDomain.h", "include/phasar/Domain/BinaryDomain.h", "include/phasar/Utils/JoinLattice.h"],
  [("lattice wrapper and join traits", "include/phasar/Domain/LatticeDomain.h")])

P("C07", "Bit-vector sets behave as mathematical sets",
  "After any history of inserts, erases, unions and intersections, a bit-vector set contains exactly the elements a "
  "mathematical set would, reports the right size and emptiness, and iterates each element once. Inclusion, equality, "
  "ordering and hash agree with the contents alone, however the set was built.",
  ["inputs", "histories"], "all operation histories within the bound, over universes spanning several machine words",
  "Tests use small literal sets; sets whose bit vectors differ in length but not in contents arise only from particular histories.",
  ["include/phasar/Utils/BitVectorSet.h"],
  [("shared element index and bit vector", "include/phasar/Utils/BitVectorSet.h")])

P("C08", "The stable vector keeps its elements in place and in order",
  "After any history of insertions, removals, clearing, shrinking, copying, moving and swapping, a stable vector holds "
  "exactly the elements a plain sequence would, in order and at the same addresses as when they were inserted. Every "
  "element is constructed and destroyed exactly once, and no freed memory is used or lost.",
  ["inputs", "histories"], "all operation histories within the bound from every block-boundary size, and every index",
  "Tests push a few elements and read them back; block boundaries combined with shrinking, clearing or moving are not sampled.",
  ["include/phasar/Utils/StableVector.h"],
  [("block-wise growing sequence", "include/phasar/Utils/StableVector.h")])

P("C25", "Utility containers and algorithms match their mathematical definition",
  "The two-dimensional table behaves as a map from key pairs to values, with row, column, transposition and removal views "
  "agreeing; adjacency-list graphs hold exactly the nodes, edges and roots added and not removed. Index-based removal "
  "keeps exactly the elements whose index was not listed, power sets hold every subset once, set intersection keeps the "
  "common elements, and the id order is a strict weak order that is numeric on numbers.",
  ["inputs", "histories"], "all keys, values, indices and bounded operation histories",
  "Tests use one scripted scenario per container; coincident keys, consecutive indices and empty inputs are not sampled.",
  ["include/phasar/Utils/Table.h", "include/phasar/Utils/AdjacencyList.h", "include/phasar/Utils/Utilities.h",
   "lib/Utils/Utilities.cpp"],
  [("table of nested maps", "include/phasar/Utils/Table.h"), ("graph", "include/phasar/Utils/AdjacencyList.h"),
   ("sequence helpers", "include/phasar/Utils/Utilities.h"), ("string-id order", "lib/Utils/Utilities.cpp")])

P("C26", "Optional ownership frees owned objects once and borrowed ones never",
  "A handle that may or may not own its object destroys an owned object exactly once and a borrowed one never, through any "
  "history of owning, borrowing, moving, swapping, releasing and resetting, and always refers to the object last given to "
  "it. Alias sets handed out by their owner stay valid and distinct until released, and all are freed with the owner.",
  ["histories"], "all bounded histories of ownership operations over two handles, and of acquire/release",
  "Tests script one or two hand-overs; self-assignments and sequences mixing owned and borrowed objects are not sampled.",
  ["include/phasar/Utils/MaybeUniquePtr.h", "include/phasar/Utils/BoxedPointer.h", "include/phasar/Pointer/AliasSetOwner.h"],
  [("tagged owning pointer", "include/phasar/Utils/MaybeUniquePtr.h"),
   ("pooled alias sets", "include/phasar/Pointer/AliasSetOwner.h")])

P("C27", "The equivalence-class map partitions its keys by value",
  "After any sequence of insertions, every inserted key is found and mapped to its value, keys with equal values share one "
  "equivalence class and keys with different values do not, and no other key is found; iteration visits each class once.",
  ["inputs", "histories"], "all keys and values in every coincidence pattern, in every insertion order within the bound",
  "Tests insert a few literal keys; coincidence patterns over ranges and repeated insertion are not enumerated.",
  ["include/phasar/Utils/EquivalenceClassMap.h"],
  [("class list with key sets", "include/phasar/Utils/EquivalenceClassMap.h")])

P("C18", "The solver's tables answer exactly what was stored or constructed",
  "After any history of additions, replacements and removals, the jump-function table gives the same entries from its "
  "forward, reverse and per-target views. The cache answers every flow- and edge-function query with the function the "
  "problem constructs for exactly these arguments, constructs it once, and adds the zero fact exactly when configured. "
  "Seeds keep the last value given for each statement and fact.",
  ["inputs", "histories"], "all ids in every coincidence pattern and bounded histories of operations and queries",
  "Tests run whole analyses, where a wrong cache hit or a dropped jump function only shows for particular id collisions or query orders.",
  ["include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h", "include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h",
   "include/phasar/DataFlow/IfdsIde/InitialSeeds.h", "include/phasar/DataFlow/IfdsIde/Solver/PathEdge.h"],
  [("jump function table", "include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h"),
   ("flow and edge function cache", "include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h"),
   ("seeds", "include/phasar/DataFlow/IfdsIde/InitialSeeds.h")])

P("C06", "The monotone framework computes the fixed point of the flow equations",
  "For every monotone problem, may or must, the intra-procedural solver terminates with the maximal fixed point of the flow "
  "equations at every statement, for any control flow including loops and irreducible graphs. Call strings hold exactly the last "
  "k unreturned call sites. The call-string solver reports facts that valid paths justify, and all of those.",
  ["inputs", "histories"], "all transfer functions and seeds over a family of graph shapes, all bounded histories of calls and returns",
  "Tests run a few fixed analyses and mostly have no assertions on results; which worklist orders lose facts is not sampled.",
  ["include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h", "include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h",
   "include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h"],
  [("intra-procedural worklist", "include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"),
   ("call-string worklist", "include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h"),
   ("call strings", "include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h")])

P("C13", "Constants reported by linear constant analysis hold in every run",
  "Whenever the linear constant analysis reports a constant for a variable or value at a statement, every run that reaches the "
  "statement without undefined behaviour has exactly this value there, for all integer widths, operations, signedness, overflow and "
  "saturation, through branches, loops, calls, recursion, pointer parameters and globals. Values that are reached are never reported as "
  "unreachable, and evident constants are found.",
  ["inputs", "histories"], "all constants in the program, and all programs of the given families",
  "Tests use small positive 32-bit constants; wrap-around, division corner cases, negative unsigned operands and narrow types are not sampled.",
  ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
  [("linear constant analysis", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"),
   ("call and return mapping", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")])

P("C09", "Alias sets form an equivalence that covers every run",
  "Alias sets partition the pointers: every pointer is in its own set, members share the set, alias queries and allocation sites agree with "
  "it, and any two pointers of a function that refer to the same object in some run are in one set. The answer does not depend on lazy or "
  "eager evaluation or on the query order, survives storing and loading, and introducing or merging alias information yields exactly the "
  "finest partition containing both.",
  ["inputs", "histories"], "all small pointer programs, query orders and merge histories within the bounds",
  "Tests compare fixed sets of compiled examples; merges that connect several existing sets, unusual names and query orders are not sampled.",
  ["lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp", "lib/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.cpp", "include/phasar/Pointer/AliasSetOwner.h"],
  [("alias sets", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp"),
   ("ids", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp")])

P("C10", "Control-flow views agree with the program and with each other",
  "For every function, the forward control-flow graph's successors, predecessors, edges, start and exit points, branch targets and call "
  "sites are those of the program, with or without debug instructions; the backward graph is its exact reverse, closed by one artificial "
  "exit per function. The inter-procedural views report the same callers, callees, return sites and nodes in both directions, and special "
  "member functions are recognised by their mangled names only.",
  ["inputs"], "all small control-flow graphs, debug instruction placements, call structures and mangled names within the bounds",
  "Tests look at a few compiled examples; debug instructions at block starts, exceptional exits, the artificial backward exit and odd identifiers are not sampled.",
  ["lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp",
   "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp"],
  [("forward graph", "lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp"),
   ("backward graph", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp"),
   ("backward call graph view", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp")])

P("C11", "The call graph contains every call a run can perform",
  "Every call that a run performs from the entry points is an edge of the call graph, for every resolution algorithm (class hierarchy, "
  "rapid types, declared types, points-to), with function pointers and virtual calls, and program start and exit run constructors, entry points "
  "and destructors in their order. The graph holds exactly what its own edges reach from the entry points, direct calls have their callee only, "
  "virtual calls have overriders only, callers and callees mirror each other, and storing and loading preserves it. The class hierarchy "
  "and virtual tables are those of the program.",
  ["inputs", "histories"], "all small programs of the given families, their inputs, entry points and resolution algorithms",
  "Tests compare a few compiled examples per algorithm; objects in unusual places, tables of function pointers and processing orders are not sampled.",
  ["lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp", "lib/PhasarLLVM/ControlFlow/Resolver", "lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp",
   "lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp", "include/phasar/ControlFlow/CallGraph.h"],
  [("call graph construction", "lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp"),
   ("resolution", "lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp"),
   ("start and exit", "lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp"),
   ("type hierarchy", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp")])

P("C12", "Facts are mapped across calls and stores as documented",
  "For every call, the ready-made mappings of facts into a callee, back to the caller and alongside the call yield exactly the facts their "
  "documentation defines for the given predicates and options, for parameters, repeated and global arguments, variadic and struct-return "
  "calls, declarations, results and unwinding. A store replaces what is known of its target, seen through casts, and the zero fact is distinct "
  "from every program value.",
  ["inputs"], "all predicates, options, facts and calls within the shapes given",
  "Tests use the mappings through whole analyses with default options; constants as arguments, variadic calls, options switched off and arbitrary predicates are not sampled.",
  ["include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h", "lib/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.cpp"],
  [("mappings", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"),
   ("zero fact", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h")])

P("C16", "Program database: ids, lookups, orders and source locations are faithful",
  "Every instruction and global of a loaded program has exactly one id, ids count in program order, lead back to their value also after functions "
  "are added or the program is stored and reloaded, and any other number belongs to nothing. Lookups and enumerations return exactly the "
  "program's items, the value order is a strict weak order, an instruction is said to come first only if it does on every path. Source locations "
  "and names are those of the debug information and survive storing.",
  ["inputs", "histories"], "all programs of the given shapes, all ids and indices",
  "Tests look at a few fixed programs; globals without functions, declarations in between, ids out of range and missing debug information are not sampled.",
  ["lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "include/phasar/PhasarLLVM/DB/LLVMProjectIRDB.h", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp",
   "lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp", "lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp"],
  [("ids and lookups", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"), ("enumerations and order", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"),
   ("source locations", "lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp"), ("dominance order", "lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp")])

P("C14", "Taint analysis reports a leak exactly when tainted data can reach a sink",
  "For every program of the considered forms, a sink call is reported if on some path data of a source reaches it unsanitised, through copies, memory, "
  "globals, structures, library functions, or direct, indirect, recursive and summarised calls. With exact alias information, and without writes "
  "through aliases or to globals in callees, nothing else is reported.",
  ["inputs"], "all programs of two or three statements of 26 kinds in three control-flow shapes",
  "Tests fix the leaks of a few compiled programs; combinations of sanitisers, pointer parameters, indirect calls and loops are not sampled.",
  ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h",
   "lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp"],
  [("flow functions", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"), ("call mapping", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"),
   ("solver", "include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h")])
P("C15", "Taint configuration: sources, sinks and sanitisers are exactly those described",
  "Whether a value is a source, sink or sanitised, its category, the seeds, and what a statement generates, leaks or sanitises follow exactly from the "
  "function and variable descriptions, the annotations in the code, or the registered callbacks; all queries agree with each other. A description read "
  "from a file has exactly the entries of the file, and a malformed one is rejected.",
  ["inputs"], "all descriptions within the bounds, every value and statement of the programs",
  "Tests load a few descriptions; mixtures of structures, functions used as values, annotated globals and bytes are not sampled.",
  ["lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp", "lib/PhasarLLVM/Utils/Annotation.cpp"],
  [("functions and variables", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp"), ("files", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp"),
   ("annotations", "lib/PhasarLLVM/Utils/Annotation.cpp")])

P("C17", "Uninitialised-variable analysis reports exactly the reads that may see none",
  "For every program of the considered forms, a load or use is reported if on some path the variable it reads was never written or was last written with "
  "an undefined or uninitialised value, through copies, arithmetic, parameters, returned values and pointers passed to direct, indirect and recursive "
  "calls. Where callees use their parameters directly, no read of an initialised variable is reported.",
  ["inputs"], "all programs of the given shapes",
  "Tests run a few fixed programs; interactions of two statements across calls, branches and loops are not sampled.",
  ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp"],
  [("flow functions of the analysis", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp")])

P("C19", "Type-state analysis computes the protocol state of every handle",
  "For every program of the considered forms, the state of a handle before a statement is the one its protocol reaches on every path to it, and bottom "
  "if paths disagree, for handles that are created, copied and passed to defined, recursive and indirectly called functions. Exactly the handles in the "
  "error state are reported. The protocols of files, key derivation functions and contexts, secure heap and secure memory have the documented transitions.",
  ["inputs"], "all programs of the given shapes, all states",
  "Tests run a few fixed programs; most transitions, sequences through wrappers, loops and several handles are not sampled.",
  ["include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp",
   "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp"],
  [("flow functions", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp"),
   ("edge functions", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"),
   ("file protocol", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp"),
   ("state of the secure heap", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp")])
