"""What each check builds and runs.

A spec: name (binary), src (harness sources), tus (phasar sources that are
instrumented), flags, goals: list of (goal, opts), optional thorough_goals."""
SPECS = {}


def spec(pid, **kw):
    kw.setdefault("name", pid)
    SPECS[pid] = kw


spec("C07", src=["bitvectorset.cpp"], tus=[],
     goals=["member_history", "union_intersect", "relations", "order_transitive", "iteration"],
     bounds="universe of 70 elements (two machine words); sets over 5 candidate elements at the word boundaries, "
            "histories of up to 5 inserts, 1 erase and 1 re-insert",
     outside="larger universes, more than two words, concurrent use of the shared element index")
spec("C03", src=["flowfunctions.cpp"],
     goals=["gen", "gen_many", "gen_many_kill", "kill", "transfer", "union_", "union_blocks", "zeroed", "classes_gen",
            "classes_genall", "classes_kill", "compose_union_classes"],
     bounds="facts are arbitrary 32-bit values (all coincidences between source, generated, killed and zero fact); "
            "generated/killed collections of two facts; compositions of up to three functions",
     outside="other fact types than integers, larger collections")
spec("C04", src=["edgefunctions.cpp"],
     goals=["compose", "compose3", "join", "join3", "equality", "equality_params", "composite_equality", "lifetime2", "cache",
            "binary_domain"],
     thorough_goals=["lifetime3"],
     bounds="edge functions: identity, all-top, all-bottom, constants, an inline and a heap-allocated (also cached) "
            "user function with arbitrary 8-bit parameters, all pairs and triples of non-trivial ones; every lattice "
            "element as argument; histories of 2 (thorough: 3) arbitrary copy/move/swap/assign/reset operations over a heap-allocated, a cached and an empty handle",
     outside="concurrent reference counting; joins of more than two stored functions")
spec("C05", src=["lattice.cpp"],
     goals=["join2", "join3", "hash", "nontopbot", "binary", "virtual_lattice"],
     bounds="all triples over top, bottom and arbitrary 64-bit values; hash over values 0,1",
     outside="value types with their own non-trivial equality")
spec("C08", src=["stablevector.cpp"], goals=["history3", "equality", "index"],
     bounds="starting sizes 0, 1 and each block boundary up to 65 elements, then 3 arbitrary operations "
            "(insert, pop, pop n, clear, shrink, copy, move, swap, bulk insert); sizes up to 140 for subscripts",
     outside="throwing element constructors, custom allocators")
spec("C25", src=["containers.cpp"], tus=["lib/Utils/Utilities.cpp"],
     goals=["table2", "graph", "graph_roots", "iterators", "remove_index_vector", "remove_index_list",
            "powerset", "intersect_set", "intersect_unordered", "string_id_order"],
     thorough_goals=["table3"],
     bounds="tables of 2x3 keys with arbitrary values, histories of 2 (thorough: 3) operations; graphs of 3 nodes and 3 arbitrary edges; "
            "sequences of up to 5 elements with every index subset; sets of 2 and 3 arbitrary elements; ids of up to 2 "
            "characters over letters, digits, '.' and '-'",
     outside="larger tables and graphs, other key types, custom hash functions")
spec("C26", src=["ownership.cpp"], goals=["history3", "history_aligned2", "byte", "boxed", "alias_set_owner"],
     bounds="two handles, histories of 3 operations out of own, own derived, borrow, swap, move, reset, release, assign "
            "empty; alias-set owners with histories of 5 acquire/release operations",
     outside="longer histories, concurrent use")
spec("C27", src=["equivalence.cpp"], goals=["insert2", "insert3", "ranges", "many"],
     bounds="maps of 3 to 12 given classes and a new key with an arbitrary value; up to 3 insertions of arbitrary 32-bit keys and values in every coincidence pattern and insertion style",
     outside="a key inserted with two different values; other key types")
SOLVER_TUS = ["lib/PhasarLLVM/DataFlow/IfdsIde/IFDSIDESolverConfig.cpp", "lib/Utils/Utilities.cpp",
              "lib/PhasarLLVM/Utils/BinaryDomain.cpp"]
SOLVER_NATIVE = ["lib/Utils/DOTGraph.cpp", "lib/Utils/Logger.cpp", "lib/Config/Configuration.cpp"]
spec("C01", src=["ifds.cpp"], tus=SOLVER_TUS, native_tus=SOLVER_NATIVE,
     goals=["loop", "two_calls", "two_calls_facts", "recursion", "mutual", "indirect", "return_sites_summary",
            "call_in_loop", "seeds", "called_entry", "past_seeds"],
     thorough_goals=["recursion_gen", "seeds_gen"],
     bounds="nine program shapes of up to 4 functions and 9 statements (loop, two call sites, direct and mutual recursion, "
            "several callees, several exits and return sites, summary, call in a loop, several seeds, returns past seeds); "
            "zero and 1 or 2 more facts; every exploded-graph edge of the flow functions marked free decided symbolically "
            "(2 to 14 free edges per shape); reference recursion depth 6",
     outside="more facts, larger graphs, several start points per function, exploded graphs in which zero is dropped, seeds inside a callee that callers also enter "
             "with the same fact when returns past seeds are followed")

spec("C02", src=["ide.cpp"], tus=SOLVER_TUS, native_tus=SOLVER_NATIVE,
     goals=["loop", "loop_facts", "two_calls", "two_calls_facts", "recursion", "indirect", "summary", "call_in_loop", "no_identity",
            "two_calls_free", "recursion_free", "mutual", "seeds", "generated"],
     thorough_goals=["two_calls_gen", "recursion_gen"],
     bounds="twelve program shapes of up to 4 functions and 8 statements; values are bit masks of 1 or 2 bits plus a reached bit, join is "
            "union, every edge function is v -> (v & A) | B with arbitrary symbolic A and B on up to 14 exploded edges, seed values "
            "arbitrary; zero and 1 or 2 facts",
     outside="lattices of other shape (infinite ones in particular), edge functions that map top to something else without reaching, seeds in the "
             "middle of a function, values after unbalanced returns")

spec("C28", src=["stepwise.cpp"], tus=SOLVER_TUS, native_tus=SOLVER_NATIVE,
     goals=["steps", "async_cancel", "poll_cancel", "rounds", "timeout", "options"],
     bounds="programs of 5 statements (with and without a loop) and one of 30 statements and 30 facts; up to 3 chunks of 1 to 4 steps; "
            "cancellation at each of the first 12 edge-function queries or polls; clocks advancing by 0, 1 ns, 1 ms or 20 s per reading; "
            "check intervals 0 and 1 ms",
     outside="real concurrency between the solver and the thread that sets the cancellation flag")

spec("C18", src=["tables.cpp"], tus=SOLVER_TUS, native_tus=SOLVER_NATIVE,
     goals=["jump_functions3", "edge_normal", "edge_call", "edge_return", "edge_call_to_return", "edge_summary", "edge_mixed",
            "flow_functions", "llvm_keys", "compressor", "initial_seeds", "binary_seeds", "path_edge"],
     thorough_goals=["jump_functions4"],
     bounds="jump functions over 2 source facts, 2 statements, 2 target facts with arbitrary functions, histories of 3 (thorough: 4) "
            "operations; cache queries of every kind with arbitrary 32-bit statements and facts and 2 functions, histories of 2 or 3 "
            "queries; 3 seeds with arbitrary statements, facts and values",
     outside="statement ids wider than 32 bits that are not LLVM values; the printing functions")

spec("C06", src=["mono.cpp"], tus=["lib/Utils/Utilities.cpp"],
     goals=["intra_line", "intra_diamond", "intra_loop", "intra_nested", "intra_irreducible", "intra_switch", "intra_single",
            "ctx1", "ctx2", "ctx3", "ctx_hash", "inter_call", "inter_chain"],
     bounds="seven single-function graphs of 1 to 5 statements (diamond, loop, nested loops, irreducible, switch) with may and must problems of "
            "2, 3 or 8 bits and an arbitrary gen/kill function per statement; call strings of length 1, 2, 3 over histories of 4 or 5 operations "
            "with arbitrary call sites; two call graphs (call, call chain) with arbitrary transfer functions and k = 2",
     outside="larger graphs, non-distributive transfer functions, recursion and statements after the return site in the call-string solver "
             "(see the known finding), call sites inside hashed contexts beyond two")
LLVM_TUS = SOLVER_TUS + ["lib/PhasarLLVM/" + f for f in (
    "ControlFlow/LLVMBasedICFG.cpp", "ControlFlow/LLVMBasedCFG.cpp", "ControlFlow/LLVMBasedBackwardCFG.cpp",
    "ControlFlow/LLVMBasedBackwardICFG.cpp", "ControlFlow/LLVMBasedCallGraphBuilder.cpp",
    "ControlFlow/GlobalCtorsDtorsModel.cpp", "ControlFlow/EntryFunctionUtils.cpp", "ControlFlow/LLVMVFTableProvider.cpp",
    "ControlFlow/Resolver/CHAResolver.cpp", "ControlFlow/Resolver/DTAResolver.cpp", "ControlFlow/Resolver/NOResolver.cpp",
    "ControlFlow/Resolver/OTFResolver.cpp", "ControlFlow/Resolver/RTAResolver.cpp", "ControlFlow/Resolver/Resolver.cpp",
    "DB/LLVMProjectIRDB.cpp", "Pointer/LLVMAliasInfo.cpp", "Pointer/LLVMAliasSet.cpp",
    "TypeHierarchy/DIBasedTypeHierarchy.cpp", "TypeHierarchy/LLVMTypeHierarchy.cpp", "TypeHierarchy/LLVMVFTable.cpp",
    "DataFlow/IfdsIde/LLVMZeroValue.cpp", "Utils/LLVMShorthands.cpp", "Utils/LLVMCXXShorthands.cpp", "Utils/LLVMIRToSrc.cpp",
    )] + ["lib/ControlFlow/CallGraph.cpp", "lib/ControlFlow/SpecialMemberFunctionType.cpp"]
LLVM_NATIVE = SOLVER_NATIVE + ["lib/PhasarLLVM/" + f for f in (
    "ControlFlow/LLVMBasedICFGExportsImpl.cpp", "Pointer/LLVMAliasGraph.cpp", "Pointer/LLVMAliasSetData.cpp", "Pointer/LLVMBasedAliasAnalysis.cpp", "Pointer/TypeGraphs/CachedTypeGraph.cpp", "Pointer/TypeGraphs/LazyTypeGraph.cpp",
    "TypeHierarchy/DIBasedTypeHierarchyData.cpp", "TypeHierarchy/LLVMTypeHierarchyData.cpp", "TypeHierarchy/LLVMVFTableData.cpp",
    "Utils/Annotation.cpp", "Utils/LLVMSourceManager.cpp", "Utils/SourceMgrPrinter.cpp", "Utils/LLVMPrinter.cpp")] + [
    "lib/ControlFlow/CallGraphData.cpp", "lib/ControlFlow/CallGraphAnalysisType.cpp", "lib/Pointer/AliasAnalysisType.cpp", "lib/Pointer/AliasInfo.cpp",
    "lib/Pointer/AliasResult.cpp", "lib/Pointer/PointsToInfo.cpp", "lib/Utils/IO.cpp", "lib/Utils/NlohmannLogging.cpp", "lib/Utils/Soundness.cpp"]

spec("C13", src=["lca.cpp"], tus=LLVM_TUS + ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"],
     native_tus=LLVM_NATIVE,
     goals=["arith_simple", "arith_shift", "arith_mul", "arith_sdiv", "arith_udiv", "arith_srem", "arith_urem", "chain", "branch", "loop", "calls", "pointers",
            "recursion", "intrinsics", "saturating", "gep", "join_ops"],
     bounds="programs of 1 or 2 functions and up to 20 instructions in 15 families (one operation of every kind, chains, branches, loops, calls, "
            "pointer parameters and globals, recursion, overflow and saturating intrinsics, array elements), all structural choices within a "
            "family, arbitrary 8-, 32- or 64-bit constants (multiplication: 8 bit; divisions: one arbitrary 8-bit operand, boundary values "
            "otherwise), loops and recursion followed for up to 60 instructions and depth 4", outside="memory reached under two names at once, external functions that write through pointers, integers wider than 64 bits, "
             "accesses of another width than the variable")

spec("C10", src=["cfg.cpp"], tus=LLVM_TUS, native_tus=LLVM_NATIVE,
     goals=["two_blocks", "three_blocks", "three_switch", "four_blocks", "invoke", "icfg", "special_members", "plain_names"],
     thorough_goals=["four_blocks_jumps"],
     bounds="every function of 2 to 4 blocks (all blocks reachable) over return, unreachable, resume, jump, conditional branch, switch and invoke "
            "(4 blocks: return and branch; thorough: also jumps), with debug instructions in every place and looked at or ignored; three functions "
            "calling each other through calls and invokes in every way; every mangled name of up to three nested identifiers out of 8 adversarial "
            "ones and 8 kinds of member", outside="unreachable blocks, static local initialisation (its branch is skipped on purpose), indirectbr and "
            "the exception-handling instructions of Windows, names with template arguments")

spec("C09", src=["aliassets.cpp"], tus=LLVM_TUS, native_tus=LLVM_NATIVE,
     goals=["cover2", "cover_select2", "structure", "lazy", "introduced", "merged", "stored", "stored_program"],
     thorough_goals=["cover3"],
     bounds="functions of 2 or 3 arbitrary pointer statements (copies, loads and stores through slots, selects, external calls with any effect, "
            "heap allocation) over 2 locals, 2 arguments, a global and 3 slots that the caller may alias, plus one or two other functions using "
            "the same globals, all three built-in analyses; every first query and four second ones; histories of 3 introduced aliases, or 1 or 2 "
            "on each side of a merge, over 6 pointers of two functions; every set stored and loaded, with function names that contain dots or digits",
     outside="aliasing across functions (the analysis is intra-procedural), constant expressions, noalias attributes and type-based information, "
             "loading of lazily evaluated, incomplete sets (they continue with the default analysis)")

spec("C11", src=["callgraph.cpp"], tus=LLVM_TUS + ["lib/ControlFlow/CallGraphData.cpp"],
     native_tus=[x for x in LLVM_NATIVE if x != "lib/ControlFlow/CallGraphData.cpp"],
     goals=["function_pointers", "through_memory", "class_hierarchy", "virtual_calls", "second_base", "objects", "mixed_tables",
            "entry_points", "loaded", "edges3", "start_and_exit"],
     thorough_goals=["edges4"],
     bounds="every combination of 10 origins and 6 uses of a function pointer; hierarchies of up to 4 classes in every shape with every set of "
            "overriders and pure functions, objects of 2 classes in 6 kinds of memory, calls through 4 paths, two base classes; tables of function "
            "pointers used next to virtual tables; call webs of 5 functions with 6 sets of entry points; all resolution algorithms; stored graphs with "
            "arbitrary 32-bit instruction ids; histories of 3 (thorough: 4) additions; up to 2 constructors, destructors and registered destructors "
            "with every order of priorities", outside="opaque pointers, virtual bases, calls through pointers of another signature, threads")

spec("C12", src=["mapping.cpp"], tus=LLVM_TUS, native_tus=LLVM_NATIVE,
     goals=["to_callee", "to_callee_varargs", "to_caller", "to_caller_varargs", "alongside", "stores", "zero_fact"],
     bounds="every call of a function of 0 to 2 parameters with up to 3 arguments (locals, globals, null, constant expressions, the same value "
            "twice), variadic or not, with and without struct return, declared or defined, left by return (local, parameter, global, nothing) or "
            "by unwinding; every predicate (an arbitrary relation on the values) and option; every fact, twice in a row; every store of 5 values "
            "through 5 pointers", outside="custom fact constructors and container types")

spec("C16", src=["irdb.cpp"], tus=LLVM_TUS + ["lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp"], native_tus=LLVM_NATIVE,
     goals=["ids", "inserted", "reloaded", "two_databases", "enumerations", "order", "order_of_instructions", "must_come_before", "locations", "source_info", "source_info_stored"],
     bounds="every program of 0 to 2 globals and 0 to 3 functions (declared, empty, branching), every 64-bit id and 32-bit index; functions inserted "
            "at either end; every triple of 17 values for the order; every flow graph of 4 blocks for the dominance order; debug information for "
            "parameters, variables, instructions, functions and globals with every subset of it present", outside="inlined locations, several "
            "description records of one variable, files that are read for source text")

import os
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
TAINT_TUS = ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp", "lib/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.cpp",
             "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp", "lib/PhasarLLVM/Utils/Annotation.cpp"]
TAINT_NATIVE = [x for x in LLVM_NATIVE if x not in TAINT_TUS] + ["lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp", "lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp"]
spec("C14", src=["taint.cpp"], tus=LLVM_TUS + TAINT_TUS, native_tus=TAINT_NATIVE,
     goals=["two_statements", "after_taint", "real_aliases", "callbacks", "main_arguments", "structures", "pointers", "library"], flags=["-I" + STUBS],
     bounds="every program of 2 statements, or a source and 2 statements, out of 26 kinds over two locals and a global (sources, sinks and sanitisers by "
            "value and pointer, defined, recursive, external and indirectly called functions), straight, conditional or repeated; both ways of writing "
            "callees; structures, stored pointers and library functions of fixed shapes", outside="exactness where an address is written through an "
            "alias or a global in a callee, exceptions, threads")
spec("C15", src=["taintconfig.cpp"], tus=LLVM_TUS + TAINT_TUS, native_tus=TAINT_NATIVE,
     goals=["functions", "variables", "annotations", "callbacks", "file", "bad_file"], flags=["-I" + STUBS],
     bounds="every description of a function of two parameters and up to 2 variables; annotations of locals, parameters, globals and functions with 5 "
            "texts; every subset of callbacks at every statement of a program", outside="schema validation of files (the validator is not part of this build)")
spec("C17", src=["uninit.cpp"], tus=LLVM_TUS + ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp"],
     native_tus=LLVM_NATIVE + ["lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp"],
     goals=["two_statements"], thorough_goals=["three_statements"],
     bounds="every program of 2 (thorough: 3) statements out of 18 kinds over two locals (constants, copies, arithmetic, undefined values, defined, "
            "external, recursive and indirectly called functions that read, write or may write through a pointer), straight, conditional or repeated; "
            "both ways of writing callees", outside="writes through reloaded pointers (the analysis knows no aliases), structures, globals")

TS="lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/"
TS_TUS = ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp", TS + "CSTDFILEIOTypeStateDescription.cpp", TS + "OpenSSLEVPKDFDescription.cpp", TS + "OpenSSLEVPKDFCTXDescription.cpp", TS + "OpenSSLSecureHeapDescription.cpp",
    TS + "OpenSSLSecureMemoryDescription.cpp", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp"]
spec("C19", src=["typestate.cpp"], tus=LLVM_TUS + TS_TUS,
     native_tus=LLVM_NATIVE + ["lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp"],
     goals=["file", "kdf", "two_files", "two_kdfs", "copied", "file_table", "kdf_table", "memory_table", "kdf_context", "secure_heap", "secure_memory"], thorough_goals=["file_open"],
     bounds="every program of 3 (thorough: 4) statements out of 12 kinds over one file or two files (opened by two functions, closed, used by parameter "
            "position, through defined, recursive, conditional and indirectly called functions), straight, conditional or repeated, one or two handles, "
            "handles of the same object; every program of 4 or 5 statements over key-derivation contexts, the secure heap and secure memory; every "
            "state and function of the 5 protocols", outside="handles in structures, handles that share an object on some paths only, imprecise alias "
            "information with several handles")
