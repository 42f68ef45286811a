def Q(over, text): return {"over": over, "text": text}
IDES = "include/phasar/DataFlow/IfdsIde/Solver/"
DST = "deterministic simulation with fault injection: "
NA = {}
PROPS = [
 dict(id="C01", title="IFDS/IDE results do not depend on processing order or memory layout",
  statement="For every distributive IFDS or IDE problem, solving it returns exactly the facts and values of the IDE semantics (the facts reachable along realizable paths, each with the join over the edge functions of those paths applied to the seed values), in whatever order pending propagations are processed and wherever objects are placed in memory. solve(), step-wise solving and consuming the results report the same table, the accessors of the result object agree with each other, and no edge function outlives the solver and problem that own it.",
  quantifier=Q(["schedules","inputs","programs","configurations"], "every supergraph (recursion, several callees, exits, return sites and start points, declarations, special summaries), every distributive flow/edge function table, seed set and solver configuration, every worklist order and every address-space layout"),
  why_tests_cant="The unit tests run a few dozen small programs in the one order and layout the shipped worklist produces and compare with hand-written expectations; they never vary the order in which path edges, end summaries, incoming call edges and values are processed, although the code is allowed to choose any.",
  anchors=dict(files=[IDES+"IDESolver.h", IDES+"JumpFunctions.h", IDES+"FlowEdgeFunctionCache.h", IDES+"IFDSSolver.h", "include/phasar/DataFlow/IfdsIde/EdgeFunction.h", "include/phasar/DataFlow/IfdsIde/SolverResults.h", "include/phasar/Utils/Table.h"],
   mechanism=[dict(name="path-edge propagation with incoming/end-summary tables", where=IDES+"IDESolver.h"), dict(name="value computation phase", where=IDES+"IDESolver.h computeValues"), dict(name="flow/edge function caches", where=IDES+"FlowEdgeFunctionCache.h"), dict(name="reference-counted edge functions", where="include/phasar/DataFlow/IfdsIde/EdgeFunction.h")],
   observe_at=["solve()", "finalize()", "getSolverResults()", "consumeSolverResults()"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"seeded worklist order and heap layout over generated supergraphs, compared with an independent reference semantics",
  level_note="Real solver, caches, tables and edge-function handles; generated problem tables are stubs. Seeded search, no exhaustiveness. Trusts the 120-line reference semantics in checks/synth.cpp. Value precision with follow-returns-past-seeds is not compared (only fact sets)."),
 dict(id="C02", title="An interrupted and resumed solver run equals the uninterrupted run",
  statement="However an IFDS/IDE solver run is cut into pieces (cancellation predicate, timeout, asynchronous cancellation flag, manual stepping) and resumed with the continue functions, it ends with exactly the result of an uninterrupted run, also when it is interrupted repeatedly or after its last step. A run is reported as cancelled only if cancellation was really requested (a timeout only once it has expired), never yields a result in response to a request it has observed, and after an asynchronous request it performs at most one further step.",
  quantifier=Q(["schedules","histories","fault_sequences","inputs"], "every problem, every sequence of interruptions at any step (before the first, inside a step, after the last) through any of the interruptible entry points, and every resumption"),
  why_tests_cant="One unit test file interrupts a handful of runs by wall-clock timeouts or after a fixed number of steps; which step is hit depends on the machine, and interruption at the boundaries or several times in a row is never exercised.",
  anchors=dict(files=[IDES+"IDESolverAPIMixin.h", IDES+"IDESolver.h"], mechanism=[dict(name="interruptible solving API", where=IDES+"IDESolverAPIMixin.h"), dict(name="doInitialize/doNext/doFinalize", where=IDES+"IDESolver.h")],
   observe_at=["solveUntil", "solveWithTimeout", "solveWithAsyncCancellation", "continueSolving", "continueUntil", "continueWithTimeout", "continueWithAsyncCancellation", "initialize/next/nextN/finalize"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"cancellation injected at seeded steps, inside flow functions and by a simulated clock, then resumed; final table compared with the reference semantics",
  level_note="Real solver and interruption API on a simulated std::chrono clock; generated problems. Seeded search."),
 dict(id="C03", title="Interruptible solving progresses and honours its check interval on any clock",
  statement="With whatever cost the individual steps have and however the clock behaves (coarse, standing still, stalling, slow steps), interruptible solving always performs at least one step between two cancellation checks and therefore terminates when the uninterrupted run does. It keeps checking: the number of steps between two checks stays bounded by what the interval and the observed speed justify, checks follow the requested interval once the speed is stable, an expired timeout is noticed within a few intervals, and after a check has asked for cancellation no further step is performed.",
  quantifier=Q(["schedules","fault_sequences","configurations"], "every sequence of step durations and clock readings, every check interval including zero, every time at which cancellation is requested"),
  why_tests_cant="Tests use the real clock on problems that finish in milliseconds, so the adaptive check interval is hardly ever exercised, and never with slow steps, coarse or stalled clocks.",
  anchors=dict(files=[IDES+"IDESolverAPIMixin.h"], mechanism=[dict(name="adaptive number of iterations between checks", where=IDES+"IDESolverAPIMixin.h continueUntilImpl"), dict(name="timeout predicate", where=IDES+"IDESolverAPIMixin.h solveWithTimeout")],
   observe_at=["calls of the cancellation predicate", "solver steps", "simulated clock"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"simulated clock with seeded step costs, stalls, coarse and frozen time; progress and responsiveness checked at every predicate call",
  level_note="Real solver and interruption API; std::chrono clocks are replaced at link time. The responsiveness bounds are generous (factor 4 to 8) so that other sound adaptation policies pass."),
]
CF = "include/phasar/PhasarLLVM/ControlFlow/"; LCF = "lib/PhasarLLVM/ControlFlow/"
PROPS += [
 dict(id="C06", title="File helpers deliver a file's complete content or report the failure",
  statement="Whatever the operating system does (calls interrupted by signals, short reads and writes, failing open, read, write and close calls, a full disk), the file helpers either transfer the complete content - a read returns exactly the bytes of the file, a write that returns normally leaves exactly the given bytes in it - or report the failure in the way they document (exception, null, error code). Interrupted and partial system calls alone never make an operation fail, a file that is no complete JSON document is never accepted as one, and no file descriptor is leaked.",
  quantifier=Q(["fault_sequences","inputs","histories"], "every file content and size, every sequence of helper calls, every sequence of interrupted, partial and failing system calls"),
  why_tests_cant="The tests read and write small files on a healthy disk; no system call ever fails, is interrupted or transfers fewer bytes than asked for.",
  anchors=dict(files=["include/phasar/Utils/IO.h", "lib/Utils/IO.cpp"], mechanism=[dict(name="readFile*/readTextFile*/writeTextFile/openFileStream/readJsonFile", where="lib/Utils/IO.cpp")], observe_at=["return values, exceptions and error codes", "content of the simulated disk", "open file descriptors"], hook_needed=None),
  technique=DST+"simulated disk behind the system-call boundary with seeded interruptions, short transfers, failures and a full disk; content compared with a model of the files",
  level_note="Real helpers and LLVM streams on a simulated disk. A write error that LLVM's stream destructor turns into a fatal error counts as reported."),
 dict(id="C07", title="Saved analysis information survives crash, restart and reload unchanged",
  statement="Call graphs, alias sets and type hierarchies which were saved completely can be loaded again in another process (other memory layout) and then describe exactly the relation that was saved, for every program including empty ones; saving and loading again changes nothing. A file that a crash or power loss left missing, truncated, torn or partly zeroed is rejected with an error instead of being loaded as smaller information, and entries that refer to values unknown in the program are skipped.",
  quantifier=Q(["crash_points","programs","fault_sequences","configurations"], "every program and analysis configuration, a crash at every system call while saving, every subset of unwritten data lost, every older file underneath"),
  why_tests_cant="The serialization tests save and load a few example programs in one process without a crash and compare a part of the relation.",
  anchors=dict(files=["lib/ControlFlow/CallGraphData.cpp", "include/phasar/ControlFlow/CallGraph.h", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp", "lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"],
   mechanism=[dict(name="stable value ids", where="lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"), dict(name="printAsJson / deserialize", where="include/phasar/ControlFlow/CallGraph.h")], observe_at=["printAsJson", "deserializeJson", "loading constructors", "query interfaces after reload"], hook_needed=None),
  technique=DST+"save on a simulated disk, crash at a seeded system call, lose or tear unwritten blocks, restart in another layout, load and compare with the information before the crash",
  level_note="Real analyses, printers, parsers and loaders; generated programs; simulated disk. Alias-set members which are constant expressions are outside the compared relation (they have no id)."),
 dict(id="C08", title="Alias sets are one equivalence relation, sound and independent of history",
  statement="The alias information is an equivalence relation (reflexive, symmetric, transitive; alias() and getAliasSet() agree) that does not depend on the order of queries, on lazy or eager construction or on the memory layout. Two pointers of a function which hold the same address in some execution are never reported as non-aliasing, reachable allocation sites are aliases, and introducing an alias or merging two alias infos of a program yields exactly the join of the relations.",
  quantifier=Q(["programs","histories","configurations"], "every program, alias-analysis backend, lazy or eager mode, every sequence of queries and introduced aliases, every memory layout"),
  why_tests_cant="Tests query a few pointers of small programs in one order; dependence on the query history or on hash order of pointers cannot show up.",
  anchors=dict(files=["lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp", "lib/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.cpp", "include/phasar/PhasarLLVM/Pointer/AliasSetOwner.h"], mechanism=[dict(name="lazy per-function computation and merging of sets", where="lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp")], observe_at=["alias()", "getAliasSet()", "getReachableAllocationSites()", "introduceAlias()", "mergeWith()"], hook_needed=None),
  technique=DST+"seeded query histories and heap layouts on generated programs; compared with the eager relation, a partition model and simulated executions",
  level_note="Real alias sets and LLVM alias analyses. Soundness is judged per function on pointers of equal type against executions of the generated program."),
 dict(id="C09", title="Call graph and ICFG are complete and independent of processing order",
  statement="Every call made in an execution of the program is an edge of the call graph and every executed step an edge of the (inter-procedural) control-flow graph, for each of the sound resolution algorithms; callees and callers mirror each other, and the vertices are exactly the functions reachable from the entry points over the reported edges. The graph does not depend on the order in which functions are processed or on the memory layout, and the forward and backward control-flow graphs mirror each other (successors, predecessors, start, exit, branch and return points), with and without debug instructions.",
  quantifier=Q(["programs","schedules","configurations"], "every program (indirect calls through slots, arguments, returns and nested tables, virtual calls, recursion, exceptions, variadic functions), every algorithm, entry point list and soundness, every worklist order and layout"),
  why_tests_cant="Each test builds one call graph per example program in the shipped order and compares some edges; neither the order nor the layout varies and no execution is compared.",
  anchors=dict(files=[LCF+"LLVMBasedCallGraphBuilder.cpp", LCF+"LLVMBasedICFG.cpp", LCF+"LLVMBasedCFG.cpp", LCF+"Resolver/OTFResolver.cpp", LCF+"Resolver/CHAResolver.cpp", LCF+"Resolver/RTAResolver.cpp", LCF+"Resolver/DTAResolver.cpp", "include/phasar/ControlFlow/CallGraph.h"],
   mechanism=[dict(name="fix-point over function worklist and unsound call sites", where=LCF+"LLVMBasedCallGraphBuilder.cpp"), dict(name="resolvers", where=LCF+"Resolver")], observe_at=["getCalleesOfCallAt", "getCallersOf", "getSuccsOf/getPredsOf and the other ICFG accessors"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"seeded processing order and heap layout over generated programs, compared with each other and with simulated executions",
  level_note="Real IRDB, resolvers, builder, ICFG. RTA/DTA are documented heuristics; the generator keeps to programs for which their assumptions (objects are allocated where their type is visible) hold."),
]
PROPS += [
 dict(id="C14", title="The modelled runtime runs constructors, entry point and destructors in order",
  statement="When an ICFG is built with globals, its runtime model calls every global constructor function exactly once before the requested entry point, by ascending priority; then exactly the requested entry point (one of them if there are several); and after main every registered destructor (of globals and of local statics) exactly once in the reverse order of their registration, followed by the destructor functions by descending priority. The generated functions, and only those, are recognised as generated, and every instruction of the extended program can be found under its id.",
  quantifier=Q(["programs","configurations","histories"], "every program with static constructors, registered destructors, constructor and destructor functions of any priority, local statics, any list of entry points (with and without parameters, missing ones)"),
  why_tests_cant="The tests look at the order of some calls in a handful of C++ examples, each with a single translation unit and default priorities.",
  anchors=dict(files=[LCF+"GlobalCtorsDtorsModel.cpp", CF+"GlobalCtorsDtorsModel.h", LCF+"LLVMBasedICFG.cpp", LCF+"EntryFunctionUtils.cpp", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"], mechanism=[dict(name="model of the C runtime", where=LCF+"GlobalCtorsDtorsModel.cpp")], observe_at=["execution history of the model function", "isPhasarGenerated", "getInstruction/getInstructionId"], hook_needed=None),
  technique=DST+"generated programs are linked with the model and executed under seeded entry selections; the recorded history of constructor, entry and destructor calls is checked against the rules of the runtime",
  level_note="Real IRDB, ICFG and runtime model; generated programs. Functions of equal priority may run in any order. Local statics are registered in main only."),
]
DF = "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/"; LDF = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/"
CLIENT_TC = "The unit tests compare some results of small example programs, solved in the one shipped order, with hand-written expectations; "
PROPS += [
 dict(id="C10", title="The taint analysis reports every tainted value that reaches a sink",
  statement="Whenever an execution of the program passes a value that stems from a configured source (its return value or the memory it fills through a pointer) to a sink - through variables, pointers to them that are held in variables (one level), globals, parameters, results, loops, recursion, indirect, virtual and variadic calls and exceptional returns - the taint analysis reports a leak of that argument at that call. Every executed statement is reached by the solver. The reported facts and leaks do not depend on the processing order, on interruptions of the solver or on the memory layout.",
  quantifier=Q(["programs","inputs","schedules","configurations"], "every program of the generated fragment (explicit flows through memory, no arithmetic on tainted values), every input of that program, both alias analyses, every worklist order, interruption and layout"),
  why_tests_cant=CLIENT_TC+"none executes the analysed program, so an unsound flow function goes unnoticed unless somebody wrote the example for it.",
  anchors=dict(files=[LDF+"IFDSTaintAnalysis.cpp", DF+"IFDSTaintAnalysis.h", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", IDES+"IFDSSolver.h"],
   mechanism=[dict(name="flow functions of the taint analysis, may-alias population", where=LDF+"IFDSTaintAnalysis.cpp"), dict(name="mapping of facts between caller and callee", where="include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")], observe_at=["IFDSTaintAnalysis::Leaks", "resultsAt"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"generated programs are executed under seeded inputs with dynamic taint and compared with the analysis, which runs in a seeded order, layout and with seeded interruptions",
  level_note="Real IRDB, alias analyses, ICFG, solver and taint analysis. The taint configuration is given by callbacks. Taints only flow explicitly through memory and calls; two levels of pointer indirection and taint through arithmetic are outside the fragment (the analysis does not claim them)."),
 dict(id="C11", title="Constants reported by the linear constant analysis are the computed values",
  statement="Whenever the linear constant analysis reports a constant for a variable, global or intermediate value at a statement, that value is what every execution has there, for the arithmetic of the operand type (width, signedness, overflow), through loops, calls, recursion, by-reference parameters and globals. Every executed statement is reached by the solver and the results do not depend on processing order, interruption or layout.",
  quantifier=Q(["programs","inputs","schedules"], "every program of the generated fragment (integer variables, globals, parameters, references passed to functions, +,-,*,/,%, casts, selects, phis, indirect and virtual calls), every input, worklist order, interruption and layout"),
  why_tests_cant=CLIENT_TC+"none compares the reported constants with an execution or uses values at the limits of their type.",
  anchors=dict(files=[LDF+"IDELinearConstantAnalysis.cpp", DF+"IDELinearConstantAnalysis.h", IDES+"IDESolver.h", "include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"], mechanism=[dict(name="edge functions and their composition and join", where=LDF+"IDELinearConstantAnalysis.cpp")], observe_at=["resultsAt"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"generated programs are executed under seeded inputs and every reported constant is compared at every step; the analysis runs in a seeded order, layout and with seeded interruptions",
  level_note="Real IRDB, ICFG, solver and analysis. Pointers stored in variables and malloc'ed integers are outside the fragment (the analysis uses no alias information). Values that stem from functions without a body are a recorded finding (KNOWN_FINDINGS.txt), because an existing test encodes that behaviour."),
 dict(id="C12", title="The uninitialised-variables analysis reports every use of undefined values",
  statement="Whenever an execution loads an uninitialised variable or computes or branches with a value derived from one, the uninitialised-variables analysis reports that use, also if the value passes through other variables, arithmetic, parameters, results or references passed to functions. Facts and reported uses do not depend on processing order, interruption or layout, and every executed statement is reached.",
  quantifier=Q(["programs","inputs","schedules"], "every program of the generated fragment (integer variables, parameters, references passed to functions, arithmetic, loops, recursion, indirect and virtual calls), every input, worklist order, interruption and layout"),
  why_tests_cant=CLIENT_TC+"no test observes an execution that uses an uninitialised value.",
  anchors=dict(files=[LDF+"IFDSUninitializedVariables.cpp", DF+"IFDSUninitializedVariables.h", IDES+"IFDSSolver.h"], mechanism=[dict(name="flow functions and collection of undefined uses", where=LDF+"IFDSUninitializedVariables.cpp")], observe_at=["getAllUndefUses", "resultsAt"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"generated programs are executed under seeded inputs with definedness tracking and compared with the analysis, which runs in a seeded order, layout and with seeded interruptions",
  level_note="Real IRDB, ICFG, solver and analysis. Globals, structures and pointers stored in variables are outside the fragment. Memory from malloc and arguments of variadic functions are outside, too. Uses as call arguments, stored values and returned values are not reported by design and not demanded."),
 dict(id="C13", title="The typestate analysis tracks the state of every resource along every execution",
  statement="With exact alias information, the state the typestate analysis reports for a file variable at a statement (if it reports a single one) is the state the file has in every execution there, errors included, and it never loses track of an executed variable: through loops, recursion, reopening and files passed to functions. With the shipped alias analyses as well, results do not depend on the processing order, on interruptions or on the memory layout.",
  quantifier=Q(["programs","inputs","schedules","configurations"], "every program of the generated fragment (opening, closing and reading of files held in variables and passed to functions), every input, worklist order, interruption and layout"),
  why_tests_cant=CLIENT_TC+"no test follows the state of a file through an execution.",
  anchors=dict(files=[DF+"IDETypeStateAnalysis.h", LDF+"IDETypeStateAnalysis.cpp", LDF+"TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp"], mechanism=[dict(name="typestate edge functions", where=DF+"IDETypeStateAnalysis.h"), dict(name="state machine", where=LDF+"TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp")], observe_at=["resultsAt"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"generated programs are executed under seeded inputs with a dynamic state machine and compared with the analysis, which runs in a seeded order, layout and with seeded interruptions",
  level_note="Real IRDB, ICFG, solver, analysis and state machine; exact alias information is a stub behind the real interface in three of four runs (the analysis applies may-aliases as if they were must-aliases by design)."),
]
PROPS += [
 dict(id="C04", title="Edge functions live, unchanged, exactly as long as a handle holds them",
  statement="An edge function held by any handle stays alive and denotes the same function whatever happens to other handles - copying, moving, swapping, assigning, comparing, composing, joining, storing in containers, in any order, from several threads that share a handle or pass handles to each other, and when an allocation fails - and is destroyed exactly once, by whichever thread drops the last handle, without a data race. Composition denotes the composed function, a join lies above both operands, equality implies equal functions. A cached edge function exists at most once per cache and is forgotten by it with its last handle; an operation that runs out of memory leaves its operands as they were and leaks nothing.",
  quantifier=Q(["schedules","histories","fault_sequences","configurations"], "every history of handle operations on heap-allocated, cached and small-object edge functions, every interleaving of the threads holding them, every reordering the memory model allows, every allocation that may fail"),
  why_tests_cant="The tests copy and compose a few handles in one thread; the reference count is never touched by two threads, no allocation fails, and no test counts destructions.",
  anchors=dict(files=["include/phasar/DataFlow/IfdsIde/EdgeFunction.h", "include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h", "include/phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h", "include/phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"],
   mechanism=[dict(name="atomic reference count and allocation policies of the type-erased handle", where="include/phasar/DataFlow/IfdsIde/EdgeFunction.h"), dict(name="singleton cache", where="include/phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"), dict(name="composition and join", where="include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h")], observe_at=["values of the handles", "constructors and destructors of the edge functions", "accesses to memory and atomics"], hook_needed=None),
  technique=DST+"simulated threads (seeded preemption at every memory access and atomic) with vector-clock happens-before, use-after-free and leak detection and seeded allocation failures; handles compared with a model",
  level_note="Real handles, cache and edge-function utilities, instrumented by the compiler, below a simulated scheduler; the concrete edge functions are stubs with liveness canaries. Caches are documented as not thread-safe and stay within one thread. Sequentially consistent interleavings plus happens-before race detection (a weakened memory order shows as a race)."),
 dict(id="C05", title="Independent program databases can be used from different threads",
  statement="Threads which create, print, extend, analyse and destroy their own program databases (IRDBs with their own modules and contexts) do not disturb each other under any interleaving: every value is printed as its own IR with its own id, ids lead back to their values, call graphs are the ones built by a single thread, all threads see the same zero value, and nothing of the shared infrastructure (the slot trackers used for printing, one-time initialisation) is used unsynchronised, after it has been released, or deadlocks.",
  quantifier=Q(["schedules","histories","programs"], "every number of threads, every history of creating, printing, model building, call-graph construction and destruction, every interleaving, modules that are created at addresses where others were freed"),
  why_tests_cant="All tests are single-threaded and most keep one IRDB alive for the whole test, so the global registry of slot trackers and its lock are never contended and never see an address reused.",
  anchors=dict(files=["lib/PhasarLLVM/Utils/LLVMShorthands.cpp", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "lib/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.cpp", LCF+"GlobalCtorsDtorsModel.cpp"], mechanism=[dict(name="ModulesToSlotTracker: global registry of slot trackers per module, guarded by a mutex", where="lib/PhasarLLVM/Utils/LLVMShorthands.cpp"), dict(name="(de)registration of modules", where="lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"), dict(name="lazily created zero value", where="lib/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.cpp")], observe_at=["llvmIRToString & co", "getMetaDataID/fromMetaDataId", "LLVMBasedICFG", "accesses to memory, locks and atomics"], hook_needed=None),
  technique=DST+"simulated threads (seeded preemption at memory accesses, locks and allocations) with vector-clock race, use-after-free and deadlock detection; output compared with a single-threaded reference",
  level_note="Real IRDB, printers, model, ICFG, compiler-instrumented; libLLVM is not instrumented and is preempted only at its allocations and locks. Each IRDB is used by one thread at a time."),
]
PROPS += [
 dict(id="C15", title="Measurements report true elapsed time and complete data on any clock and disk",
  statement="Whatever happens to the wall clock (set back, set forward, slewed), a PAMM timer - running, stopped or repeating - and a Timer report exactly the time that elapsed between start and end (PAMM in whole milliseconds), with the callback of a Timer called once; counters, sums and histograms are the exact totals of what was added; the printed data contains every measurement. An export that returns normally leaves one complete JSON document with exactly the measured data at the requested path, otherwise the failure is reported.",
  quantifier=Q(["clock_behaviours","histories","fault_sequences","inputs"], "every sequence of timer, counter, histogram, print and export operations used as documented, every adjustment of the wall clock in between, every durations, every failing, interrupted or partial system call while exporting"),
  why_tests_cant="The tests sleep a few hundred milliseconds on the real clock, which nobody sets meanwhile, and never look at the exported file or let its disk fail.",
  anchors=dict(files=["include/phasar/Utils/PAMM.h", "lib/Utils/PAMM.cpp", "include/phasar/Utils/Timer.h", "include/phasar/Utils/ChronoUtils.h", "lib/Utils/ChronoUtils.cpp"], mechanism=[dict(name="start/stop/pause/reset of timers", where="lib/Utils/PAMM.cpp"), dict(name="export as JSON", where="lib/Utils/PAMM.cpp exportMeasuredData")], observe_at=["elapsedTime, elapsedTimeOfRepeatingTimer, getCounter, getSumCount", "printMeasuredData", "content of the simulated disk"], hook_needed=None),
  technique=DST+"seeded histories on simulated clocks whose wall time jumps, export to a faulty simulated disk; compared with a model of the measurements",
  level_note="Real PAMM, Timer and JSON export; std::chrono clocks are replaced at link time, system calls by the simulated disk. A timer that repeats is only paused, never stopped (a stopped and repeating timer share one key of the exported document)."),
 dict(id="C16", title="The intra-procedural monotone solver computes the maximal fixed point",
  statement="For every monotone problem over a finite domain (may or must, distributive or not, forward or backward), the intra-procedural monotone solver ends and reports after every instruction of the entry functions exactly the maximal-fixed-point solution over the control-flow graph, in whatever order its worklist is processed and wherever the program lies in memory; entry points without definition are ignored.",
  quantifier=Q(["schedules","inputs","programs","configurations"], "every control-flow graph, monotone transfer function per instruction, merge (union or intersection), direction, set of entry points, worklist order and layout"),
  why_tests_cant="The tests solve a few example functions forward in the shipped order and mostly only print the result.",
  anchors=dict(files=["include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h", "include/phasar/DataFlow/Mono/IntraMonoProblem.h", LCF+"LLVMBasedCFG.cpp", LCF+"LLVMBasedBackwardCFG.cpp"], mechanism=[dict(name="worklist iteration with merging at branch targets", where="include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h solve")], observe_at=["getResultsAt"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"seeded worklist order and heap layout over generated programs and transfer functions, compared with an independent round-robin fixed-point computation",
  level_note="Real solver, CFGs and IRDB; transfer functions are generated tables. The inter-procedural monotone solver is not claimed (see DESIGN.md)."),
 dict(id="C17", title="Path tracing reports exactly the feasible paths to a queried fact",
  statement="For a loop-free program and a distributive analysis solved by the path-aware solver, the paths reported to a statement are exactly the interprocedural paths from the entry point whose calls and returns match and whose branch conditions do not contradict each other; for a data-flow fact, the reported paths are paths on which the fact arises, and every execution that carries the fact there is covered. The answer does not depend on the processing order, on interruptions of the solver or on the memory layout, and respects the requested depth and number of paths.",
  quantifier=Q(["schedules","inputs","programs","configurations"], "every loop-free program with matching call order, flow-function tables, query, minimisation/depth/number thresholds, worklist order, interruption and layout"),
  why_tests_cant="The tests compare a few dozen example queries with recorded paths; they use named variables, no truncated conditions and no queries at return statements.",
  anchors=dict(files=["include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h", "include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h", "include/phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h", "lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp", "lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp"], mechanism=[dict(name="recording of the exploded supergraph while solving", where="include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h saveEdges"), dict(name="filtering of unmatched returns and unsatisfiable conditions", where="lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp filterAndFlattenRevDag")], observe_at=["Z3BasedPathSensitivityManager::pathsTo", "resultsAt"], hook_needed="worklist pick (PHASAR_SIM_HOOKS)"),
  technique=DST+"seeded worklist order, solver interruption and heap layout over generated programs; reported paths compared with an enumeration of all program paths and brute-force satisfiability of their conditions",
  level_note="Real solver, supergraph, path manager and Z3. Fact paths are exact up to the documented merging of identity edges within a basic block; two recorded findings."),
]
HOOK_COMMITS = ["ec6418d3371795dd0f5bd01862359b4da5dc5edb", "fb6b0ba1d361af6e50398a93a1aa7882a434d62f"]
