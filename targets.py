SIM = ["sim/core.cpp", "sim/arena.cpp", "sim/clock.cpp"]
BASE = ["lib/Utils/Logger.cpp", "lib/Utils/DOTGraph.cpp", "lib/Utils/Utilities.cpp", "lib/Config/Configuration.cpp", "lib/Utils/IO.cpp"]
TARGETS = {
    "ide_synth": {
        "props": ["C01", "C02", "C03"],
        "checks": ["checks/ide_synth.cpp", "checks/synth.cpp"],
        "sim": SIM,
        "repo": BASE + ["lib/PhasarLLVM/DataFlow/IfdsIde/IFDSIDESolverConfig.cpp", "lib/PhasarLLVM/Utils/BinaryDomain.cpp"],
    },
}
LLVM_CG = BASE + ["lib/PhasarLLVM/ControlFlow/" + f + ".cpp" for f in "EntryFunctionUtils GlobalCtorsDtorsModel LLVMBasedBackwardCFG LLVMBasedBackwardICFG LLVMBasedCFG LLVMBasedCallGraphBuilder LLVMBasedICFG LLVMVFTableProvider Resolver/CHAResolver Resolver/DTAResolver Resolver/NOResolver Resolver/OTFResolver Resolver/RTAResolver Resolver/Resolver".split()] + \
  ["lib/PhasarLLVM/Pointer/" + f + ".cpp" for f in "LLVMAliasInfo LLVMAliasSet LLVMAliasSetData LLVMBasedAliasAnalysis external/llvm/CFLAndersAliasAnalysis external/llvm/CFLSteensAliasAnalysis".split()] + \
  ["lib/PhasarLLVM/TypeHierarchy/" + f + ".cpp" for f in "LLVMTypeHierarchy LLVMTypeHierarchyData LLVMVFTable LLVMVFTableData".split()] + \
  ["lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp", "lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp", "lib/ControlFlow/CallGraph.cpp", "lib/ControlFlow/CallGraphData.cpp", "lib/ControlFlow/CallGraphAnalysisType.cpp", "lib/Pointer/AliasAnalysisType.cpp", "lib/Pointer/AliasResult.cpp", "lib/Utils/PAMM.cpp", "lib/Utils/ChronoUtils.cpp", "lib/Utils/NlohmannLogging.cpp", "lib/PhasarLLVM/Pointer/TypeGraphs/CachedTypeGraph.cpp", "lib/PhasarLLVM/Pointer/TypeGraphs/LazyTypeGraph.cpp"]
TARGETS["llvm_cg"] = {"props": ["C08", "C09", "C14"], "checks": ["checks/llvm_cg.cpp", "checks/irgen.cpp", "checks/llvmutil.cpp"], "sim": SIM, "repo": LLVM_CG}
TARGETS["llvm_persist"] = {"props": ["C06", "C07"], "checks": ["checks/llvm_persist.cpp", "checks/irgen.cpp", "checks/llvmutil.cpp"], "sim": SIM + ["sim/disk.cpp"], "repo": LLVM_CG}
LLVM_DF = LLVM_CG + ["lib/PhasarLLVM/DataFlow/IfdsIde/" + f + ".cpp" for f in "IFDSIDESolverConfig LLVMFunctionDataFlowFacts LLVMZeroValue LibCSummary Problems/IFDSTaintAnalysis Problems/IDELinearConstantAnalysis Problems/IFDSUninitializedVariables Problems/IDETypeStateAnalysis Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription".split()] + \
  ["lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp", "lib/PhasarLLVM/Utils/Annotation.cpp", "lib/PhasarLLVM/Utils/BinaryDomain.cpp", "lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp", "lib/PhasarLLVM/Utils/LLVMPrinter.cpp"]
TARGETS["llvm_clients"] = {"props": ["C10", "C11", "C12", "C13"], "checks": ["checks/llvm_clients.cpp", "checks/irgen.cpp", "checks/llvmutil.cpp"], "sim": SIM, "repo": LLVM_DF}
TSAN = ["-O1", "-fsanitize=thread"]
TARGETS["edgefn"] = {"props": ["C04"], "checks": ["checks/edgefn.cpp"], "sim": SIM + ["sim/threads.cpp"], "repo": [], "repo_flags": TSAN, "check_flags": TSAN}
TARGETS["llvm_threads"] = {"props": ["C05"], "checks": ["checks/llvm_threads.cpp", "checks/irgen.cpp"], "sim": SIM + ["sim/threads.cpp"], "repo": LLVM_CG + ["lib/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.cpp"], "repo_flags": TSAN, "check_flags": TSAN}
TARGETS["perf"] = {"props": ["C15"], "checks": ["checks/perf.cpp"], "sim": SIM + ["sim/disk.cpp"], "repo": BASE + ["lib/Utils/PAMM.cpp", "lib/Utils/ChronoUtils.cpp", "lib/Utils/NlohmannLogging.cpp"]}
TARGETS["mono"] = {"props": ["C16"], "checks": ["checks/mono.cpp", "checks/irgen.cpp", "checks/llvmutil.cpp"], "sim": SIM, "repo": LLVM_CG + ["lib/PhasarLLVM/Utils/LLVMPrinter.cpp"]}
TARGETS["paths"] = {"props": ["C17"], "checks": ["checks/paths.cpp", "checks/irgen.cpp", "checks/llvmutil.cpp"], "sim": SIM + ["sim/disk.cpp"], "libs": ["-lz3"], "repo": LLVM_CG + ["lib/PhasarLLVM/DataFlow/IfdsIde/" + f + ".cpp" for f in "IFDSIDESolverConfig LLVMFunctionDataFlowFacts LLVMZeroValue".split()] + ["lib/PhasarLLVM/DataFlow/PathSensitivity/" + f + ".cpp" for f in "LLVMPathConstraints PathSensitivityManagerBase Z3BasedPathSensitivityManager".split()] + ["lib/PhasarLLVM/Utils/BinaryDomain.cpp", "lib/PhasarLLVM/Utils/LLVMPrinter.cpp", "lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp"]}
