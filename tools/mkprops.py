"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A failed or absent intermediate result is never used as a value",
  "Whenever a step of the compiler, of one of its code generators or of its utilities can yield 'failed' or 'nothing' instead of a value, the code that consumes the value has established on that very path that it is there. For every input program and parameter set the outcome of a missing value is an error report or an alternative path, never a crash or a read of garbage.",
  ["inputs", "programs"], "all inputs for which some sub-step fails or yields nothing, and all paths from that sub-step to a use of its value",
  "Tests feed programs on which the sub-steps succeed; the failing branch of each consumer is reached by one specific malformed or unsupported input per site.",
  ["lib/Utils/TargetUtils.cpp", "lib/Target/TfheRust/TfheRustEmitter.cpp", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp", "lib/Utils/Polynomial/Polynomial.h", "lib/Utils/Polynomial/NTT.cpp", "lib/Utils/Layout/IslConversion.cpp"],
  [("failure-or-value results and optionals", "every consumer of a FailureOr/optional in lib/"), ("type conversion in the emitters", "convertType / emitType of each emitter")],
  ["emitted diagnostics", "exit status of the tools"])

p("C02", "A failing step makes the operation that contains it fail",
  "If printing, verifying, parsing, converting or rewriting a part of the program fails, the enclosing operation reports failure too: no result that signals failure is dropped, and no path on which a sub-step is known to have failed ends in a report of success. A code generator never exits successfully after an operation inside a function it emits could not be translated (a whole function that the generator's documented pre-check declares unsupported, with a warning, may be left out).",
  ["inputs", "programs"], "all input programs containing a construct that some step rejects, wherever it is nested",
  "The test-suite checks accepted programs and a few rejected ones; that every nesting position of every rejected construct fails the whole run quantifies over all programs.",
  ["lib/Target/TfheRust/TfheRustEmitter.cpp", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp", "lib/Target/OpenFhePke/OpenFhePkeHeaderEmitter.cpp", "lib/Target/Metadata/MetadataEmitter.cpp", "lib/Dialect/Preprocessing/Transforms/ValidatePreprocessing.cpp", "lib/Dialect/Debug/Transforms/ValidateNames.cpp"],
  [("translate", "entry points of the emitters"), ("runOnOperation", "passes: signalPassFailure")],
  ["return status of translate/verify/pass", "diagnostics"])

p("C03", "Integer-set objects are released exactly once and never used after release",
  "Conversions between layout relations and the integer-set library give back every object, context and string they create or are given, exactly once, and never touch one they have already given away, on every path including the early error exits.",
  ["inputs", "programs"], "all relations and set strings (parsable or not), all exit paths of the conversion and evaluation helpers",
  "Tests check results of successful conversions; leaks and double releases are silent, and the error exits need malformed strings or unsupported shapes.",
  ["lib/Utils/Layout/IslConversion.cpp", "lib/Utils/Layout/Convolution.cpp", "lib/Utils/Layout/Evaluate.cpp", "lib/Utils/Layout/Hoisting.cpp"],
  [("isl ownership annotations", "take/give/keep on the library's headers"), ("conversion helpers", "lib/Utils/Layout/IslConversion.cpp")],
  ["memory errors under a sanitizer", "reference counts of the context"])

p("C04", "Every walk over a kernel's expression graph visits every operand of every node",
  "Evaluation, rotation counting, rotation collection, printing, depth computation and cache clearing over a kernel's arithmetic graph process each child of each kind of node (binary operands, rotated value and dynamic rotation amount, inserted value and destination, loop bounds and bodies, conditions). A graph node built by the public constructors carries all the operands and attributes it was given, in the order given. Deliberate exceptions: rotation amounts and indices are plaintext index arithmetic for rotation counting and depth; an evaluator processes the branch taken of a conditional and a loop body once per iteration; the printer abbreviates loops and extracted operands.",
  ["programs"], "all arithmetic graphs, i.e. all nestings of the node kinds, and all consumers of graphs",
  "Kernel tests build a handful of graphs; an operand skipped for one node kind shows only if that operand's subtree has an effect that the test observes.",
  ["lib/Kernel/ArithmeticDag.h", "lib/Kernel/RotationCountVisitor.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", "lib/Kernel/TestingUtils.cpp", "lib/Kernel/EvalVisitor.cpp", "lib/Kernel/IRMaterializingVisitor.cpp"],
  [("CachingVisitor and its subclasses", "operator() overloads"), ("node factories", "ArithmeticDagNode static constructors"), ("subtree cache clearing", "CachingVisitor")],
  ["results of the visitors"])

p("C05", "Every rotation a kernel performs is accounted for, with its normalised amount",
  "The set of rotation amounts reported for a kernel (from which rotation keys are generated) contains, for each rotation the kernel performs with a known amount, that amount reduced into the range from zero to the vector length; the rotation count counts every rotation of ciphertext data once, shares identical ones and does not count rotations of plaintext data. Secrecy of an intermediate value is the disjunction of the secrecy of all its inputs.",
  ["programs", "inputs"], "all kernels (graphs), rotation amounts of either sign and any magnitude, and all secrecy patterns of the inputs",
  "A missing key shows up at run time of the generated program only for the amount concerned; tests use a few graphs with small positive amounts.",
  ["lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", "lib/Kernel/RotationCountVisitor.cpp", "lib/Kernel/RotationCountVisitor.h", "lib/Utils/RotationUtils.h"],
  [("rotation collection", "RotationEvalVisitor"), ("rotation counting", "RotationCountVisitor"), ("amount normalisation", "normalizeRotation")],
  ["evaluated shifts", "rotation count"])

p("C06", "Names and the things they name correspond one to one, in both directions",
  "For kernels, comparison predicates, backends and scheme markers, the textual form printed for a value is accepted by the matching parser and denotes that same value; distinct values have distinct texts, every value has a text, and unknown texts are rejected rather than mapped to a default.",
  ["configurations", "inputs"], "all enumerators and all strings",
  "Tests use a few names; a missing or swapped entry for another one goes unnoticed until a program uses it.",
  ["lib/Kernel/KernelName.h", "lib/Kernel/Kernel.cpp", "lib/Target/CompilationTarget/CompilationTarget.cpp", "lib/Kernel/TestingUtils.cpp", "lib/Kernel/EvalVisitor.cpp", "lib/Transforms/AnnotateModule/AnnotateModule.cpp"],
  [("name tables", "Kernel.cpp, KernelName.h"), ("target names", "CompilationTarget.cpp")],
  ["printed attributes", "parse results"])

p("C07", "Graph adjacency views stay consistent and derived answers stay current",
  "After any sequence of vertex and edge insertions and edge contractions on a Graph or UndirectedGraph, an edge is listed among the successors of its source exactly when it is listed among the predecessors of its target (an undirected edge at both ends), edges only join present vertices, contracting an edge removes its target and moves the target's other edges to the source in their direction and without a self-edge, and getEdges, edgesOutOf, edgesInto, hasEdge, getSources, getSinks and the degree queries answer from the current edges in the direction they are named after rather than from an earlier state.",
  ["histories"], "all sequences of graph mutations and queries",
  "Graph tests build a graph once and query it; interleavings of mutation and query and self-loops are not covered.",
  ["lib/Utils/Graph/Graph.h"], [("vertex and edge maps", "Graph<V> mutators")], ["results of the graph queries"],
  state=[("in/out edge maps", "mirrored adjacency", "lib/Utils/Graph/Graph.h")])

p("C08", "Noise estimation never wraps, truncates or ignores an input",
  "The noise models compute each bound in arithmetic wide enough for every admissible ring dimension, plaintext modulus and parameter set (no integer product or narrowing on the way to the floating-point result), and the estimate for an operation depends on the noise of each of its inputs and never decreases when one of them, the ring dimension or the plaintext modulus grows.",
  ["inputs", "configurations"], "all ring dimensions, plaintext moduli up to 64 bits, key distributions and input noise values",
  "No test runs a noise model with a large plaintext modulus, where 64-bit products wrap; monotonicity and dependence quantify over all real inputs.",
  ["lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp", "lib/Analysis/NoiseAnalysis/Noise.h", "lib/Analysis/NoiseAnalysis/Noise.cpp"],
  [("model formulas", "eval* methods of the six models"), ("noise state operations", "Noise.h")], ["bound reported for each value"])

p("C09", "Parameter selection never picks an insecure or an undersized ring",
  "For every total modulus size and minimum ring dimension requested, the chosen ring dimension is a tabulated power of two whose 128-bit-security modulus limit (the Homomorphic Encryption Standard's) is at least the requested size and which is at least the requested minimum; it is the smallest such one, and a size beyond the table never yields one of the tabulated dimensions. The parameter set built from a choice, or rebuilt from the parameter attribute of a module, carries every quantity under its own name, and the slot count requested as minimum is doubled into a ring dimension.",
  ["inputs", "configurations"], "all modulus sizes (including the exact table boundaries) and all minimum ring dimensions",
  "Selection is tested through a few programs; the boundary of each table row and the table's contents are a for-all statement.",
  ["lib/Parameters/RLWESecurityParams.cpp", "lib/Parameters/RLWESecurityParams.h", "lib/Parameters/BGV/Params.cpp"],
  [("security tables and selection", "RLWESecurityParams.cpp")], ["ring dimension of the generated parameters"])

p("C10", "Modular arithmetic on big integers is exact",
  "Products, sums, powers, inverses and transforms modulo q are carried out in a width that cannot overflow for any operands of the modulus's width before they are reduced, and every value handed back lies in the range from zero to q minus one in the width of the modulus. Integer factorisation and root search terminate with correct answers for every 64-bit argument.",
  ["inputs"], "all operand values and moduli of any bit width",
  "Tests use small moduli whose products fit; the wrap appears only for operands near the top of the width.",
  ["lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/Polynomial/NTT.cpp"],
  [("modular helpers", "APIntUtils.cpp"), ("number-theoretic transform", "NTT.cpp"), ("factorisation", "MathUtils.cpp")], ["returned values"])

p("C11", "Generated Rust code contains every operand and attribute of each operation, in order",
  "For every operation one of the three Rust generators (tfhe-rs, tfhe-rs boolean, tfhe-rs high level) translates, the text it emits uses each operand of the operation in its role (left before right for subtraction, shifts and comparisons, every index of a memory access, every bound and the step of a loop, every argument of a call) and the construct of the target language that denotes that operation; an attribute or operand the target cannot express makes the translation fail instead of being ignored.",
  ["programs"], "all operations the generators accept, with all operand and attribute combinations",
  "Generator tests compare the output for sample operations with default attributes; an ignored operand or attribute shows only for programs that set it.",
  ["lib/Target/TfheRust/TfheRustEmitter.cpp", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp", "lib/Utils/TargetUtils.cpp"],
  [("printOperation overloads", "each emitter")], ["emitted source text"])

p("C12", "What a Rust code generator announces as translatable, it translates or rejects",
  "In each of the three Rust generators (tfhe-rs, tfhe-rs boolean, tfhe-rs high level), every operation kind with a translation routine is reachable from the generator's dispatch, every kind its pre-check admits is either dispatched to a routine or rejected with an error, and an operation kind the dispatch does not know always fails the translation, and a function that contains an operation kind no generator knows is skipped by the pre-check.",
  ["programs"], "all operation kinds and all three Rust generators",
  "Tests exercise the kinds that appear in sample programs only.",
  ["lib/Target/TfheRust/TfheRustEmitter.cpp", "lib/Target/TfheRust/Utils.cpp", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp"],
  [("dispatch", "translate of each emitter"), ("pre-check", "canEmitFuncForTfheRust")], ["translation status"])

p("C13", "Target settings and overrides take effect completely and in isolation",
  "Every setting of a compilation target that can be declared is carried into the registered target under its own name, every override key that is accepted is applied to exactly the setting it names, an unknown key or malformed value is an error, and overriding one compilation's target never changes the registered target or other settings.",
  ["configurations", "histories"], "all targets, all override strings, and all orders of registration and lookup",
  "Tests register one or two targets and override a couple of keys.",
  ["lib/Target/CompilationTarget/CompilationTarget.cpp", "lib/Target/CompilationTarget/CompilationTarget.h", "lib/Target/CompilationTarget/RegisterAllBackends.cpp", "lib/Tablegen/CompilationTargetEmitter.cpp", "lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp"],
  [("registry", "CompilationTarget.cpp"), ("generated registrations", "CompilationTargetEmitter.cpp"), ("override pass", "ApplyConfigOverride.cpp")], ["target settings seen by passes"])

p("C14", "A module carries exactly one scheme and one backend marker, as requested",
  "Marking a module for a scheme or a backend leaves the marker asked for and no other marker of that kind, whatever markers were there before; clearing removes all of them; each query answers from the marker it is named after, client-helper queries included. The annotation pass leaves the scheme and backend requested and rejects a request it does not know.",
  ["histories", "configurations"], "all prior marker combinations and all schemes and backends",
  "Tests mark fresh modules; re-marking an already marked module is a history they do not sample.",
  ["lib/Dialect/ModuleAttributes.cpp", "lib/Dialect/ModuleAttributes.h", "lib/Transforms/AnnotateModule/AnnotateModule.cpp"],
  [("marker helpers", "ModuleAttributes.cpp")], ["module attributes"])

p("C15", "Distinct values get distinct names in generated code",
  "SelectVariableNames gives every value of a function (arguments, results, arguments of blocks at any nesting) a non-empty valid identifier; within one function no two values receive the same identifier; across the whole module no two values receive the same number; whatever names the types suggest, including none. Mapping one value to another gives it exactly the other's identifier and number and changes no third value. The identifiers are the same from run to run for the same input.",
  ["programs"], "all programs, in particular any suggested name hints and block nesting",
  "A collision needs particular hints; tests check a few programs without hints.",
  ["lib/Analysis/SelectVariableNames/SelectVariableNames.cpp", "lib/Analysis/SelectVariableNames/SelectVariableNames.h"],
  [("name selection", "SelectVariableNames.cpp"), ("name suggestions", "lib/Dialect/**/*Types.td")], ["identifiers in emitted code"])

p("C16", "Forwarding and removal passes never change what a load or extract yields",
  "In store-to-load forwarding, insert-to-extract forwarding, unused-memref removal and unused-pure-call removal: a load or extract is replaced by a stored or inserted value only when both address the same container at provably the same position and nothing in between could have changed that position; a store, allocation or call is removed only when nothing can observe it. (Distinct memref arguments and allocations are taken not to overlap; views may.)",
  ["programs"], "all programs, in particular non-constant indices, several containers, intervening writes, calls and nested regions",
  "Sample programs use one container and constant indices.",
  ["lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp", "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp", "lib/Transforms/UnusedMemRef/UnusedMemRef.cpp", "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.cpp"],
  [("forwarding rewrites", "ForwardStoreToLoad, ForwardInsertToExtract"), ("removal rewrites", "UnusedMemRef, RemoveUnusedPureCall")], ["resulting IR"])

p("C17", "Rewrites leave no dangling operation behind and do not fail halfway",
  "In the patterns of the forwarding and unused-memref passes and the TfheRust hoisting patterns: a rewrite never reads an operation after erasing or replacing it, reports 'no match' only if it has left the program untouched, changes the program only through the rewriting interface that tracks changes, reports success only after changing it, and never moves an operation in front of a value it uses.",
  ["programs"], "all programs on which a rewrite applies, and all paths through the rewrite",
  "A use after erase is silent unless the memory is reused; a late failure needs an operation that matches the first half of a pattern only.",
  ["lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp", "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp", "lib/Dialect/TfheRust/IR/TfheRustPatterns.cpp", "lib/Transforms/UnusedMemRef/UnusedMemRef.cpp"],
  [("matchAndRewrite methods", "ForwardStoreToLoad, ForwardInsertToExtract, UnusedMemRef, TfheRustPatterns")], ["resulting IR", "memory errors"])

p("C18", "Element positions are computed row-major in 64 bits, without truncation",
  "Flattening a multi-dimensional position, and recovering it, uses row-major order over the static shape, in arithmetic at least as wide as the 64-bit dimensions; code emitted to compute a position uses the same formula.",
  ["inputs"], "all shapes, including those with more than 2^31 elements, and all positions",
  "Tests use shapes of a few elements.",
  ["lib/Utils/TensorUtils.cpp", "lib/Utils/TargetUtils.cpp", "lib/Utils/AffineMapUtils.cpp", "lib/Transforms/MemrefToArith/Utils.cpp", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp"],
  [("index helpers", "TensorUtils.cpp, TargetUtils.cpp, MemrefToArith/Utils.cpp")], ["computed index"])

p("C19", "Compiler output does not depend on hash order or addresses",
  "Running the same compilation twice gives the same result: nothing that is emitted, ordered, numbered or chosen depends on the iteration order of a hashed container, on the numeric value of a pointer, or on uninitialised state.",
  ["schedules", "configurations"], "all programs and all memory layouts of the process",
  "A test run observes one memory layout.",
  ["lib/Utils/Graph/Graph.h", "lib/Analysis/SelectVariableNames/SelectVariableNames.cpp", "lib/Dialect/TensorExt/Transforms/ShiftScheme.h", "lib/Target/CompilationTarget/CompilationTarget.cpp", "lib/Utils/Polynomial/Polynomial.h"],
  [("iteration over associative containers", "all of lib/")], ["emitted text", "resulting IR"])

p("C20", "Type and attribute checks reject every inconsistent description",
  "The verifiers accept exactly the consistent descriptions, whatever the position of the fault: an RNS type is accepted only when all its basis types provide the RNS interface and every pair of them is compatible (equal storage type and coprime moduli for modular-arithmetic types); a modulus must be positive and fit its signed storage type; a discrete uniform distribution must have min < max; preprocessing loads and stores must move a value of the declared element type which their storage holds; a module passes the preprocessing validation only if no function has two top-level allocations and every site has exactly one store and one load that agree in the number of indices, element type and storage type; and the debug validation only if no two names are equal. What is printed for a modular-arithmetic attribute with a value that fits its type is exactly what its parser reads back, sign included.",
  ["inputs", "programs"], "all parameter combinations, in particular lists of any length and faults in any position",
  "Verifier tests reject one bad example per rule, usually with the fault in the first position.",
  ["lib/Dialect/RNS/IR/RNSTypes.cpp", "lib/Dialect/ModArith/IR/ModArithTypes.cpp", "lib/Dialect/ModArith/IR/ModArithAttributes.cpp", "lib/Dialect/Random/IR/RandomDialect.cpp", "lib/Dialect/Preprocessing/IR/PreprocessingOps.cpp", "lib/Dialect/Preprocessing/Transforms/ValidatePreprocessing.cpp", "lib/Dialect/Debug/Transforms/ValidateNames.cpp"],
  [("verify methods", "lib/Dialect"), ("validation passes", "ValidatePreprocessing.cpp, ValidateNames.cpp"), ("parse/print pair", "ModArithAttributes.cpp")], ["verifier verdict", "printed and parsed attributes"])

p("C21", "Polynomials keep their terms ordered, unique and faithful to coefficients",
  "Every polynomial value (integer or floating-point, built from monomials in any order or from coefficients) lists its terms by strictly increasing exponent with each coefficient at its exponent and no term with a zero coefficient introduced; building one from monomials fails exactly when an exponent repeats. Addition, subtraction, multiplication, scaling, multiplication by a monomial, composition, degree and dense coefficients are those of the polynomials, whatever the exponents (gaps, interleaving, cancellation, the zero polynomial) and without reading a term that does not exist. The Chebyshev polynomials produced are T_0 = 1, T_1 = x, T_n = 2x T_(n-1) - T_(n-2); conversion of a Chebyshev series to the standard basis and its composition with a linear polynomial denote the same function as the series.",
  ["inputs"], "all coefficient lists and sets of exponents, sorted or not, with any of them zero",
  "Tests add, multiply and convert a few dense sorted polynomials; interleaved exponents, cancelling terms and degenerate degrees are for-all cases.",
  ["lib/Utils/Polynomial/Polynomial.h", "lib/Utils/Polynomial/Polynomial.cpp"],
  [("constructors, factories and operations", "Polynomial.h, Polynomial.cpp")], ["terms of a polynomial"])

p("C22", "Polynomial evaluation circuits compute the polynomial they were given",
  "For every degree, every choice of coefficients and every pattern of zero or absent ones, the circuits built by Horner's rule, the Paterson-Stockmeyer method in the standard basis and the Paterson-Stockmeyer method in the Chebyshev basis denote exactly the given polynomial of their input, without reading an absent node. The power tables they use hold the i-th power (or the i-th Chebyshev polynomial) at position i with multiplicative depth ceil(log2 i), and the Chebyshev decomposition yields pieces of degree below k with p = sum p_i T_k^i.",
  ["inputs"], "all degrees, coefficient lists and zero patterns",
  "Tests evaluate a few polynomials at a few points and count operations for some; a zero coefficient at a boundary of a block, or a degree at a power of two, is a for-all case.",
  ["lib/Utils/Polynomial/Horner.h", "lib/Utils/Polynomial/PatersonStockmeyer.h", "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h", "lib/Utils/Polynomial/ChebyshevDecomposition.cpp"],
  [("circuit builders", "Horner.h, PatersonStockmeyer.h, ChebyshevPatersonStockmeyer.h"), ("decomposition", "ChebyshevDecomposition.cpp")], ["value of the circuit", "multiplicative depth"])

p("C23", "Kernel circuits compute their documented result in every slot",
  "For operands packed as each kernel's documentation says, the circuits for rotate-and-reduce (with and without plaintexts, and its baby-step giant-step form, with any set of zero diagonals), dot product, matrix-vector and broadcast reductions, the Halevi-Shoup matrix-vector product (square and squat) and the bicyclic and tricyclic matrix products hold the documented value in every documented slot; the form with loops and the unrolled form compute the same, no kernel reads past the end of its operands or an element it never wrote, and the node factories of the arithmetic DAG store their operands in order.",
  ["inputs", "configurations"], "all sizes, periods, step counts, zero-diagonal sets and slot values",
  "Kernel tests evaluate a few sizes with concrete vectors; zero-diagonal sets, non-square shapes and the agreement of rolled and unrolled forms are for-all statements.",
  ["lib/Kernel/KernelImplementation.h", "lib/Kernel/ArithmeticDag.h", "lib/Kernel/Kernel.cpp"],
  [("kernel builders", "KernelImplementation.h"), ("node factories", "ArithmeticDag.h")], ["slots of the circuit's value"])

p("C24", "The number-theoretic transform evaluates the polynomial and its inverse undoes it",
  "For every power-of-two length n, every coefficient vector, every prime modulus q below 2^64 and every primitive 2n-th root of unity w, the forward transform leaves at position i the value of the polynomial at w^(2 rev(i) + 1), where rev reverses the log2(n) bits of i, and the inverse transform applied to these values returns the coefficients; every value stored stays reduced modulo q, and no element outside the vector is used.",
  ["inputs"], "all lengths, coefficients, moduli and roots",
  "One test round-trips one vector of length eight; a pair of compensating errors, other lengths, and the meaning of the transformed values are untested.",
  ["lib/Utils/Polynomial/NTT.cpp", "lib/Utils/Polynomial/NTT.h"],
  [("transforms", "NTT.cpp")], ["transformed vector"])

p("C25", "Fusing a pooling into a convolution computes the same result",
  "For every convolution filter, every convolution and pooling geometry (strides and dilations chosen independently per axis) and every scale, the fused filter applied with the fused strides gives, at every output position, what the convolution followed by sum pooling and scaling gives; an operation is recognised as the scaling of a pooling result only if it multiplies that very tensor elementwise by the reported constant, and recognition never crashes.",
  ["inputs", "programs"], "all filters, geometries and scales; all operations that use a pooling result",
  "Tests fuse a few square, undilated examples; asymmetric geometries and look-alikes of the scaling operation are not sampled.",
  ["lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp", "lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.h"],
  [("filter fusion", "fuseFloatFilters, fuseIntFilters"), ("scale recognition", "matchScalingFactor")], ["fused filter", "matched scale"])

p("C26", "What an analysis answers about a value holds",
  "The const-qualifier analysis answers that a value is constant exactly when no operation at any depth writes it, updates it in place or, for a buffer, is given it with unknown effects; the layout analysis answers that a layout is free only if the layouts of all operands are free and the operation neither fixes the layout of its result by changing it nor is an unknown call, whatever the order of operands and of visits; about a value never seen it promises nothing.",
  ["programs"], "all programs: nestings, uses, operand orders and states of the operands",
  "Tests look at one or two functions per analysis, with one use per value.",
  ["lib/Analysis/Cpp/ConstQualifierAnalysis.cpp", "lib/Analysis/LayoutFoldingAnalysis/LayoutFoldingAnalysis.cpp", "lib/Analysis/LayoutFoldingAnalysis/LayoutFoldingAnalysis.h"],
  [("isMutated / canBeMarkedConst", "ConstQualifierAnalysis.cpp"), ("transfer functions and join", "LayoutFoldingAnalysis")], ["answers of the analyses"])

p("C27", "Generated interface descriptions describe exactly the module's functions",
  "The metadata, the C++ header, the debug header and the Python bindings generated for a module describe every function of it once and in order, with all its arguments and results (index and type; every field of a multi-result struct; each overload of the debug helper once), under the scheme of the module, and fail exactly when a part cannot be described; exactly the public functions are marked for a C interface; full unrolling reaches every loop and fails if one cannot be unrolled.",
  ["programs"], "all modules: numbers and order of functions, argument and result types, declarations, debug ports, foreign operations",
  "Tests describe modules with one or two functions of supported types.",
  ["lib/Target/Metadata/MetadataEmitter.cpp", "lib/Target/OpenFhePke/OpenFhePkeHeaderEmitter.cpp", "lib/Target/OpenFhePke/OpenFhePkeDebugHeaderEmitter.cpp", "lib/Target/OpenFhePke/OpenFhePkePybindEmitter.cpp", "lib/Transforms/EmitCInterface/EmitCInterface.cpp", "lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp"],
  [("describers", "translate and printOperation of each emitter"), ("passes over functions and loops", "EmitCInterface, FullLoopUnroll")], ["generated text", "return status", "marks"])

p("C28", "Graph algorithms answer correctly for every graph",
  "On every directed graph (self-loops, parallel insertions, cycles, disconnected parts, any order of insertion) the topological sort fails exactly if there is a cycle and otherwise orders every edge forward with every vertex once; sorting by levels partitions the vertices so that every edge leads to a later level, in as few levels as possible; the strongly connected components are the classes of mutual reachability; condensing leaves one vertex per component with the edges between components and merges each removed vertex once; the shortest path follows edges, has as few of them as possible, and is denied exactly if there is none; the approximate critical path consists of the inner vertices in topological order and a sink. The colouring of an undirected graph gives every vertex a colour, never one of a neighbour's, with at most one colour more than the largest degree, also when the colouring object is used again.",
  ["inputs", "histories"], "all graphs, insertion orders and repeated uses",
  "Tests run each algorithm on one to four small graphs.",
  ["lib/Utils/Graph/Graph.h"],
  [("directed graph algorithms", "topologicalSort, sortGraphByLevels, getStronglyConnectedComponents, condenseGraph, getShortestPath, findApproximateCriticalPath"), ("colouring", "GreedyGraphColoring::color")], ["orders, levels, components, paths and colours"])

p("C30", "Compiling from Python leaves its inputs and its working files as it found them",
  "A call of the Python front-end leaves the caller's arguments (option lists, configuration objects, the function) unchanged, removes the working directory it made on success and on every failure unless debugging was requested, and on every path either returns or raises an error for its cause: no path reads a variable that was never set.",
  ["inputs", "fault_sequences", "histories"], "all compile options, input forms, back-ends, and failures of any stage",
  "Front-end tests compile one sample successfully; the error paths of each stage, and repeated calls with the same option list, are not sampled.",
  ["frontend/heir/pipeline.py", "frontend/heir/mlir_emitter.py", "frontend/heir/backends/openfhe/backend.py", "frontend/heir/backends/util/common.py", "frontend/heir/interfaces.py"],
  [("compilation pipeline", "frontend/heir/pipeline.py")], ["exceptions", "file system after the call", "caller's lists"])

p("C31", "Secret arguments are encrypted and only secret arguments are",
  "When a compiled function is called, an argument declared secret reaches the compiled code only in encrypted form produced by the encryption routine for that very argument, a plaintext argument is passed as it is, a mismatch in either direction is an error, and encryption, evaluation and decryption are refused until keys have been set up.",
  ["inputs", "histories", "programs"], "all signatures (any mix and order of secret and plain arguments), all call orders of setup, encrypt, evaluate and decrypt",
  "Tests call sample functions in the documented order with one signature.",
  ["frontend/heir/backends/openfhe/backend.py", "frontend/heir/backends/util/common.py", "frontend/heir/backends/cleartext/backend.py", "frontend/heir/interfaces.py", "frontend/heir/mlir/types.py"],
  [("client interface construction", "openfhe/backend.py"), ("argument stripping", "util/common.py")], ["arguments received by the compiled module", "exceptions"])

p("C32", "The Python front-end emits IR that means what the function says",
  "The Python front-end translates each arithmetic, comparison and bit operator, constant, cast, if/else and range loop of a function to IR that denotes it: the operation of the same meaning, on both operands in source order, each extended from its own type to a common one, with the variant (integer, float, signedness, tensor) of the operand type; variables keep their values across branches and loop iterations, each IR value is defined once and before its use, and what cannot be expressed is rejected.",
  ["programs"], "all programs of the supported subset, all operand type mixes",
  "Front-end tests translate a few functions with equal operand types.",
  ["frontend/heir/mlir_emitter.py", "frontend/heir/mlir/types.py"],
  [("operator tables and emission", "mlir_emitter.py"), ("type mapping", "mlir/types.py")], ["emitted MLIR text"])

p("C33", "A failing external tool is reported, and its arguments reach it unaltered",
  "Each external program the Python front-end and its command-line wrappers run (optimizer, translator, C++ compiler) is the configured one, gets its arguments as one list without a shell reinterpreting them, exactly as the user gave them including unusual paths, and as input the output of the stage before it; a non-zero exit status always surfaces as an error or as the exit status of the wrapper.",
  ["inputs", "fault_sequences", "configurations"], "all paths and option strings (blanks, quotes), all exit statuses of the tools",
  "Tests run with well-behaved paths and mock or skip the tools.",
  ["frontend/heir/heir_cli/heir_cli.py", "frontend/heir/heir_cli/heir_cli_config.py", "frontend/heir/backends/util/cpp_compiler.py", "frontend/heir/backends/util/pybind_helpers.py", "frontend/heir/backends/openfhe/config.py"],
  [("tool runners", "heir_cli.py, cpp_compiler.py")], ["argv of the tools", "exceptions"])

# ---- properties this family cannot decide here
p("C90", "Compilation preserves the meaning of the program",
  "For every program, the program produced by any sequence of passes and executed on any inputs yields, after decryption, the value the source program yields on those inputs (up to the scheme's approximation error).",
  ["programs", "inputs"], "all programs, pass pipelines and inputs", "Tests run some programs on some inputs.",
  ["lib", "tools"], [("pass pipelines", "lib/Pipelines")], ["decrypted results"])
p("C91", "Noise estimates bound the noise that really occurs",
  "For every program, parameter set and randomness, the noise in each ciphertext stays below the estimate with the stated probability.",
  ["inputs", "programs"], "all randomness and parameter sets", "Statistical statement over all keys.",
  ["lib/Analysis/NoiseAnalysis"], [("noise models", "lib/Analysis/NoiseAnalysis")], ["measured noise"])
p("C92", "Polynomial approximations meet their error target",
  "The polynomial substituted for a function differs from it by at most the accepted error everywhere on the declared interval.",
  ["inputs"], "all functions, degrees and points of the interval", "Tests sample a few functions.",
  ["lib/Utils/Approximation"], [("approximation", "lib/Utils/Approximation")], ["approximation error"])
p("C93", "Layouts place every element of a tensor where the kernel expects it",
  "For every shape and slot count, packing a tensor according to its layout and applying the kernel for an operation yields the packed result of that operation.",
  ["inputs"], "all shapes and slot counts", "Tests sample shapes.",
  ["lib/Utils/Layout", "lib/Kernel"], [("layout relations and kernels", "lib/Utils/Layout, lib/Kernel")], ["packed values"])
p("C94", "Shift networks implement the permutation they were built for",
  "For every permutation of slots the generated sequence of rotations and masks realises exactly that permutation.",
  ["inputs"], "all permutations", "Tests sample permutations.",
  ["lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp"], [("shift scheme", "ShiftScheme.cpp")], ["slot contents"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
