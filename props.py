"""Property metadata; gen.py turns it into properties.jsonl and MANIFEST.json."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level_note=None, na=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []},
              "technique": technique, "level_note": level_note, "na": na})


AI = "abstract interpretation (forward constant/term propagation over the clang-resolved AST) compared with a reference table"
TRUST = ("Decided from the source: nothing of the repository is compiled to run or executed. Trusted: clang's parse, the abstract "
         "interpreter and its models of the standard library (lib/absint.py, lib/models.py), the reference gate table (lib/sem.py). ")

prop("I01", "Inversion yields the adjoint of operations and circuits",
     "Inverting a standard or symbolic gate leaves an operation whose unitary is the adjoint of the original, with the same controls, for every "
     "gate type and every parameter value; operations without an inverse are rejected by an exception. Inverting a compound operation or a "
     "circuit inverts each element once, reverses their order, and negates the global phase; the inverse decision diagram of an operation denotes the adjoint.",
     ["inputs", "programs"], "every gate type, numeric or symbolic parameter value, control set, and nesting",
     "Tests invert a handful of gates at fixed angles; the claim is for all real parameters, all mixtures of symbolic/numeric ones and all gate types.",
     ["src/ir/operations/StandardOperation.cpp", "src/ir/operations/SymbolicOperation.cpp", "src/ir/operations/CompoundOperation.cpp",
      "src/ir/QuantumComputation.cpp", "src/dd/Operations.cpp"],
     [("per-type inversion", "StandardOperation::invert, SymbolicOperation::invert"), ("container inversion", "CompoundOperation::invert, QuantumComputation::invert"),
      ("inverse diagrams", "dd::getDD(op, dd, perm, inverse)")],
     AI, TRUST + "Gate types are enumerated completely; parameters stay symbolic and the resulting terms are compared as functions at six generic points; "
     "containers are analysed for 0..3 abstract children.")

prop("D01", "Gate matrices of the DD package are the documented unitaries",
     "For every gate type and all parameter values, the matrix from which its decision diagram is built equals the gate's mathematical definition. "
     "Exactly the types classified as single-qubit (two-qubit) gates have a single-qubit (two-qubit) matrix.",
     ["inputs"], "every gate type and every real parameter tuple",
     "Tests compare a few gates at a few angles; a sign or swapped parameter that cancels at those angles passes.",
     ["include/mqt-core/dd/GateMatrixDefinitions.hpp", "src/dd/GateMatrixDefinitions.cpp", "include/mqt-core/ir/operations/OpType.hpp"],
     [("matrix tables", "dd::opToSingleQubitGateMatrix, dd::opToTwoQubitGateMatrix"), ("classification", "qc::isSingleQubitGate, qc::isTwoQubitGate")],
     AI, TRUST + "Parameters stay symbolic; terms are compared with the reference at six generic parameter points.")

prop("D02", "Gate diagrams denote the controlled embedding of their matrix",
     "Building a gate diagram from any single- or two-qubit matrix, any distinct targets and any mixture of positive and negative controls yields a "
     "diagram denoting that matrix on the targets, conditioned on exactly those controls, and the identity on all other qubits. Targets or controls "
     "outside the package's qubit range are rejected by an exception before any node is created.",
     ["inputs", "configurations"], "every matrix, target placement, control set and polarity, and package size",
     "The number of placements and polarities grows exponentially; the tests exercise a few adjacent ones.",
     ["src/dd/Package.cpp", "src/dd/Operations.cpp", "include/mqt-core/dd/Operations.hpp"],
     [("construction", "dd::Package::makeGateDD, dd::Package::makeTwoQubitGateDD"), ("dispatch", "dd::getDD, dd::getStandardOperationDD")],
     "abstract interpretation with node creation as a free constructor; denotation of the resulting term compared with the controlled embedding",
     TRUST + "Matrix entries stay symbolic; placements and polarities are enumerated completely up to 4 qubits (5 thorough); larger registers are not covered.")

prop("I02", "Operation-type tables and gate builders agree with the gate set",
     "The printed name of every operation type parses back to that type, documented alternative spellings parse to the gate they denote, and unknown "
     "names are rejected. Types are flagged diagonal, inverse-paired, single- or two-qubit exactly when their unitary is. Every gate method of a circuit "
     "appends exactly one operation of the named type with exactly the given controls, targets and parameters.",
     ["inputs"], "every operation type, documented spelling, and builder method (plain, controlled, multi-controlled; numeric and symbolic)",
     "The tables are written by hand in several files; tests touch a subset of the names and methods.",
     ["include/mqt-core/ir/operations/OpType.hpp", "include/mqt-core/ir/operations/OpType.inc", "src/ir/operations/OpType.cpp", "src/ir/QuantumComputation.cpp"],
     [("names", "qc::toString, qc::opTypeFromString"), ("flags", "OpTypeFlags, Operation::isDiagonalGate"), ("builders", "QuantumComputation::<gate>, c<gate>, mc<gate>")],
     AI, TRUST + "Types and methods are enumerated completely; builder calls are analysed at one generic placement each.")

prop("S01", "Symbolic expression arithmetic is linear algebra",
     "Adding, subtracting, negating, scaling and dividing symbolic terms and expressions in any operand order yields the expression denoting the "
     "mathematical result; division by zero throws. Results keep each variable at most once, in order, and without cancelled terms. Expressions compare equal "
     "exactly when variables, coefficients and constant agree, and evaluation yields constant plus coefficient times value or throws for a variable without a value.",
     ["inputs"], "every pair of expressions/terms/scalars, including cancelling coefficients and zero",
     "The operators are hand-written overloads for every operand order; the tests use few variable sets and only commutative combinations.",
     ["include/mqt-core/ir/operations/Expression.hpp"],
     [("operators", "sym::operator+ - * / == on Term and Expression"), ("normal form", "Expression::operator+=, sortTerms, aggregateEqualTerms"), ("evaluation", "Expression::evaluate, Term::evaluate")],
     AI, TRUST + "Operand shapes: all subsets of three variables on each side, symbolic coefficients compared at generic, cancelling and zero points.")

prop("D07", "Decision-diagram arithmetic denotes linear algebra",
     "Adding, multiplying (matrix-matrix, matrix-vector), conjugating, transposing, taking inner products, Kronecker products and partial traces of "
     "decision diagrams yields diagrams denoting the mathematical result, whatever levels the operands skip and whatever zero or terminal edges they "
     "contain. Results taken from a compute table equal the recomputed ones: every table is read and written with the same key, stores the value "
     "independent of the operands' top weights, and serves one operation only.",
     ["inputs", "histories"], "every operand shape at one recursion level, every weight, and every earlier content of the compute tables",
     "The tests multiply a few circuits' diagrams; a wrong skipped-level case or a stale table entry needs a particular operand shape after a particular earlier call.",
     ["include/mqt-core/dd/Package.hpp", "src/dd/Package.cpp"],
     [("addition", "dd::Package::add, add2, addMagnitudes"), ("multiplication", "dd::Package::multiply, multiply2"),
      ("conjugation", "dd::Package::conjugate, conjugateRec, conjugateTranspose, conjugateTransposeRec"),
      ("inner product", "dd::Package::innerProduct"), ("Kronecker product", "dd::Package::kronecker, kronecker2"),
      ("partial trace", "dd::Package::partialTrace, trace")],
     "inductive abstract interpretation over an abstract diagram heap: one level of each recursion, recursive calls and table hits replaced by their specification",
     TRUST + "Induction over levels: the recursive calls are uninterpreted results with the specified denotation; operand shapes (terminal, zero, identity, "
     "skipping, full) are enumerated for up to 3 qubits with generic weights. Density-matrix instances and numerical tolerances are not covered.")

prop("D08", "Diagram constructors and readers agree with the state or matrix they name",
     "Every constructor (zero, basis, product, GHZ and W states, diagrams from vectors and matrices, zero density operator, identity, ancillary projectors) "
     "yields a diagram denoting exactly the requested state or matrix; requests for more qubits than the package has, or with too little or malformed data, "
     "throw before any node is created. Reading amplitudes or entries by index, by path, as dense or sparse vector or matrix returns those of the diagram, "
     "including on skipped levels, zero edges and terminals. Normalising a node keeps what it denotes: vector weights get norm one with the phase of the first "
     "largest weight moved to the top edge, matrix weights are divided by the first largest; all-zero nodes become the zero edge.",
     ["inputs", "configurations"], "every size, argument value, diagram shape and weight pattern (within the enumerated sizes)",
     "The tests build and read a few well-formed diagrams; skipped levels, start offsets, zero blocks, oversized requests and magnitude ties are rarely combined.",
     ["src/dd/Package.cpp", "src/dd/Edge.cpp", "src/dd/CachedEdge.cpp"],
     [("constructors", "dd::Package::make*State, makeStateFromVector, makeDDFromMatrix, makeZeroDensityOperator, createInitialMatrix"),
      ("readers", "dd::Edge::getValueByIndex, getValueByPath, getVector, getSparseVector, addToVector, getMatrix, getSparseMatrix"),
      ("normalisation", "dd::Edge::normalize, dd::CachedEdge::normalize")],
     "abstract interpretation over an abstract diagram heap; denotation of the produced term compared with the named state or matrix",
     TRUST + "Sizes up to 4 qubits (vectors and matrices up to 3); amplitudes symbolic, zero patterns and bit patterns enumerated. Level skipping in vector "
     "diagrams, tolerances and printing are not covered.")

prop("I03", "Copying, comparing and hashing operations and circuits is consistent",
     "A clone, copy-constructed or copy-assigned operation or circuit equals the original in every data member and owns its own children, and copying leaves "
     "the original unchanged. Operations and circuits with equal content compare equal in both directions; those differing in anything that affects their meaning "
     "(gate type, qubits, control polarity, parameters or expressions, classical bits, condition and comparison, parts, moves; registers, layouts, global phase) "
     "compare unequal in both directions. Equal operations hash equally, and an operation equals its relabelled self under that relabelling.",
     ["inputs"], "every kind of operation (numeric, symbolic, non-unitary, classically controlled, compound, AOD) and every content",
     "Comparison and hashing are written by hand per class with a shared base; tests compare a few plain gates, so a member missing from one class goes unnoticed.",
     ["include/mqt-core/ir/operations", "src/ir/operations", "src/ir/QuantumComputation.cpp", "include/mqt-core/ir/operations/AodOperation.hpp"],
     [("copying", "Operation::clone, copy constructors and assignments, QuantumComputation(const&), operator="),
      ("comparison", "Operation::equals, operator==, overrides per class"), ("hashing", "std::hash<qc::*>")],
     "abstract interpretation of copies, comparisons and hashes over operation objects with generic content; obligations derived from the classes' data members",
     TRUST + "One generic object per operation kind and one variation per member; hash values stay uninterpreted terms. Moves and self-assignment are not covered.")

prop("I07", "Compound and classically controlled operations behave as their parts",
     "The qubits an operation uses or acts on, its contribution to circuit depth and its classification (unitary, symbolic, controlled, global, collapsible) are "
     "those of its parts, through any nesting of compounds and classical control. Applying a qubit permutation relabels every target and control of every part "
     "exactly once. Adding a control reaches every part, and removing or clearing it restores the operation; non-unitary operations and already used qubits reject "
     "it. Circuit queries (depth, number of operations, dynamic, variable-free, idle qubits) and instantiation of variables reach all parts.",
     ["inputs"], "every operation kind, nesting, qubit, control set and permutation",
     "Tests query plain gates and flat compounds; wrappers around wrappers and non-unitary or symbolic parts are rarely combined with each query.",
     ["include/mqt-core/ir/operations", "src/ir/operations/CompoundOperation.cpp", "src/ir/operations/Operation.cpp", "src/ir/QuantumComputation.cpp"],
     [("queries", "Operation::actsOn, getUsedQubitsPermuted, addDepthContribution, is*"), ("edits", "addControl(s), removeControl(s), clearControls, setControls, apply, setTargets"),
      ("circuit level", "QuantumComputation::getDepth, isDynamic, isVariableFree, isIdleQubit, getN*Ops, instantiateInplace")],
     "abstract interpretation of every query and edit over operation trees, compared with a reference model on the tree",
     TRUST + "32 operation shapes nested up to three levels, 5 qubits; 23 operation sequences for circuit queries. AOD operations are not covered.")

prop("I06", "Register, layout and qubit-flag bookkeeping stays consistent",
     "After any sequence of requests to add qubit, classical or ancilla registers, mark qubits ancillary or garbage, remove or re-add qubits, strip idle qubits, or "
     "unify registers, the qubit counts, registers, initial layout, output permutation and flags agree: every qubit lies in exactly one register, physical and "
     "logical qubits correspond one to one, and outputs and flags name existing qubits. Each request has exactly its documented effect; removing a qubit and "
     "adding it back restores the circuit; queries answer from that bookkeeping. Invalid requests (names in use, empty registers, qubit registers after ancillae) "
     "throw and change nothing.",
     ["histories", "inputs"], "every sequence of requests on every register configuration (within the enumerated depth)",
     "The counters, maps and flags are updated separately in each method; an inconsistency needs a particular order of additions, removals and flags.",
     ["src/ir/QuantumComputation.cpp", "include/mqt-core/ir/QuantumComputation.hpp", "include/mqt-core/ir/Register.hpp", "src/ir/Register.cpp"],
     [("registers", "QuantumComputation::addQubitRegister, addClassicalRegister, addAncillaryRegister, unifyQuantumRegisters"),
      ("qubits", "removeQubit, addQubit, addAncillaryQubit, stripIdleQubits, setLogicalQubitAncillary, setLogicalQubitGarbage"),
      ("queries", "getQubitRegister, getQubitAndRegister name, getIndexFromQubitRegister, qubitIsAncillary, ...")],
     "abstract interpretation of every request from every configuration reachable by bounded request sequences, compared with a reference bookkeeping",
     TRUST + "Sequences up to two requests quick and three thorough over registers of 1-3 qubits; larger registers are not covered.")

prop("I09", "Circuit builders check their arguments",
     "Every gate, measure, reset, barrier and classically controlled builder of a circuit throws and appends nothing if any control, target or classical bit lies "
     "outside the circuit, and otherwise appends exactly one operation on exactly those. Builders with symbolic parameters record exactly their variables as "
     "occurring in the circuit. Measuring all qubits, or the outputs, measures each of them once into its own bit, adding bits where asked to.",
     ["inputs"], "every builder method and every argument position",
     "There are several hundred generated builder overloads; a missing check in one argument position is exercised by no test.",
     ["src/ir/QuantumComputation.cpp", "include/mqt-core/ir/QuantumComputation.hpp"],
     [("range checks", "QuantumComputation::checkQubitRange, checkBitRange, checkClassicalRegister"), ("builders", "QuantumComputation::<gate>, c<gate>, mc<gate>, measure, reset, barrier, classicControlled"),
      ("measurement helpers", "measureAll, appendMeasurementsAccordingToOutputPermutation"), ("variables", "addVariables")],
     AI, TRUST + "Builders are enumerated completely from the class; each argument position is taken out of range once on a circuit with non-contiguous physical qubits.")

prop("I10", "Whole-circuit transformations keep the program",
     "Reordering operations keeps every operation once and the relative order of any two operations that share a qubit or a classical bit. Deriving the "
     "input/output mapping makes the first measurement of each qubit its output and flags qubits without an output, and idle ancillae, as garbage, leaving layout and operations alone. "
     "Resetting a circuit leaves the content of a new one. A circuit made from a compound operation holds copies of its parts in order on registers that contain "
     "all their qubits and bits. An operation is reported as the last on its qubits iff no later operation shares one.",
     ["programs"], "every sequence of gates, measurements, resets, barriers, conditions and compounds",
     "The tests reorder and import small unitary circuits; order errors need a particular interleaving of classical and quantum dependencies.",
     ["src/ir/QuantumComputation.cpp"],
     [("reordering", "QuantumComputation::reorderOperations"), ("mapping", "QuantumComputation::initializeIOMapping"), ("reset", "QuantumComputation::reset"),
      ("compound", "QuantumComputation::fromCompoundOperation"), ("last", "QuantumComputation::isLastOperationOnQubit")],
     "abstract interpretation of the transformations on operation sequences, compared with the dependency order of a reference model",
     TRUST + "18 sequences of up to seven operations on three qubits covering each kind of dependency, two layouts; 10 measurement patterns.")

prop("I04", "Canonicalising and instantiating parameterised gates keeps their unitary",
     "Constructing a gate of type U, U2 or P stores a type and parameters with exactly the requested unitary, for all angles and any mixture of numeric and "
     "symbolic parameters, and exactly as many parameters as the stored type takes. Every constructor stores exactly the given targets, controls and parameters. "
     "Instantiating a symbolic operation, in place or as a copy, once or repeatedly, yields the gate at the assigned values and rejects missing variables. The name "
     "of an operation is the printed name of its type after construction, inversion, instantiation and retyping.",
     ["inputs"], "every angle combination, every mixture of symbolic and numeric parameters, every variable assignment",
     "The canonicalisation is a cascade of comparisons over three angles duplicated for each mixture of symbolic ones; tests reach a few of the branches.",
     ["src/ir/operations/StandardOperation.cpp", "src/ir/operations/SymbolicOperation.cpp", "include/mqt-core/ir/operations/StandardOperation.hpp"],
     [("numeric canonicalisation", "StandardOperation::parseU1, parseU2, parseU3, checkUgate"), ("symbolic canonicalisation", "SymbolicOperation::parseU*, checkSymbolicUgate"),
      ("instantiation", "SymbolicOperation::instantiate, getInstantiatedOperation"), ("names", "StandardOperation::invert, AodOperation::invert, Operation::setGate")],
     "abstract interpretation (constant propagation over a partition of the angle space) of constructors and instantiation, matrices compared with a reference table",
     TRUST + "One representative per region between the special angles (12 angles quick, 22 thorough, all combinations); angles closer than 1e-3 to a special angle are covered by two representatives only.")

prop("I08", "Commutation queries are sound",
     "If two operations (standard, symbolic, controlled or compound) are reported to commute at every qubit they share, their unitaries commute, for all values of "
     "symbolic parameters. The documented cases are reported: qubits not shared, both controlled on the qubit, both diagonal, a control against a diagonal gate, and same type and targets "
     "(with equal parameters beyond one). Measurements, resets and classically controlled gates are not reported to commute with gates that disturb them.",
     ["inputs"], "every pair of operation types and placements",
     "The query is a hand-written case distinction over roles of the qubit in both operations; tests try a few pairs.",
     ["src/ir/operations/StandardOperation.cpp", "src/ir/operations/CompoundOperation.cpp", "include/mqt-core/ir/operations/Operation.hpp"],
     [("gates", "StandardOperation::commutesAtQubit"), ("compounds", "CompoundOperation::commutesAtQubit")],
     "abstract interpretation of the query for all type pairs and roles, compared with commutators of the reference matrices",
     TRUST + "Types are enumerated completely on three qubits with up to two controls; numeric parameters at one generic point per operation (two for same-type pairs).")

prop("I05", "Exported OpenQASM denotes the exported operation or circuit",
     "The text dumped for any operation (gates with positive and negative controls, measurements and resets of any qubits, barriers, classically controlled and "
     "compound operations, AOD operations) parses, as OpenQASM 2 and 3, to statements with the same effect on the same qubits and bits, each under the same classical "
     "condition; parameters and coordinates keep at least 13 significant digits. The text dumped for a circuit declares the registers in index order, states "
     "initial layout and output permutation, and holds the circuit's operations in order and, in OpenQASM 3, its global phase.",
     ["inputs"], "every gate type, control polarity, qubit and bit selection, register arrangement, parameter value",
     "The exporter prints text per gate type with shortcuts for whole registers, negated controls and special gates; tests mostly check that the text parses.",
     ["src/ir/operations/StandardOperation.cpp", "src/ir/operations/NonUnitaryOperation.cpp", "src/ir/operations/ClassicControlledOperation.cpp", "src/ir/operations/AodOperation.cpp",
      "src/ir/QuantumComputation.cpp"],
     [("operations", "*::dumpOpenQASM, dumpOpenQASM2, dumpOpenQASM3, dumpGateType"), ("circuits", "QuantumComputation::dumpOpenQASM, printSortedRegisters")],
     "abstract interpretation of the exporter with output streams as sequences of text and symbolic numbers; the produced text is read back by an independent reader and compared with the operation",
     TRUST + "Types are enumerated completely, placements, registers and nestings by shape; gate parameters stay symbolic. Gates are read with the library's documented conventions "
     "(a leading c adds a control; U is the u3 matrix). A compound that changes the bit its own condition reads is outside OpenQASM 2 and not covered.")

prop("C01", "Optimisation passes keep what a circuit does",
     "removeIdentities, flattenOperations, swapReconstruction, cancelCNOTs, decomposeSWAP, singleQubitGateFusion, replaceMCXWithMCZ and collectBlocks (any block size) leave a circuit whose "
     "unitary (including the global phase), or, with measurements, resets and classical conditions, whose outcomes and states, are those of the original. They reach the form they promise: no identities, "
     "no compound operations, no uncontrolled SWAPs, no controlled X, blocks within the size limit.",
     ["programs"], "every circuit",
     "The passes rewrite by local patterns over the neighbours of each operation; which neighbours occur depends on the whole circuit, and tests run a few circuits.",
     ["src/circuit_optimizer/CircuitOptimizer.cpp", "include/mqt-core/circuit_optimizer/CircuitOptimizer.hpp"],
     [("passes", "CircuitOptimizer::removeIdentities, flattenOperations, swapReconstruction, cancelCNOTs, decomposeSWAP, singleQubitGateFusion, replaceMCXWithMCZ, collectBlocks"), ("blocks", "DSU")],
     "abstract interpretation of the passes on every arrangement of an alphabet of abstract operations; the resulting operation list is compared with the original by the reference semantics",
     TRUST + "Circuits are all sequences up to length 2-4 (thorough: 3-5) over alphabets of operations chosen per pass, on three qubits, plus fixed longer ones on four qubits for blocks; "
     "that longer circuits behave alike is the small-scope assumption. The tree's source is interpreted, not compiled.")

prop("C02", "Passes on measurements and resets keep the measured outcomes",
     "Removing final measurements removes only measurements after which nothing acts on the qubit and whose bit no later condition reads. Removing diagonal gates before measurements keeps the joint "
     "distribution of the measured bits. Eliminating resets leaves a circuit without unconditional resets, on added qubits, with the same joint distribution. Deferring measurements gives a circuit in "
     "which no gate follows a measurement on its qubit, with the same joint distribution of all classical bits, or rejects the circuit.",
     ["programs"], "every circuit with mid-circuit measurements, resets and classical conditions",
     "Which gate may move past which measurement depends on every operation in between and on classical data flow; tests try a few circuits and mostly compare operation lists.",
     ["src/circuit_optimizer/CircuitOptimizer.cpp"],
     [("passes", "CircuitOptimizer::removeFinalMeasurements, removeDiagonalGatesBeforeMeasure, eliminateResets, deferMeasurements")],
     "abstract interpretation of the passes on every arrangement of an alphabet of abstract operations; measured distributions before and after are compared by the reference semantics",
     TRUST + "Circuits are all sequences up to length 3 over the alphabets plus combinations with rarer operations, on three qubits and bits; longer circuits are the small-scope assumption. "
     "Known finding: deferMeasurements does not reject circuits with later non-diagonal gates on a measured qubit.")

prop("C03", "Passes on qubit permutations keep layouts and outputs consistent",
     "Eliding permutations removes every uncontrolled, unconditional SWAP (also inside compound operations) and relabels the remaining operations, the initial layout and the output permutation so that "
     "every logical input leads to the same outcomes and outputs. Backpropagating an output permutation, complete or partial, yields a complete initial layout that the circuit's uncontrolled SWAPs take to it, "
     "and changes nothing else.",
     ["programs"], "every circuit, initial layout and (partial) output permutation",
     "The relabelling is tracked through the circuit and composed with two user-given maps; tests use a few circuits, mostly with trivial maps.",
     ["src/circuit_optimizer/CircuitOptimizer.cpp", "include/mqt-core/ir/Permutation.hpp"],
     [("passes", "CircuitOptimizer::elidePermutations, backpropagateOutputPermutation"), ("relabelling", "Operation::apply and overrides, Permutation::apply")],
     "abstract interpretation of the passes on every arrangement of an alphabet of abstract operations with several layouts; input-output behaviour is compared by the reference semantics",
     TRUST + "Circuits are all sequences up to length 3 over the alphabets (4 in thorough), on two to four qubits, with three to eleven layouts and output permutations; longer circuits are the small-scope assumption.")

prop("Z01", "ZX-diagrams built from circuits denote the circuit's unitary",
     "Every circuit that transformableToZX accepts is turned into a ZX-diagram (with one input and output per qubit and a consistent edge count) whose linear map is, up to a nonzero "
     "scalar, the unitary of the circuit with measurements and barriers ignored: for every supported gate, its positive and negative controls, any parameter value, numeric or symbolic, any order of its qubits, "
     "nested compound operations and any initial layout. Operations it rejects are never translated: building a diagram from them throws.",
     ["inputs", "programs"], "every accepted circuit and parameter value",
     "Each gate has a hand-written spider network, and neighbouring gates are merged; tests compare a few circuits, mostly without negative controls, layouts or parameters.",
     ["src/zx/FunctionalityConstruction.cpp", "include/mqt-core/zx/FunctionalityConstruction.hpp", "src/zx/ZXDiagram.cpp"],
     [("translation", "zx::FunctionalityConstruction::buildFunctionality, parseOp, checkSwap, transformableToZX"), ("diagram", "ZXDiagram::addVertex, addEdge, removeEdge")],
     "abstract interpretation of the translation for every gate type, polarity and placement with symbolic angles; the resulting diagram's tensor is compared with the reference unitary",
     TRUST + "Types and polarities are enumerated completely with up to three controls, CNOT triples on three qubits completely, other sequences by shape (pairs of representative gates; longer sequences are the small-scope assumption); angles at generic points. "
     "Global scalars are not compared (the library tracks them only partly). Known finding: XXplusYY and XXminusYY rotate in the opposite sense.")

prop("Z04", "Angles of ZX-diagrams are exact rationals modulo two pi",
     "PiRational values are kept in (-1, 1] as exact fractions of pi: construction from a numerator and denominator, negation, and +, -, *, / with angles and integers on either side (in this order "
     "of operands) give the exact result reduced modulo 2; division by zero throws. Construction from a number gives the angle modulo 2 pi, exactly for unit fractions of pi that numbers represent and otherwise within 1e-13 (or the precision of the number). "
     "Comparisons, zero, integer, Pauli and Clifford tests and conversions describe the fraction.",
     ["inputs"], "every fraction, integer and number",
     "A wrong reduction or operand order only shows for angles beyond one turn or for operators nothing tests; tests use eighteen values.",
     ["include/mqt-core/zx/Rational.hpp", "src/zx/Rational.cpp", "src/zx/Utils.cpp"],
     [("arithmetic", "zx::PiRational, operators in zx"), ("reduction", "PiRational::modPi"), ("tests", "zx::isPauli, isClifford, isProperClifford")],
     "abstract interpretation of constructors and operators on exact rationals (multiprecision numbers modelled as exact), compared with exact arithmetic",
     TRUST + "Operands are a fixed set of fractions, integers and numbers covering signs, boundaries of the range, several turns and extreme sizes; all pairs of them. The multiprecision library is modelled as exact.")

prop("Z02", "Rewriting ZX-diagrams preserves their linear map",
     "Every rewrite rule, applied where its check accepts, and every simplification strategy (identity removal, spider fusion, local complementation, pivoting, gadget fusion, their combinations up to full reduction) "
     "keeps the linear map of the diagram (where it is not zero) up to a nonzero scalar, with every input and output still attached and the edge count consistent; numbers and symbols may occur as phases. "
     "A strategy ends, reports a positive count when a single kind of rule changed something, and full reduction leaves only Z spiders that are connected to an input or output.",
     ["inputs", "programs"], "every diagram the rules accept, every circuit's diagram",
     "A rule's side conditions involve types of neighbours, phases and edge types at once; a missing condition is met only by unusual diagrams, and tests check the vertex count of a few circuits.",
     ["src/zx/Rules.cpp", "src/zx/Simplify.cpp", "include/mqt-core/zx/Simplify.hpp", "src/zx/ZXDiagram.cpp"],
     [("rules", "zx::checkIdSimp ... zx::checkAndFuseGadget, removeId, fuseSpiders, localComp, pivot, pivotPauli, pivotGadget"), ("strategies", "zx::idSimp ... zx::fullReduce"), ("edges", "ZXDiagram::addEdgeParallelAware, removeVertex, removeDisconnectedSpiders")],
     "abstract interpretation of every check and rule on enumerated neighbourhoods (three spiders of both colours, four Z spiders with every kind of phase, phase gadgets and their near misses) and of the strategies on circuits; the tensors before and after are compared",
     TRUST + "Neighbourhoods are enumerated up to three or four spiders with generic, Pauli, Clifford and symbolic phases (a stride through them in quick); strategies run on fixed and random circuits of up to three qubits. Larger diagrams are the small-scope assumption: the rules only look at the neighbours of one or two vertices. "
     "fullReduceApproximate changes the map by design and is outside.")

prop("Z03", "ZX-diagram operations keep the graph consistent and compose as linear maps",
     "Adding and removing vertices and edges changes exactly that: counts, both half-edges, inputs, outputs and the list of free slots stay consistent, and a reused slot carries nothing over. "
     "Vertices, edges, adjacency, degrees and connected sets are listed exactly, also for diagrams with freed slots and for the empty diagram. Adding an edge next to an existing one, or a loop, (addEdgeParallelAware on spiders) gives the diagram with that edge, up to a scalar and without parallel edges. "
     "The adjoint, the concatenation (in order, of diagrams with equally many qubits whose inputs are not wired to each other; otherwise, for different sizes, an exception), ancillas fixed to zero at both ends and the graph-like form denote the corresponding linear maps (up to a positive scalar of the tensor) and global phases; "
     "isIdentity holds exactly for plain wires from each input to its output without global phase; removing disconnected spiders removes exactly those; approximateCliffords rounds exactly the phases within the tolerance of a multiple of a quarter turn.",
     ["inputs", "programs"], "every diagram and operation on it",
     "Diagrams share vertex slots and half-edges between operations; an error shows only with freed slots, unusual edge types or qubit labels, and tests build three diagrams.",
     ["src/zx/ZXDiagram.cpp", "include/mqt-core/zx/ZXDiagram.hpp", "src/zx/Utils.cpp", "include/mqt-core/zx/Utils.hpp"],
     [("graph", "ZXDiagram::addVertex, addEdge, addEdgeParallelAware, removeEdge, removeVertex"), ("listing", "zx::Vertices, zx::Edges and their iterators"), ("maps", "ZXDiagram::concat, invert, adjoint, makeAncilla, toGraphlike, isIdentity")],
     "abstract interpretation of every operation (iterators included) on enumerated and random diagram records; compared with a multigraph model and with tensors",
     TRUST + "Diagrams: five vertices with every combination of edge kinds and free slots (a stride of 5 in quick), random diagrams of one and two qubits with up to four spiders. Parallel edges and loops made by addEdge directly are outside.")

prop("Q01", "OpenQASM gate calls, definitions and modifiers mean what the language says",
     "Importing an OpenQASM 3 or 2 program that calls gates gives a circuit with exactly the gates, parameters, operands and order the program has, up to numerical accuracy and, for uncontrolled gates, with the language's global phase: "
     "for every gate name of the standard libraries and of the importer, every sequence of ctrl, negctrl and inv modifiers with counts (the modifiers' operands come first), "
     "registers broadcast over their indices, compound and nested gate definitions with parameters of any name (a body uses its own parameters and qubits, never the caller's), and, only in OpenQASM 2, implicit control prefixes. "
     "Calls and definitions with a wrong number, kind, index, width or repetition of operands or parameters, unknown names or invalid modifiers are rejected with qasm3::CompilerError, and nothing else is ever thrown.",
     ["inputs"], "every program",
     "A wrong control order, inverse, table entry or parameter scope shows only for particular gate names, modifier sequences and names; tests import a few dozen programs and mostly compare printed text.",
     ["src/qasm3/Importer.cpp", "include/mqt-core/qasm3/Gate.hpp", "include/mqt-core/qasm3/StdGates.hpp", "src/qasm3/Parser.cpp", "include/mqt-core/qasm3/NestedEnvironment.hpp"],
     [("calls", "Importer::visit(GateCallStatement), evaluateGateCall, applyQuantumOperation, getMcGateDefinition"), ("definitions", "Importer::visit(GateDeclaration), CompoundGate"), ("tables", "qasm3::STANDARD_GATES"), ("text", "Scanner, Parser::parseGateCallStatement, parseGateModifier")],
     "abstract interpretation of Importer::imports, from the text on (scanner, parser, type check, constant evaluation and import), for an enumeration of programs per language construct; the resulting circuit is compared with an independent reader of the language by the reference semantics",
     TRUST + "About 540 programs in quick: every gate name, all modifier sequences of length one and two and longer samples, every wrong operand count per kind of gate. The grammar's unbounded nesting is a small-scope assumption.")

prop("Q02", "OpenQASM constant expressions are evaluated as the language defines them",
     "Expressions of literals, constants and functions used as gate parameters, register sizes, indices, modifier arguments and constants' initial values have the value the language gives them: literals of every notation, "
     "precedence and associativity of all operators, integers and floats kept apart in OpenQASM 3 (division, remainders) and real in OpenQASM 2, conversions between int, uint and float constants, functions of integers and floats. "
     "Sizes and indices made of expressions are the same as the written number. Expressions that are ill-typed, undefined (division by zero), or not constant are rejected with qasm3::CompilerError.",
     ["inputs"], "every expression",
     "Expressions are a recursive language with mixed types; a wrong precedence, signedness or literal notation shows for particular combinations; tests evaluate a handful.",
     ["src/qasm3/passes/ConstEvalPass.cpp", "src/qasm3/passes/TypeCheckPass.cpp", "src/qasm3/Scanner.cpp", "src/qasm3/Parser.cpp"],
     [("evaluation", "ConstEvalPass::visit"), ("types", "TypeCheckPass::visit"), ("literals", "Scanner::consumeNumberLiteral*"), ("precedence", "Parser::parseExpression and below")],
     "abstract interpretation of Importer::imports on one program per expression of an enumeration (all operators, pairs of operators, literals, functions, conversions, contexts); compared with an independent evaluator",
     TRUST + "About 800 expressions in quick; deeper nesting is the small-scope assumption. `^` is the power operator as in the importer's dialect. Integer overflow, and infinite or undefined results used as parameters, are outside.")

prop("Q03", "OpenQASM programs are read statement by statement as written, or rejected",
     "Declarations make quantum and classical registers of the declared name, size and order; measurements (in both notations), resets and barriers apply to the bits and qubits they name; "
     "if statements with comparisons of a register or with a bit act exactly when their condition holds, else branches when it does not; comments, white space and includes do not matter, and the initial and output layout comments are read where they stand at the start of a comment. "
     "Conditions that are not supported, undeclared or redeclared names, sizes that do not match, wrong kinds of operands, incomplete and malformed texts are rejected with qasm3::CompilerError; no text leads to another exception or a crash.",
     ["inputs"], "every text",
     "Malformed text, unusual conditions and comments are endless; tests have one program per error message.",
     ["src/qasm3/Importer.cpp", "src/qasm3/Parser.cpp", "src/qasm3/Scanner.cpp", "src/qasm3/passes/TypeCheckPass.cpp", "include/mqt-core/qasm3/Types.hpp"],
     [("statements", "Importer::visit(...)"), ("conditions", "Importer::visit(IfStatement), translateCondition"), ("text", "Scanner, Parser::parseStatement"), ("types", "TypeCheckPass::visit")],
     "abstract interpretation of Importer::imports on one program per statement form, each correct, unsupported or malformed; circuits are compared with an independent reader of the language, rejections must be qasm3::CompilerError",
     TRUST + "About 350 programs in quick, truncations of every statement among them. Statements the language has and the importer does not (loops, subroutines) only need to be rejected properly. Registers of size zero are outside.")
