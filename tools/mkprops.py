"""Regenerates properties.jsonl (single source of the property texts)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({"observe_at": observe} if observe else {}))))


p("P01", "Single-qubit Clifford algebra agrees with the 2x2 matrices",
  "For every pair of the 24 single-qubit Clifford gates, product, conjugate, H/S/Z decomposition, OpenQASM decomposition, "
  "recognition from a matrix, action on Pauli observables and commutation with X^sZ^t byproducts agree with the gates' "
  "2x2 unitaries up to global phase, for all byproduct domains. The graph-state representation of each Clifford implements that gate.",
  ["inputs"], "all 24 gates, all 576 pairs, all signed Paulis, all byproduct domains",
  "Tests sample tables and a few matrices; the tables must be consistent for every pair and every domain.",
  ["graphix/clifford.py", "graphix/_db.py", "graphix/pauli.py"],
  [("CLIFFORD_MUL/CONJ/MEASURE/HSZ tables", "graphix/_db.py"), ("commute_domains", "graphix/clifford.py")])
p("P02", "Measurement descriptions denote the same observable in every form",
  "For every angle and plane, conversion between Bloch and Pauli measurement descriptions, plane/axis/sign bookkeeping, and "
  "application of any Clifford to a measurement preserve the measured observable: the new description's projector for each "
  "outcome equals the conjugated projector of the old one. Recognition as a Pauli measurement happens exactly when the angle is "
  "(up to tolerance) a multiple of pi/2, and angles in [0,2) stay in [0,2) under Cliffords.",
  ["inputs"], "all real angles in [-4,4), three planes, 24 Cliffords, all signed Paulis",
  "Tests use sampled angles; the claim is for every real angle, including those outside [0,2).",
  ["graphix/measurements.py", "graphix/fundamentals.py", "graphix/pauli.py", "graphix/states.py"],
  [("BlochMeasurement.clifford", "graphix/measurements.py"), ("Plane.polar", "graphix/fundamentals.py")])
p("P03", "Pauli, sign and complex-unit arithmetic is exact",
  "Products, negations, conjugations and comparisons of Pauli operators, signs and complex units agree with the corresponding "
  "matrices and complex numbers for every operand combination, and each operation is closed and associative. Every accessor "
  "(matrix, symbol, unit, eigenstates) of a product is consistent with the operands' matrices.",
  ["inputs"], "all 16 phased Paulis and all pairs/triples, all units and signs, numeric factors",
  "Tests enumerate part of the products; mixed operand kinds and eigenstates must agree for all.",
  ["graphix/pauli.py", "graphix/fundamentals.py", "graphix/ops.py"],
  [("Pauli.__matmul__", "graphix/pauli.py"), ("ComplexUnit.__mul__", "graphix/fundamentals.py")])
p("P04", "Standardising a pattern preserves what it computes",
  "Standardising any runnable pattern yields an equivalent pattern in N,E,M,corrections,Clifford order with the same inputs and "
  "outputs: for every measurement outcome combination, every angle and every input state it applies the same quantum operation. The "
  "original pattern is left unchanged when a new one is returned, and patterns whose Cliffords commute with the entangling gates up to Paulis are never refused.",
  ["programs", "inputs"], "all patterns up to the stated size: command orders, domains, angles, planes, Cliffords, outcomes",
  "Tests simulate random circuits on sampled outcomes; an error in a domain or sign shows only for particular commands orders and branches.",
  ["graphix/optimization.py", "graphix/pattern.py", "graphix/clifford.py", "graphix/command.py"],
  [("StandardizedPattern.from_pattern/to_pattern", "graphix/optimization.py")])
p("P05", "Signal shifting preserves the computation and reports the shift",
  "Signal shifting by either method leaves the quantum operation of the pattern unchanged once outcomes are relabelled according to "
  "the returned signals, for every branch, angle, plane and domain. Afterwards no XY measurement keeps a t-domain and no YZ or XZ measurement keeps an s-domain.",
  ["programs", "inputs"], "all patterns up to the stated size with arbitrary domains, planes, angles, outcomes",
  "Tests try one 4-node pattern exhaustively and random circuits for one branch; chained shifts and mixed planes are not covered.",
  ["graphix/pattern.py"], [("shift_signals / shift_signals_direct / shift_outcomes / extract_signal", "graphix/pattern.py")])
p("P06", "Pauli inference, blochification and Pauli pushing preserve the pattern",
  "Inferring Pauli measurements, expressing all measurements as Bloch measurements, and moving Pauli measurements before the others "
  "leave the pattern's quantum operation unchanged in every branch (after relabelling by the reported signals for pushing), and "
  "achieve their stated form: no inferable Pauli angle left, no Pauli description left, no non-Pauli measurement before a movable Pauli one. "
  "With copy=True the original pattern is unchanged; otherwise the same object is returned.",
  ["programs", "inputs"], "all patterns up to the stated size, all planes, signs, domains, outcomes, leave_nodes",
  "Tests simulate random circuits; conflicting-domain and mixed-plane cases are sampled only.",
  ["graphix/pattern.py", "graphix/optimization.py", "graphix/remove_pauli_measurements.py"],
  [("PauliPushingCut.from_standardizedpattern", "graphix/remove_pauli_measurements.py")])
p("P07", "Removing Pauli measurements preserves the computation",
  "Removing the non-input Pauli-measured nodes from a pattern yields a pattern that implements the same quantum operation: each branch of the "
  "result equals, up to normalisation, a branch of the original with the same outcomes on the remaining measured nodes (after the reported signal relabelling) "
  "and the removed nodes taking a possible outcome. No non-input Pauli measurement remains except those that must.",
  ["programs", "inputs"], "all patterns up to the stated size whose inferred Pauli nodes have any axis and sign, any graph, any domains",
  "Graph rewriting by local complementation and pivoting has many cases (axis x sign x neighbourhood); tests only run random circuits and a few graphs.",
  ["graphix/remove_pauli_measurements.py", "graphix/graphsim.py", "graphix/pattern.py"],
  [("remove_pauli_measurements", "graphix/remove_pauli_measurements.py")])
p("P08", "Command-level rewrites preserve the computation",
  "Splitting domains into single-qubit domains, removing useless domains, replacing Clifford commands by measurement gadgets, and replacing "
  "inputs by prepared plus states each yield a pattern with the same quantum operation in every branch (fresh gadget outcomes averaged or corrected), "
  "with the promised shape: domains of size at most one, no Clifford commands, no inputs.",
  ["programs", "inputs"], "all patterns up to the stated size, all 24 Cliffords, all domains, outcomes and angles",
  "Tests check sampled random patterns and outcomes.",
  ["graphix/optimization.py", "graphix/pattern.py", "graphix/clifford.py"],
  [("single_qubit_domains, remove_useless_domains, remove_local_clifford_commands", "graphix/optimization.py")])
p("P09", "Space and depth optimisation preserve the computation and meet their bounds",
  "Space-minimising and parallelising a pattern preserve its quantum operation in every branch and keep it runnable; the reported maximal space equals the "
  "largest number of simultaneously live qubits when executing the pattern, never increases under space minimisation, and the space-optimal "
  "form attains the minimum over all placements of preparations and entangling gates for its measurement order.",
  ["programs", "inputs"], "all patterns up to the stated size: graphs, measurement orders, domains, outcomes",
  "Optimality and equivalence quantify over all graphs and orders; tests compare a few circuits and hard-coded numbers.",
  ["graphix/space_minimization.py", "graphix/pattern.py", "graphix/optimization.py"],
  [("standardized_to_space_optimal_pattern, minimize_space, pattern_max_space", "graphix/space_minimization.py")])
p("P10", "Composition, renaming and copying of patterns are faithful",
  "Composing two patterns along a node mapping yields the sequential/parallel composition of their operations with the documented input and output order; "
  "reindexing only renames nodes and reordering inputs/outputs only permutes them. A copy (or copy=True result) never changes when the other is transformed in place. "
  "Building a pattern command by command or from any iterables gives the same pattern; replacing its commands leaves nothing of the old ones; patterns compare equal exactly "
  "when commands, inputs and outputs are; mapping a function over the measurements (of a pattern, a standardised pattern or corrections) changes the measurements only.",
  ["programs", "histories"], "all patterns and node mappings up to the stated size, all outcomes; sequences of in-place operations on copies",
  "Tests use hand-picked compositions; aliasing between copies needs specific operation sequences.",
  ["graphix/pattern.py"], [("Pattern.compose, reindex, reorder_*, copy, apply", "graphix/pattern.py")])
p("P11", "The runnability check accepts exactly the runnable patterns",
  "A pattern passes the runnability check if and only if it can be executed command by command: every command acts on live prepared nodes, nothing is prepared "
  "twice or reused after measurement, and domains only mention nodes already measured. When it fails, the reported command, node and reason identify the first offending command. "
  "Standardisation, signal shifting, space minimisation and simulation refuse a pattern that fails the check with that same error, and leave it unchanged.",
  ["programs"], "all command sequences up to the stated length over a small set of nodes, all domains",
  "Tests list a few bad patterns per reason; the check must be exact for every sequence.",
  ["graphix/pattern.py"], [("Pattern.check_runnability, Pattern.add", "graphix/pattern.py")])
p("P12", "Causal-flow search is sound and complete",
  "For every open graph measured in the XY plane, the causal-flow search returns a flow if and only if one exists, and any returned "
  "flow satisfies the causal-flow conditions with a valid layering. Open graphs with other measurement planes are reported as having none or rejected as documented.",
  ["inputs"], "all open graphs up to the stated number of nodes, all input/output sets",
  "Tests hold a finite list of graphs; completeness quantifies over all graphs and all correction functions/orders.",
  ["graphix/flow/_find_cflow.py", "graphix/opengraph.py", "graphix/flow/core.py"],
  [("find_cflow", "graphix/flow/_find_cflow.py")])
p("P13", "Generalised-flow search is sound and complete",
  "For every open graph measured in the XY, XZ and YZ planes, the gflow search returns a gflow if and only if one exists, and any returned gflow satisfies the "
  "gflow conditions for its partial order. The layering it returns is a valid measurement order with outputs last.",
  ["inputs"], "all open graphs up to the stated number of nodes, all plane assignments, all input/output sets",
  "Same: a finite list of graphs cannot settle existence over all correction functions and orders.",
  ["graphix/flow/_find_gpflow.py", "graphix/_linalg.py", "graphix/opengraph.py", "graphix/flow/core.py"],
  [("compute_correction_matrix / AlgebraicOpenGraph", "graphix/flow/_find_gpflow.py")])
p("P14", "Pauli-flow search is sound and complete",
  "For every open graph with planar and Pauli measurements, the Pauli-flow search returns a Pauli flow if and only if one exists, and any returned flow "
  "satisfies all nine Pauli-flow conditions for its partial order.",
  ["inputs"], "all open graphs up to the stated number of nodes, all label assignments (3 planes, 3 axes), all input/output sets",
  "Same as P13, with the larger label set and the algebraic shortcuts for Pauli labels.",
  ["graphix/flow/_find_gpflow.py", "graphix/_linalg.py", "graphix/opengraph.py", "graphix/flow/core.py"],
  [("compute_correction_matrix / AlgebraicOpenGraph.PauliFlow variants", "graphix/flow/_find_gpflow.py")])
p("P15", "A pattern built from a flow is deterministic and correct",
  "For every open graph with a causal, generalised or Pauli flow, the corrections derived from the flow and the pattern built from them are runnable and strongly "
  "deterministic: every branch implements, up to phase and with equal probability, the operation of the all-zero-outcome branch. That operation is the open graph's own postselected map, including its output Cliffords. A measurement order given explicitly is followed, and refused exactly when it is not an order of the layers.",
  ["inputs", "programs"], "all open graphs with flow up to the stated size, all angles, all outcomes, all inputs",
  "Tests simulate a few graphs with random angles for random outcomes.",
  ["graphix/flow/core.py", "graphix/opengraph.py", "graphix/flow/_partial_order.py"],
  [("PauliFlow.to_corrections, XZCorrections.to_pattern, OpenGraph.to_pattern", "graphix/flow/core.py")])
p("P16", "Flow and correction validators accept exactly the valid objects",
  "The well-formedness checks of causal flows, gflows, Pauli flows and XZ-corrections raise an error exactly when the object violates one of its defining conditions "
  "(for any correction sets and any layering), and accept every object that satisfies them. The error names a condition, node or layer that really is violated and shows it. A flow is reported as focused exactly when it is, and Pauli strings are extracted from focused flows only.",
  ["inputs"], "all correction functions and layerings on open graphs up to the stated size",
  "Tests give one example per error; exactness over arbitrary correction functions is not reachable by examples.",
  ["graphix/flow/core.py", "graphix/flow/exceptions.py"], [("check_well_formed methods", "graphix/flow/core.py")])
p("P17", "Flow, corrections and order extracted from a pattern describe that pattern",
  "The open graph, XZ-corrections, causal flow, gflow and Pauli flow extracted from a pattern reproduce, when turned back into a pattern, the same operation branch by branch; "
  "the extracted layers respect every correction dependency, so that measuring them in order is a valid execution, and each node appears exactly once.",
  ["programs", "inputs"], "all patterns built from flows and all standard patterns with arbitrary acyclic domains up to the stated size",
  "Round-trips are only tested on a list of graphs.",
  ["graphix/flow/core.py", "graphix/optimization.py", "graphix/pattern.py", "graphix/flow/_partial_order.py"],
  [("to_causalflow/to_gflow/to_pauliflow/to_xzcorrections/partial_order_layers", "graphix/pattern.py")])
p("P18", "Open-graph operations are faithful",
  "Composition, relabelling-insensitive comparison, conversion to Bloch or Pauli form and neighbourhood queries of open graphs agree with the graph-theoretic and "
  "linear-map definitions: composing open graphs along outputs and inputs that share no edge and whose Cliffords commute with the entanglement added after them composes the maps of their postselected patterns, every other merge follows the documented merging rules, tolerances given to comparison and inference are the ones used, and invalid open graphs are rejected on construction.",
  ["inputs"], "all pairs of open graphs and mappings up to the stated size, all measurement labels and angles",
  "Tests compose a handful of graphs.",
  ["graphix/opengraph.py"], [("OpenGraph.compose, neighbors, odd_neighbors, isclose, to_bloch", "graphix/opengraph.py")])
p("P19", "Transpiling a circuit yields a pattern implementing that circuit",
  "For every circuit over the supported gate set and every gate angle, the transpiled pattern implements the circuit's unitary (or instrument, with the circuit's measurements) "
  "on its output qubits in the documented order, with every measurement branch giving the same result. Classical outputs map to the right pattern nodes.",
  ["programs", "inputs"], "all circuits up to the stated length and width, all real gate angles, all measurement outcomes, all inputs",
  "Tests compare random circuits for one random branch and random angles.",
  ["graphix/transpiler.py", "graphix/instruction.py", "graphix/flow/core.py"],
  [("Circuit.transpile, instructions_to_jcz, jcz gadgets", "graphix/transpiler.py")])
p("P20", "Circuit rewrites and circuit semantics are faithful",
  "Rewriting a circuit (J/CZ decomposition, swap removal, rewriting measurements to the Z basis, visiting/mapping instructions, inserting parameters) preserves its unitary and measurement "
  "statistics for every angle, and direct circuit simulation applies exactly the product of its gate matrices in order. Copies are independent of the original.",
  ["programs", "inputs"], "all circuits up to the stated length and width over the full gate set, all real angles",
  "Tests check random circuits numerically; single-gate decompositions must hold for every angle and every qubit order.",
  ["graphix/transpiler.py", "graphix/instruction.py", "graphix/ops.py"],
  [("instructions_to_jcz, transpile_swaps, transpile_measurements_to_z_axis, simulate_statevector", "graphix/transpiler.py")])
p("P21", "Circuit extraction from a Pauli flow reproduces the pattern",
  "For every open graph with Pauli flow and as many inputs as outputs needed, extracting a circuit from the flow gives a circuit whose unitary (isometry) equals the pattern's operation up to global phase "
  "for all angles. The extracted Pauli strings satisfy their defining stabiliser relations.",
  ["inputs", "programs"], "all open graphs with Pauli flow up to the stated size, all planes/axes and angles",
  "Tests extract random circuits and compare numerically.",
  ["graphix/circ_ext/extraction.py", "graphix/circ_ext/compilation.py"], [("extract_circuit, compile passes", "graphix/circ_ext/extraction.py")])
p("P22", "OpenQASM 3 export denotes the same program",
  "Exporting a circuit or a pattern to OpenQASM 3 gives a program whose standard gate semantics reproduces the circuit's unitary and measurements, respectively the pattern's operation "
  "including its feed-forward conditions in every branch, for every supported instruction, angle and Clifford.",
  ["programs", "inputs"], "all single instructions and short sequences over all qubit orders, all angles; all patterns up to the stated size",
  "Tests parse exports of random circuits with an external tool when installed; conditions and rare gates are sampled.",
  ["graphix/qasm3_exporter.py", "graphix/pattern.py"], [("circuit_to_qasm3_lines, pattern_to_qasm3_lines", "graphix/qasm3_exporter.py")])
p("P23", "Statevector operations equal their linear-algebra definition",
  "Adding nodes, entangling, applying one- and multi-qubit operators, swapping, projecting, removing and permuting qubits, expectation values and norms on a statevector equal the textbook tensor formulas for "
  "every amplitude vector, operator and qubit position, and out-of-range positions are rejected.",
  ["inputs"], "all complex amplitudes (symbolic), all operators (symbolic entries), all qubit positions up to the stated qubit number",
  "Tests use random vectors and a few positions; index arithmetic must be right for every position and amplitude.",
  ["graphix/sim/statevec.py", "graphix/sim/base_backend.py"], [("Statevec kernels", "graphix/sim/statevec.py")])
p("P24", "Density matrices and channels are physical and correct",
  "Density-matrix operations equal the definition rho -> U rho U^dagger / partial trace / Kraus sum for every matrix and position; the built-in Kraus channels are trace preserving and match their documented "
  "probabilities for every parameter value in range, and invalid parameters or channels are rejected.",
  ["inputs"], "all matrices (symbolic entries), all positions up to the stated size, all real channel parameters",
  "Tests use random matrices and a few probabilities.",
  ["graphix/sim/density_matrix.py", "graphix/channels.py", "graphix/linalg_validations.py"],
  [("DensityMatrix kernels, KrausChannel constructors", "graphix/sim/density_matrix.py")])
p("P25", "Pattern simulation executes commands with correct feed-forward",
  "Running a pattern on a backend applies exactly the pattern's commands in order: each measurement uses the XOR of the outcomes in its domains, each correction is applied exactly when its domain has odd parity, results are "
  "recorded for every measured node, noise (of any kind, user-defined included) acts on the nodes it names in the order it names them, and the outputs appear in declared order. This holds for every sequence of outcomes produced by the branch selector and for every backend.",
  ["programs", "histories"], "all patterns up to the stated size, all outcome sequences, arbitrary inputs",
  "Tests average or sample outcomes; feed-forward must be right for every branch.",
  ["graphix/simulator.py", "graphix/sim/base_backend.py"], [("PatternSimulator.run, MeasureMethod, Backend.measure", "graphix/simulator.py")])
p("P26", "Branch selection follows the requested policy and the Born rule",
  "Each branch selector returns the prescribed outcome (constant, fixed per node, or drawn with the true conditional probability of outcome 0), never evaluates more than it needs, and a backend measurement reports "
  "the outcome's true probability and leaves the correctly projected, normalised state. Seeds passed by the user are honoured.",
  ["inputs", "configurations"], "all probabilities in [0,1], all random draws, all fixed/partial result maps, all states",
  "Tests check frequencies statistically and a few fixed cases.",
  ["graphix/branch_selector.py", "graphix/sim/base_backend.py"], [("RandomBranchSelector.measure, FixedBranchSelector.measure", "graphix/branch_selector.py")])
p("P27", "Noise models insert exactly the declared noise",
  "Transpiling a pattern with a noise model keeps the pattern's commands in order and inserts the declared channels at the declared places with the declared parameters; composing models applies each in order, "
  "zero-strength noise leaves results unchanged, and classical-readout noise flips the recorded outcome with the declared probability.",
  ["programs", "configurations"], "all commands, all parameter values in [0,1], compositions of models, all random draws",
  "Tests check hand-computed density matrices for a few parameters.",
  ["graphix/noise_models/noise_model.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/simulator.py"],
  [("NoiseModel.command/confuse_result, ComposeNoiseModel", "graphix/noise_models/noise_model.py")])
p("P28", "Parameter expressions behave like the affine functions they denote",
  "Arithmetic on symbolic angle parameters (sum, difference, product, quotient, negation, comparison, substitution, simultaneous substitution) denotes the corresponding real function: substituting values commutes with every operation, "
  "and substituting all parameters of a pattern or circuit gives the same object as building it with those values. Parameters with the same name stay distinct.",
  ["inputs", "programs"], "all real coefficients and values, all expression shapes up to the stated size",
  "Tests use sampled coefficients; cancellation and mixed operand orders are not covered.",
  ["graphix/parameter.py", "graphix/pattern.py", "graphix/transpiler.py"], [("AffineExpression, with_parameter(s)", "graphix/parameter.py")])
p("P29", "GF(2) linear algebra is exact",
  "For every binary matrix: matrix product, rank, right inverse, null space, Gaussian elimination and back substitution return results that satisfy their defining equations over GF(2), and report absence (no inverse, no solution) exactly when there is none.",
  ["inputs"], "all binary matrices and right-hand sides up to the stated dimensions",
  "Tests use a list of matrices; each routine must hold for every matrix, including rank-deficient ones.",
  ["graphix/_linalg.py"], [("MatGF2", "graphix/_linalg.py")])
p("P30", "Graph-state simulation matches stabiliser semantics",
  "Local complementation, Clifford application, entangling and Pauli measurements on the graph-state simulator keep the represented state equal to the one obtained by the same operations on statevectors, for both measurement outcomes, "
  "up to global phase, and reported outcomes are possible.",
  ["histories", "inputs"], "all graphs, vertex Cliffords and operation sequences up to the stated size",
  "Tests apply a few operations to fixed graphs.",
  ["graphix/graphsim.py"], [("GraphState operations", "graphix/graphsim.py")])
p("P31", "Resource-graph decomposition covers exactly the target graph",
  "Decomposing a graph state into GHZ and linear cluster resource graphs terminates and yields stars (GHZ) and paths (linear), each within its size limit, that together cover every edge exactly once and every node, the largest star being as large as the graph and the limit allow; the fusion links are exactly the shared nodes between two resources.",
  ["inputs"], "all graphs up to the stated number of nodes, all size limits (GHZ at least 3 nodes, linear at least 2)",
  "Tests check a few graphs with expected decompositions.",
  ["graphix/extraction.py"], [("get_fusion_network_from_graph, get_fusion_nodes", "graphix/extraction.py")])
p("P32", "Printed angles, commands and representations are unambiguous",
  "The representation (repr) of patterns, commands, measurements, Clifford gates, Pauli operators and parameterised expressions evaluates back to an equal object; the representation of an instruction names its gate, its qubits and its angle. The human-readable forms (ASCII, LaTeX, Unicode) of commands, patterns, flows, corrections and Pauli strings state the exact command kinds, node labels, measurement planes or axes, angles (recognised fractions of pi up to the maximal denominator, the number itself otherwise), signal domains and Clifford names, in the order of the object, so that objects that differ in these respects never print alike; the state of a prepared node is not part of the human-readable form. When the number of printed commands is limited, exactly the omitted ones are counted.",
  ["inputs", "programs"], "all commands and patterns up to the stated size, all angles representable as fractions of pi up to the stated denominator",
  "Tests compare a few printed strings.",
  ["graphix/pretty_print.py", "graphix/repr_mixins.py", "graphix/command.py", "graphix/measurements.py"],
  [("angle_to_str, command_to_str, pattern_to_str", "graphix/pretty_print.py")])
p("P33", "Tensor-network simulation agrees with the pattern's operation",
  "Simulating a pattern on the tensor-network backend (with the parallel, sequential or automatic preparation of the graph) asks the branch selector once for each measurement, in order, with probability 1/2 for nodes that have neighbours and with the actual probability of outcome 0 for isolated nodes, records its answers, and yields a network whose basis coefficients, state vector and norm are those of the pattern's branch for these outcomes, whatever the angles. The operations of MBQCTensorNet (adding qubits in named or given states, preparing a graph state, applying one- and multi-qubit operators, measuring in a Pauli basis or on a vector) act as the corresponding operations on the state, its readings (basis_coefficient, basis_amplitude, to_statevector, flatten, norm, expectation_value) give the corresponding quantities of the state in the order of the given nodes without changing the network, and working on a copy leaves the original alone.",
  ["programs", "inputs"], "all patterns up to the stated size with |+> inputs, all angles, branches, states, operators and graphs",
  "Tests compare random circuits numerically; they cannot cover every branch, angle and operator order.",
  ["graphix/sim/tensornet.py"], [("MBQCTensorNet, TensorNetworkBackend", "graphix/sim/tensornet.py")])
p("P34", "Drawings show exactly the graph, roles, layers and corrections",
  "OpenGraph.draw, PauliFlow.draw (all flows), XZCorrections.draw and Pattern.draw draw each node once at its own place (column = layer), "
  "inputs as squares, outputs and (if asked) Pauli-measured nodes filled, every edge once, every correction as one arrow from the measured "
  "to the corrected node in the colour of its kind, and the labels, legend, distances, size and file asked for by the options. "
  "Lines join the nodes they connect and stay clear of the other nodes.",
  ["inputs"], "all open graphs, flows, correction sets, patterns, options and node distances",
  "Tests compare images of a few examples; options, correction sets and layouts combine freely.",
  ["graphix/visualization.py", "graphix/pattern.py", "graphix/opengraph.py"],
  [("GraphVisualizer", "graphix/visualization.py"), ("Pattern.draw", "graphix/pattern.py")])

p("P35", "Random generators only produce valid objects of the requested kind",
  "Whatever is drawn: random Hermitian matrices are Hermitian, density matrices have trace 1, no negative populations and at most the requested rank, state vectors have norm 1, "
  "channels are trace preserving with the requested number of Kraus operators (Pauli channels: distinct Pauli operators), invalid ranks are refused; random gates have one rotation layer per "
  "depth and exactly the given pairs (any iterable) with the requested kind of gate in every entangling layer; random circuits use distinct qubits, only and all the requested kinds of gate, "
  "one single-qubit gate per qubit and layer, and every rotation by every given parameter (any iterable) can be drawn.",
  ["inputs"], "all random draws (symbolic reals), sizes, ranks, depths, flags and pair lists up to the stated size",
  "Tests draw a handful of samples from one seed.",
  ["graphix/random_objects.py", "graphix/channels.py", "graphix/ops.py"], [("rand_* functions", "graphix/random_objects.py")])
p("P36", "Printed amplitudes, states and density matrices denote their value",
  "The text printed for a complex number, and the drawing of a statevector or a density matrix, denotes the given value when read back: the value (or the square of each part) within the "
  "tolerances asked for, decimals with the requested precision, denominators up to the requested maximum and squarefree radicands, in ASCII, Unicode and LaTeX alike. Sums in front of kets and "
  "factored prefactors are parenthesised so that each basis state keeps its own amplitude and no basis state is lost, added or relabelled; draw passes the requested encoding and tolerances on.",
  ["inputs"], "all real and complex numbers in [-30, 30], all tolerances, precisions and formats listed, states of 1-2 basis states, parametric amplitudes, 2x2 matrices",
  "Tests print some recognised numbers; which branch (fraction, root, polar, decimal, factored) is taken depends on the value.",
  ["graphix/pretty_print.py", "graphix/sim/statevec.py", "graphix/sim/density_matrix.py"],
  [("complex_to_str / statevec_to_str / density_matrix_to_str", "graphix/pretty_print.py"), ("Statevector.draw", "graphix/sim/statevec.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
