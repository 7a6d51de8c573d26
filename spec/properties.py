# One entry per property; engine/gen.py writes properties.jsonl and MANIFEST.json from it.
OBLT = "static analysis of the compiler's IR: obligations over unconstrained parameters discharged by whole-obligation inlining and dataflow simplification (SCCP, GVN, constraint elimination, loop peeling, case partitioning)"
OBLN = "Each obligation is decided for all values of its free parameters (labels, weights, indices), at the model sizes and instantiations that the obligation fixes. Trusts clang 18, the soundness of LLVM's scalar transformations and a by-contract model of libstdc++'s tree primitives. A violation is reported only with a constant instance that folds to the failure; an obligation that is neither proved nor refuted is listed as undecided in the evidence and raises no alarm."
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech=OBLT, note=OBLN, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note, na=na))
I = "include/opengm/"

prop("C01", "A model's energy is the operator-combination of its factors' values",
 "Evaluating a graphical model on a labeling returns exactly the combination, under the model's operator and starting from the operator's neutral element, of every factor's function applied to the labels of that factor's variables in the factor's variable order. This holds for every operator the library ships, for every mix of function types in one model, whether functions are shared between factors or not, and an individual factor's value is the value of its function at the labels it is given.",
 ["inputs","configurations"], "all labelings, function parameters, operators, function-type mixes and factor/variable arrangements",
 "the unit tests evaluate a handful of fixed models with fixed tables; the claim is for all table contents, label values, sharing patterns and operators",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx", I+"graphicalmodel/graphicalmodel_function_wrapper.hxx"],
 [("GraphicalModel::evaluate", I+"graphicalmodel/graphicalmodel.hxx"), ("Factor::operator()", I+"graphicalmodel/graphicalmodel_factor.hxx"), ("FunctionWrapper dispatch on the function type index", I+"graphicalmodel/graphicalmodel_function_wrapper.hxx")])

prop("C02", "Factor/variable incidence and model structure are consistent",
 "After any sequence of adding functions and factors (in one step, or deferred and then finalized), a factor lists exactly the variables it was added with in that order, and a variable lists exactly the factors that contain it, in ascending order and each once. Counts, factor orders, variable adjacency, connectivity and the structural predicates a model reports (maximal order, acyclic, chain, connected) agree with that incidence.",
 ["histories","inputs"], "all sequences of addFunction/addFactor/addFactorNonFinalized/finalize and all variable index choices",
 "tests check a few fixed constructions; the two construction routes must agree for every sequence",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphviews/factorgraph.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx"],
 [("addFactor / addFactorNonFinalized / finalize", I+"graphicalmodel/graphicalmodel.hxx"), ("FactorGraph queries", I+"graphicalmodel/graphviews/factorgraph.hxx")])

prop("C03", "Misuse that the library checks is rejected in release builds too",
 "Adding a factor, by any route, whose variables are out of range, unordered or repeated ends in an exception in every build mode, debug or release; so do the other argument errors the library checks in every build: assigning a model whose function types the target lacks, growing a space of fixed size, asking the generic submodularity question of an unsupported shape, and building a learnable unary function whose features do not fit. Valid arguments are never rejected.",
 ["inputs","configurations"], "all invalid and all valid argument combinations, with and without debug assertions",
 "tests exercise only valid construction, and only with debug assertions switched on",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"opengm.hxx"],
 [("OPENGM_CHECK / OPENGM_CHECK_OP", I+"opengm.hxx"), ("addFactor argument checks", I+"graphicalmodel/graphicalmodel.hxx")])

prop("C04", "Copies and assigned models are equal to and independent of their source",
 "A copied or assigned graphical model, factor or independent factor evaluates like its source on every labeling and has the same structure. The copy of a model stays valid and unchanged when the source is modified or destroyed, and its factors refer to the copy's own functions.",
 ["histories","inputs"], "all models, labelings and later modifications of either object",
 "tests compare a copy once, while the source is still alive and unmodified",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx"],
 [("GraphicalModel copy constructor and operator=", I+"graphicalmodel/graphicalmodel.hxx"), ("IndependentFactor copy/assign", I+"graphicalmodel/graphicalmodel_factor.hxx")])

prop("C05", "Label functions return the value their family defines",
 "For every parameter and every in-range labeling, Potts, n-ary Potts and generalized Potts functions depend only on which labels are equal, (truncated) absolute and squared difference functions are the weighted (cut-off) distance of the two labels, constant functions are constant, and explicit, sparse and single-site functions return the stored entry of the labels. Each function reports the dimension, shape and number of entries of the label space it was built for.",
 ["inputs"], "all parameters and labels of each function family",
 "tests evaluate a few label pairs with a few parameters",
 [I+"functions/potts.hxx", I+"functions/pottsn.hxx", I+"functions/pottsg.hxx", I+"functions/absolute_difference.hxx", I+"functions/squared_difference.hxx", I+"functions/truncated_absolute_difference.hxx", I+"functions/truncated_squared_difference.hxx", I+"functions/constant.hxx", I+"functions/explicit_function.hxx", I+"functions/sparsemarray.hxx", I+"functions/singlesitefunction.hxx", I+"functions/unary_loss_function.hxx"],
 [("operator() of each function class", I+"functions/"), ("shape/dimension/size of each function class", I+"functions/")])

prop("C06", "Function aggregates and predicates agree with the function's table",
 "The minimum, maximum, both at once, sum, product and structural predicates (Potts for two or more variables, generalized Potts for two to four, submodular for two binary variables, squared and absolute difference) that a function or factor reports are those of its full value table, whether the function computes them generically or by a shortcut. The truncated-difference predicates accept every member of their family. Traversals visit every entry exactly once, in the documented order where there is one.",
 ["inputs"], "all parameters of all function families, all tables",
 "tests compare shortcuts with enumeration only for a few fixed parameters",
 [I+"functions/function_properties_base.hxx", I+"functions/function_properties.hxx", I+"functions/potts.hxx", I+"functions/constant.hxx", I+"functions/pottsn.hxx"],
 [("FunctionBase aggregates", I+"functions/function_properties_base.hxx"), ("per-class overrides", I+"functions/")])

prop("C07", "View functions denote the documented transformation of the viewed function",
 "A view of a factor or function, with some variables fixed, scaled, accumulated over several functions, converted between semirings or taken from another model, returns for every labeling the value obtained by applying that transformation to the underlying values, and reports the remaining shape. It follows later changes of the viewed function.",
 ["inputs"], "all underlying tables, fixed variables, scales and labels",
 "tests use fixed tables and a few fixed variables",
 [I+"functions/view.hxx", I+"functions/view_fix_variables_function.hxx", I+"functions/scaled_view.hxx", I+"functions/accumulated_view.hxx", I+"functions/view_convert_function.hxx", I+"functions/modelviewfunction.hxx"],
 [("operator() and shape of each view", I+"functions/")])

prop("C08", "Function serialization is a loss-free round trip with exact lengths",
 "Serializing a function writes exactly the announced number of indices and values, and deserializing them into any function object of the same type yields a function equal to the original in shape and value. This holds for every serializable function type and parameter.",
 ["inputs"], "all parameters and shapes of every serializable function type",
 "tests round-trip a few models; lengths and every field of every type are not covered",
 [I+"functions/potts.hxx", I+"functions/pottsn.hxx", I+"functions/pottsg.hxx", I+"functions/explicit_function.hxx", I+"functions/constant.hxx", I+"functions/sparsemarray.hxx", I+"functions/singlesitefunction.hxx", I+"functions/truncated_absolute_difference.hxx", I+"functions/truncated_squared_difference.hxx", I+"functions/squared_difference.hxx", I+"functions/absolute_difference.hxx", I+"functions/learnable/lpotts.hxx", I+"functions/constraint_functions/linear_constraint_function.hxx"],
 [("FunctionSerialization specialisations", I+"functions/")])

prop("C09", "Function type identifiers are unique and never change",
 "Every function class that can be stored in a model file has one fixed identifier, no two classes share one, and the identifiers stay those of existing files. A build in which this fails must not pass.",
 ["programs","configurations"], "all pairs of registered function classes and all combinations of them in one model type",
 "no test compares identifiers; a changed identifier still round-trips within one build",
 [I+"functions/function_registration.hxx", I+"functions/"],
 [("FunctionRegistration<F>::Id", I+"functions/")],
 tech="static analysis: type-level encoding (static_assert over FunctionRegistration) plus an AST query that enumerates all registrations",
 note="Compile-time comparison of every identifier with the frozen table and of all pairs with each other; an AST query makes sure no registration is missing from the table.")

prop("C10", "Operations implement their algebra and neutral elements",
 "For each operation (addition, multiplication, minimum, maximum, and, or, log-sum-exp), the neutral element leaves every value unchanged, binary and in-place forms agree, the inverse operation undoes it where one is declared, hyper-operations repeat it, and its ordering relations hold exactly when the first value is better (or as good). Accumulating operations prefer the value their name says and never lose it to their neutral element.",
 ["inputs"], "all values",
 "tests probe a few numbers per operation",
 [I+"operations/adder.hxx", I+"operations/multiplier.hxx", I+"operations/minimizer.hxx", I+"operations/maximizer.hxx", I+"operations/and.hxx", I+"operations/or.hxx", I+"operations/integrator.hxx", I+"operations/logsumexp.hxx", I+"operations/weightedoperations.hxx"],
 [("op / iop / neutral / ineutral / bop / ibop / hop", I+"operations/")])

prop("C11", "Accumulation and factor arithmetic are marginalization and pointwise combination",
 "Accumulating a factor or function over a set of variables gives, for every labeling of the remaining variables, the accumulation of all its entries consistent with that labeling, together with an entry that attains it when one is asked for. Combining two factors with an operator gives, on the union of their variables, the operator applied to the two values selected by the shared labeling.",
 ["inputs"], "all tables, all variable overlaps and all accumulated subsets of the fixed arities",
 "tests check fixed tables with few overlaps",
 [I+"functions/operations/accumulator.hxx", I+"functions/operations/operator.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx", I+"graphicalmodel/graphicalmodel_factor_accumulator.hxx", I+"graphicalmodel/graphicalmodel_factor_operator.hxx", I+"utilities/accumulation.hxx"],
 [("AccumulateAllImpl / AccumulateSomeImpl", I+"functions/operations/accumulator.hxx"), ("BinaryOperationImpl and friends", I+"functions/operations/operator.hxx"), ("Accumulation", I+"utilities/accumulation.hxx")])

prop("C12", "Label spaces report exactly the variables and label counts they were given",
 "A label space built from any sequence of label counts reports that number of variables and, for each, that number of labels; adding a variable returns its index and changes nothing else. The space types that store counts differently (one count for all, per variable, generated by a function, grid) agree wherever they describe the same counts.",
 ["inputs","histories"], "all label counts and all sequences of addVariable/assign",
 "tests build a few spaces",
 [I+"graphicalmodel/space/simplediscretespace.hxx", I+"graphicalmodel/space/discretespace.hxx", I+"graphicalmodel/space/grid_space.hxx", I+"graphicalmodel/space/static_simplediscretespace.hxx", I+"graphicalmodel/space/space_base.hxx"],
 [("numberOfVariables/numberOfLabels/addVariable/assign", I+"graphicalmodel/space/")])

prop("C13", "Coordinate walkers and iterators enumerate the documented sequence",
 "Shape and subset walkers visit every coordinate (respecting fixed or omitted positions) exactly once in first-coordinate-major order. Accessor, subsequence and shape iterators read the element the underlying sequence has at that position, and their distance, order and arithmetic are those of the positions.",
 ["inputs"], "all positions, offsets and fixed coordinate values",
 "tests walk a few shapes",
 [I+"utilities/indexing.hxx", I+"utilities/accessor_iterator.hxx", I+"utilities/subsequence_iterator.hxx", I+"utilities/shape_accessor.hxx", I+"utilities/vector_view.hxx"],
 [("ShapeWalker / SubShapeWalker", I+"utilities/indexing.hxx"), ("AccessorIterator", I+"utilities/accessor_iterator.hxx")])

prop("C14", "Containers keep their abstract contents",
 "The sorted set, small-vector, growing buffers, disjoint-set partition and queue types behave as the abstract set, sequence, partition or priority queue they implement: contents, order, sizes, membership, representative and connectivity answers are those of the operations performed, also across the internal storage switch. Copies are independent of their source.",
 ["histories","inputs"], "all element values and operation sequences of the obligated length",
 "tests run one or two fixed sequences per container",
 [I+"datastructures/randomaccessset.hxx", I+"datastructures/buffer_randomaccessset.hxx", I+"datastructures/fast_sequence.hxx", I+"datastructures/buffer_vector.hxx", I+"datastructures/partition.hxx", I+"utilities/disjoint-set.hxx", I+"utilities/queues.hxx"],
 [("container operations", I+"datastructures/")])

prop("C15", "Multidimensional array views address exactly the entries of their index arithmetic",
 "For every shape, coordinate order and view (sub-range, bound coordinate, permuted, transposed, reshaped), element access by coordinates, by scalar index and by iterator refer to the same entry, and writing one entry changes no other. Array arithmetic and assignment act entry by entry, also between overlapping views and arrays of different coordinate order.",
 ["inputs"], "all entry values, coordinates and the view combinations of the obligated shapes",
 "tests cover a list of shapes with counted-up values",
 [I+"datastructures/marray/marray.hxx"],
 [("View / Marray / Iterator / Geometry", I+"datastructures/marray/marray.hxx")])

prop("C16", "Conditioning a model preserves energy",
 "Building a sub-model by fixing variables yields a model whose energy on any labeling of the free variables equals that of the original on the completed labeling, and the labeling of the original is recovered from that of the sub-model. The same holds per component when the conditioned model is split into connected parts, and for fixing variables or locking labels found persistent.",
 ["inputs","histories"], "all tables, all choices of fixed variables and labels",
 "tests check a single small model",
 [I+"graphicalmodel/graphicalmodel_manipulator.hxx"],
 [("GraphicalModelManipulator::buildModifiedModel / modifiedState2OriginalState", I+"graphicalmodel/graphicalmodel_manipulator.hxx")])

prop("C17", "Decompositions cover the model and re-weight it to the same energy",
 "In a decomposition, every variable and factor of the model occurs in the subproblems as often as the decomposition says, and the sub-factors of a factor together contribute its value once. The library's own decomposers produce valid decompositions with acyclic parts where they promise trees.",
 ["inputs","programs"], "all models of the obligated structures",
 "tests decompose two fixed grids",
 [I+"graphicalmodel/decomposition/graphicalmodeldecomposition.hxx", I+"graphicalmodel/decomposition/graphicalmodeldecomposer.hxx"],
 [("GraphicalModelDecomposition", I+"graphicalmodel/decomposition/graphicalmodeldecomposition.hxx"), ("GraphicalModelDecomposer", I+"graphicalmodel/decomposition/graphicalmodeldecomposer.hxx")])

prop("C18", "Exact solvers return an optimal labeling and its value",
 "On every model of the obligated structure, the solvers that promise optimality there (exhaustive search, dynamic programming on trees) return a labeling no other labeling beats, and the value they report is that labeling's energy, for minimization and maximization alike.",
 ["inputs"], "all factor values on the obligated model structures",
 "tests compare against brute force on a few random tables; ties, signs and orderings of values are not enumerated",
 [I+"inference/bruteforce.hxx", I+"inference/dynamicprogramming.hxx"],
 [("Bruteforce::infer", I+"inference/bruteforce.hxx"), ("DynamicProgramming::infer", I+"inference/dynamicprogramming.hxx")])

prop("C19", "Local search starts where it is told and never ends worse",
 "A move-making solver given a starting labeling returns, for every model of the obligated structure, a labeling in range whose energy is no worse than the start and which no single-variable change improves. Setting the starting point and resetting take effect on the next run.",
 ["inputs","histories"], "all factor values and starting points on the obligated model structures",
 "tests only require some state to be returned",
 [I+"inference/icm.hxx", I+"inference/movemaker.hxx", I+"inference/lazyflipper.hxx"],
 [("ICM::infer", I+"inference/icm.hxx"), ("Movemaker::move / valueAfterMove", I+"inference/movemaker.hxx")])

TS = "static analysis: path-sensitive typestate dataflow on the compiler's IR of every instantiated algorithm"
TSN = "Covers every path of the instantiated infer() through inlined callees, including callbacks; loops are joined, not bounded. Path feasibility is tracked only for the finite flags described in DESIGN.md."
prop("C20", "Visitors are called in the begin, visit, end protocol",
 "On every normal run of an inference algorithm, the visitor is begun exactly once before any step is reported, ended exactly once, and never called again afterwards. An algorithm never returns normally with a begun but unended visitor.",
 ["programs","inputs"], "all paths through every algorithm that takes a visitor",
 "tests use visitors that ignore the protocol",
 [I+"inference/"], [("infer(VisitorType&)", I+"inference/")], tech=TS, note=TSN)
prop("C21", "A visitor's stop request is honoured",
 "After a visitor call asks an algorithm to stop, no further step is reported to the visitor other than the final end, and the algorithm returns. No visitor answer is discarded. The visitors that come with the library ask to stop exactly when the gap or time limit they were given is reached, and otherwise never.",
 ["programs","inputs"], "all visitor call sites and all answers",
 "tests never request a stop", [I+"inference/", I+"inference/visitors/visitors.hxx"], [("return value of visitor(*this)", I+"inference/")], tech=TS, note=TSN)
prop("C22", "Querying the solution has one contract across algorithms",
 "Asking an algorithm for its solution with index one fills the given vector with one label per variable and reports success; any other unsupported index reports an error and never an in-range success. The query does not modify the algorithm.",
 ["inputs","programs"], "all algorithms and all solution indices",
 "tests only ask for index one", [I+"inference/"], [("arg(std::vector<LabelType>&, size_t)", I+"inference/")], tech=TS, note=TSN)
prop("C23", "Running without a visitor equals running with the empty visitor",
 "Calling an algorithm without a visitor does the same as calling it with a visitor that does nothing and never stops it.",
 ["programs"], "all algorithms", "tests check results only, for one of the two entry points",
 [I+"inference/"], [("infer()", I+"inference/")], tech=TS, note=TSN)
prop("C24", "File handles are closed on every path",
 "Every file, group, dataset, dataspace, datatype and property handle that saving or loading opens is closed exactly once on every path that returns, and on error paths before the exception leaves.",
 ["fault_sequences"], "all paths, including each storage call failing", "tests never make a storage call fail",
 [I+"graphicalmodel/graphicalmodel_hdf5.hxx", I+"datastructures/marray/marray_hdf5.hxx"], [("H5*open/H5*create paired with H5*close", I+"datastructures/marray/marray_hdf5.hxx")], tech=TS, note=TSN)
prop("C25", "Storage errors are never dropped",
 "No saving or loading operation returns success after an open, create, read or write on the file reported failure.",
 ["fault_sequences"], "every storage call failing at every call site", "tests never make a storage call fail",
 [I+"graphicalmodel/graphicalmodel_hdf5.hxx", I+"datastructures/marray/marray_hdf5.hxx"], [("status checks", I+"datastructures/marray/marray_hdf5.hxx")], tech=TS, note=TSN)

AST = "static analysis: AST query over the type-checked program (clang LibTooling)"
prop("C26", "Debug assertions never change what the program computes",
 "Building with or without debug assertions gives the same results on valid input: no assertion's condition changes program state.",
 ["configurations","programs"], "all assertions in the library", "the tests run only with assertions on",
 [I+"opengm.hxx", I+"datastructures/marray/marray.hxx"], [("OPENGM_ASSERT / Assert arguments", I+"")], tech="static analysis: interprocedural may-write summaries on IR (plus a lexical rule for uninstantiated templates)", note="Every assertion condition and debug-only block, lifted into a function of its own, must write nothing it did not allocate itself (printing allowed).")
prop("C27", "Objects start in a defined state",
 "Every object the library's public constructors create has all of its scalar members set before anything can read them; results never depend on leftover memory.",
 ["programs","configurations"], "all constructors", "uninitialised reads give the expected value most of the time",
 [I+""], [("constructors", I+"")], tech=AST, note="Definite-initialisation rule over constructors.")
prop("C28", "Deterministic algorithms use no hidden source of variation",
 "Inference algorithms that are not documented as randomized compute the same result on every run: neither wall-clock time, addresses, process state nor a random generator decides their result.",
 ["schedules","programs"], "all algorithms not documented as randomized", "a test run repeats once",
 [I+"inference/"], [("call graph of infer()", I+"inference/")], tech="static analysis: call-graph reachability on IR", note=TSN)

prop("C29", "Constraint and soft-constraint functions charge exactly the violated labelings",
 "Label-order, label-count, linear-constraint, label-cost and sum-constraint functions return, for every labeling, the documented charge: none (or the return value for satisfied) exactly when the labeling satisfies the constraint, else the documented amount. The linear constraints they expose describe the same set of labelings.",
 ["inputs"], "all labels, coefficients and bounds", "tests check a few labelings",
 [I+"functions/constraint_functions/", I+"functions/soft_constraint_functions/", I+"datastructures/linear_constraint.hxx", I+"datastructures/indicator_variable.hxx"],
 [("operator()", I+"functions/constraint_functions/linear_constraint_function.hxx"), ("LinearConstraint / IndicatorVariable", I+"datastructures/")])
prop("C30", "Learnable functions are the weighted sum of their features",
 "A learnable function's value is linear in the weights with the features as coefficients, the derivative it reports for a weight is that coefficient, and changing a weight through the weight vector is visible to all functions that use it.",
 ["inputs","histories"], "all weights, features and labels", "tests use fixed weights",
 [I+"functions/learnable/lpotts.hxx", I+"functions/learnable/lunary.hxx", I+"functions/learnable/lweightedsum_of_functions.hxx", I+"graphicalmodel/weights.hxx"],
 [("operator() / weightGradient", I+"functions/learnable/")])
prop("C31", "Small utilities meet their mathematical contract",
 "Three-valued logic, integer power, sorting and set helpers, disjoint sets, set-partition tables and function identifiers behave as their definitions say; comparison operators are consistent total orders.",
 ["inputs"], "all arguments", "tests probe some arguments",
 [I+"utilities/tribool.hxx", I+"utilities/partitions.hxx", I+"utilities/unsigned_integer_pow.hxx", I+"utilities/sorting.hxx", I+"utilities/functors.hxx", I+"graphicalmodel/graphicalmodel.hxx"],
 [("Tribool", I+"utilities/tribool.hxx"), ("FunctionIdentification comparison", I+"graphicalmodel/graphicalmodel.hxx")])

# properties outside the reach of a static argument
def nap(id, title, statement, over, text, why, files, mech, na): prop(id, title, statement, over, text, why, files, mech, na=na)
nap("C40", "Message passing returns correct marginals on trees",
 "On acyclic models, (tree-reweighted) belief propagation converges to the exact marginals.",
 ["inputs"], "all acyclic models", "fixed tables", [I+"inference/messagepassing/messagepassing.hxx"], [("infer", I+"inference/messagepassing/messagepassing.hxx")],
 "numerical fixed point in floating point over an unbounded number of iterations; no structural necessary condition decides it")
nap("C41", "Reported bounds never exceed the optimum",
 "The bound an algorithm reports is never on the wrong side of the optimal value.",
 ["inputs"], "all models", "fixed models", [I+"inference/dualdecomposition/", I+"inference/trws/"], [("bound()", I+"inference/")],
 "depends on numerical dual values of iterative optimisation; rounding alone can break it, and no static argument bounds it")
nap("C42", "Graph-cut and expansion moves are optimal",
 "Alpha-expansion, alpha-beta-swap and graph-cut steps find the optimal move for submodular models.",
 ["inputs"], "all submodular models", "fixed models", [I+"inference/alphaexpansion.hxx", I+"inference/alphabetaswap.hxx", I+"inference/graphcut.hxx"], [("infer", I+"inference/graphcut.hxx")],
 "needs the correctness of max-flow on arbitrary graphs (external solvers, heap-shaped data with unbounded iteration)")
nap("C43", "LP and ILP based solvers solve the stated relaxation",
 "The LP/ILP solvers build the local polytope relaxation of the model and return its optimum.",
 ["inputs"], "all models", "solvers not available here", [I+"inference/lpcplex.hxx", I+"inference/lpgurobi.hxx"], [("infer", I+"inference/lpcplex.hxx")],
 "CPLEX/Gurobi are not installed, so the code cannot be type-checked or lowered here")
nap("C44", "Malformed model files never corrupt memory",
 "Loading any byte sequence as a model file either fails with an error or yields a valid model.",
 ["inputs"], "all files", "only well-formed files", [I+"graphicalmodel/graphicalmodel_hdf5.hxx"], [("load", I+"graphicalmodel/graphicalmodel_hdf5.hxx")],
 "the loader trusts stored indices and sizes by design; bounding them is a property of run-time values inside libhdf5 buffers")
nap("C45", "Dual decomposition and subgradient methods converge",
 "Iterative dual methods converge to the dual optimum as the iteration limit grows.",
 ["inputs"], "all models", "fixed iteration counts", [I+"inference/dualdecomposition/"], [("infer", I+"inference/dualdecomposition/")],
 "limit behaviour of floating-point iteration")
nap("C46", "Samplers draw from the model's distribution",
 "Gibbs and Swendsen-Wang sampling visit labelings with the model's probabilities.",
 ["inputs"], "all models and seeds", "fixed seeds", [I+"inference/gibbs.hxx", I+"inference/swendsenwang.hxx"], [("infer", I+"inference/gibbs.hxx")],
 "a statement about run-time distributions")
