#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"

prop("C01","Quadrature nodes are the zeros of the advertised orthogonal polynomial",
"For every node distribution and quadrature type, the generated nodes are, to floating-point accuracy and in strictly increasing order in [-1,1], the nodes the type advertises: equally spaced points, or the zeros of the Legendre or Chebyshev (kind 1 to 4) polynomial for GAUSS, and for RADAU/LOBATTO the exact boundary point(s) together with the zeros of the polynomial orthogonal for the weight multiplied by the boundary factor(s). Requests the type cannot satisfy (too few nodes, unknown names) are refused, and the result for a number of nodes does not depend on what the generator was asked before. The recurrence coefficients and polynomial values the generator offers are those of the advertised orthogonal polynomials.",
["inputs","configurations","histories"],
"All 24 combinations of 6 node distributions and 4 quadrature types, every number of nodes (from the minimum of the type up to several hundred), every order of successive requests to one generator object.",
"The tests compare against numpy/scipy or symmetry for a handful of sizes and mainly GAUSS; they cannot visit every family, size and request order.",
[N],[("three-term recurrence, modified last coefficients, tridiagonal eigenvalues, boundary overwrite","NodesGenerator.getNodes / getOrthogPolyCoefficients / getTridiagCoefficients")],
observe=["NodesGenerator(nodeType, quadType).getNodes(n)"])

prop("C02","Collocation coefficients are exact on every interval",
"For every collocation method on any interval [tLeft,tRight], the nodes are the reference nodes mapped affinely to that interval (boundary nodes exactly on the boundary, others strictly inside), row m of the quadrature matrix integrates exactly from tLeft to node m, the weights integrate exactly over the whole interval, and the node-to-node matrix integrates exactly from one node to the next, for every polynomial of degree less than the number of nodes. The interpolation coefficients for the right boundary evaluate those polynomials exactly at tRight, and the right boundary is reported as node exactly when the quadrature type includes it.",
["inputs","configurations"],
"All 24 node families, numbers of nodes from 1 to several tens (equidistant nodes: up to 16, beyond which double precision does not support the problem), intervals of very different position and length.",
"The tests only use the unit interval, and check internal consistency (Q, S, weights against each other) for a few families with 2 to 6 nodes.",
[CO,L,N],[("affine scaling, boundary handling, integration of the barycentric interpolant","Collocation.__init__, Collocation.S, Collocation.hCoeffs")],
observe=["Collocation(...).nodes/Q/weights/S/hCoeffs/rightIsNode","genQCoeffs('Collocation', ...)"])

prop("C03","Declared collocation order is the exact order of the method",
"For every collocation method, the declared order is exactly the order of the underlying quadrature formula: it integrates exactly every polynomial of degree less than the declared order (never over-claimed), and fails for a polynomial of the next degree (never under-claimed). The declared order does not depend on the interval.",
["configurations"],
"All 24 node families and every number of nodes from 1 (or 2) to 12 or more, several intervals.",
"The convergence tests measure a slope for 2 to 4 nodes with tolerance, and cannot see an order wrong for other families or sizes.",
[CO],[("order formula by node and quadrature type","Collocation.order")],observe=["Collocation(...).order"])

prop("C04","Every Butcher table satisfies its structure and its declared order",
"Every registered Runge-Kutta method has nodes equal to the row sums of its matrix, weights summing to one, a matrix with the structure its name announces (explicit: strictly lower triangular; (E)SDIRK/DIRK: lower triangular, singly-diagonal where announced), and satisfies all the rooted-tree order conditions up to its declared order, which is exactly its order (not higher). Embedded weights satisfy all the order conditions up to exactly the declared embedded order, and differ from the main weights. Implicit methods are A-stable, and stiffly accurate or L-stable where announced.",
["configurations"],
"All registered Runge-Kutta methods under all their names, all rooted trees with up to 6 vertices (as many as the declared order), main and embedded weights.",
"The convergence tests solve only the scalar linear test equation (only the tall trees are seen), with a tolerance; a wrong entry that leaves the linear order intact is invisible.",
[BU],[("coefficient tables, order and orderEmbedded properties","all classes of qmat/qcoeff/butcher.py")],
observe=["RK_SCHEMES[name]().Q/nodes/weights/weightsEmbedded/order/orderEmbedded"])

prop("C05","Additive (IMEX) Runge-Kutta pairs are compatible",
"The explicit and implicit tables published as one additive pair share their nodes (after accounting for a leading zero stage) and, where the pair is designed so, their weights, and satisfy the coupling order conditions (all two-coloured rooted trees) up to the order of the pair. Using the two tables together in a split integration therefore has the order both declare.",
["configurations"],
"All IMEX pairs in the library (ARK222, ARK324L2SA, ARK343, ARK4(3), ARK443, ARK548L2SA, ARK548L2SA2: explicit and implicit parts), all two-coloured rooted trees up to the pair's order.",
"The tests check each table on its own; nothing ever combines an explicit table with its implicit partner.",
[BU],[("pairs of tables sharing c and b","ARK* ERK / ESDIRK classes")],observe=["RK_SCHEMES[name]()"])

prop("C06","Padding a Butcher table does not change the method",
"Adding a left, right or both-sided padding stage to any Runge-Kutta method yields nodes with the requested additional 0 and/or 1, and a table that gives the same step result for every right-hand side: the original table is embedded unchanged, the added stages have zero weight (main and embedded), and the right padding stage is the step update itself. Padding one instance never affects any other instance or the class.",
["configurations","histories"],
"All registered Runge-Kutta methods, all padding choices, main and embedded weights, all construction orders of padded and unpadded instances.",
"The tests check padding on the Dahlquist equation for a few schemes, only main weights, and never in combination with other instances.",
[BU],[("table extension in the constructor","RK.__init__")],
state=[("RK.A, RK.b, RK.c, RK.b2","class-level coefficient tables shared by all instances",BU)],observe=["RK_SCHEMES[name](padding=...)"])

prop("C07","All forms and accessors of Q-coefficients agree",
"For every Q-generator and every combination of the generation options (zero-to-nodes or node-to-node form, interpolation coefficients, embedded weights), under every registered name, the generic function, the generator method and the properties return the same coefficients, in the documented order and shape. The transfer matrices are inverse of each other and map one form to the other, and invalid names, forms or unavailable embedded weights are refused.",
["configurations","inputs"],
"All registered Q-generators under all names and aliases, all parameter sets of a finite menu (node families, paddings), all 8 option combinations.",
"The tests exercise default options on default instances; the product of names, parameters and options is not enumerated.",
[QC,CO,BU],[("option handling","QGenerator.genCoeffs, genQCoeffs"),("T, Tinv, S","QGenerator")],observe=["genQCoeffs(...)","QGenerator.genCoeffs(...)"])

prop("C08","A QDelta generator answers the same whatever was asked before",
"Whatever sequence of requests (single matrix, list of sweeps, node-to-node form, with or without dTau, any sweep index, refused requests included) is made to one QDelta generator, each answer equals that of a brand new generator asked only that question, including the error raised for invalid requests. This holds although the caller overwrites the arrays it receives.",
["histories"],
"All registered QDelta approximations, all request sequences over a finite alphabet (sweep indices None, 1 to M+2 and invalid ones, both forms, scalar and list requests, dTau), with the caller overwriting every returned array.",
"The tests ask each generator one or two questions in one order and never modify a returned matrix.",
[QD,DI],[("per-generator cache of computed matrices","QDeltaGenerator.getQDelta"),("MIN_SR_S matrix cached by MIN_SR_FLEX","MIN_SR_FLEX.computeQDelta")],
state=[("_QDelta","cached matrix or dictionary of matrices by sweep",QD),("_QDelta_MIN_SR_S","cached stiff matrix",DI)],
observe=["QDeltaGenerator.getQDelta/getSDelta/genCoeffs/dTau"])

prop("C09","Multi-sweep QDelta coefficients are those of the single sweeps",
"For a single approximation or any list of approximations, with or without a larger number of sweeps, the k-th matrix returned is the matrix of the k-th approximation of the list (its last one beyond its end) for sweep index k, in the requested form, the optional dTau is that of the first approximation, and shapes are as documented. In the same way, a QDelta generator asked for a list of sweep indices gives the matrix of each index, in the order of the list. Arguments given by the caller are never modified, and empty or too long lists, non-positive or non-integer numbers of sweeps, unknown names and unknown forms are refused.",
["inputs","configurations"],
"All registered approximations under all aliases as single type, all lists up to length 3 over representative types, all numbers of sweeps from None to 6 and invalid ones, both forms, with and without dTau.",
"The tests use a few fixed lists with one number of sweeps; combinations of list length, number of sweeps and form are not enumerated, and arguments are never checked for modification.",
[QD],[("list completion and per-sweep generation","genQDeltaCoeffs"),("k handling","QDeltaGenerator.genCoeffs")],observe=["genQDeltaCoeffs(...)"])

prop("C10","QDelta parameters mean the same whichever way they are given",
"For every QDelta approximation, giving its parameters by position, by keyword, through a Q-generator object (also under the deprecated name), through the generic function or in any mixture gives the same coefficients; parameters given explicitly override those taken from the Q-generator, and unrelated additional parameters are ignored. Giving the Q-generator under both names, or an object that cannot provide the parameters, is refused.",
["inputs","configurations"],
"All registered approximations under all names, all splits of their parameters between positional, keyword and Q-generator (Collocation on several families and intervals, and Runge-Kutta objects), with overrides of each parameter and extra parameters.",
"The tests cover one or two calling styles with consistent parameters, where a wrong precedence cannot be seen.",
[UT,QD,DI,TS],[("argument resolution","utils.useQGen, extractParams")],observe=["QDELTA_GENERATORS[name](...)","genQDeltaCoeffs(name, ...)"])

prop("C11","Time-stepping QDelta matrices are the time-stepping schemes",
"For any increasing nodes and any left boundary not larger than the first node, applying the QDelta matrix together with its dTau coefficients is the same as applying the named time-stepping scheme from node to node (backward Euler, forward Euler, trapezoidal rule, two-step second order explicit) or from the left boundary to each node in parallel (backward Euler, trapezoidal rule). The row sums plus dTau therefore equal the distance of each node to the left boundary, and the result is translation invariant and scales linearly with the time unit.",
["inputs"],
"All six time-stepping approximations under all names, all node sets of up to 5 points from a grid (integer and fractional values, uniform and strongly non-uniform) with several left boundaries, plus all collocation node families on several intervals.",
"The tests integrate a linear problem on a few collocation nodes in [0,1] with zero left boundary.",
[TS],[("step sizes and matrix assembly","TimeStepping.__init__ and computeQDelta/dTau of BE, FE, TRAP, BEPAR, TRAPAR, SOE")],observe=["getQDelta(), dTau"])

prop("C12","Algebraic QDelta matrices have their defining property",
"The Picard matrix is zero, the exact one is Q, the parallel one is the diagonal of Q, the Gauss-Seidel one is the lower triangle of Q, the LDU one is the diagonal factor of Q, and the LU one is the transposed upper factor of the factorization of the transposed Q without pivoting (twice that for LU2), so that the stiff iteration matrix of LU is nilpotent. This holds for every square matrix for which the factorization exists, and the given matrix is never modified.",
["inputs","configurations"],
"All small square matrices over a finite alphabet of entries (sizes 1 to 3), the Q matrices of all collocation families up to 12 nodes and of all Runge-Kutta methods with all paddings.",
"The tests only check shapes/triangularity and use Q matrices for which partial pivoting happens not to permute rows.",
[AL,NU],[("factorizations","LU.computeQDelta, LDU.computeQDelta, lduFactorization")],observe=["getQDelta()"])

prop("C13","Diagonal QDelta coefficients have their defining property",
"Each diagonal approximation returns a diagonal matrix with its defining coefficients: nodes divided by the number of nodes, by a fixed divider, by the sweep index or by its documented multiple; stiff coefficients that make the stiff iteration matrix nilpotent and increase with the nodes; the variable approximation uses nodes/k for the first M sweeps (whose product annihilates the stiff iteration) and the stiff coefficients afterwards; tabulated coefficients are the published ones. Approximations that depend on the sweep do so exactly as documented, treat a missing sweep index as the first sweep, refuse indices below one, and combinations without tabulated or existing coefficients are refused.",
["inputs","configurations"],
"All diagonal approximations, all collocation families with 1 (or 2) to 8 nodes, sweep indices None, -1, 0, 1 to M+3, every table entry, arbitrary node vectors for the node-based ones.",
"The tests check nilpotency for a few families and sizes with a loose tolerance, and the tables not at all.",
[DI,MT],[("coefficient formulas, incremental nonlinear solve, tables","classes of qmat/qdelta/diag.py, tables of qmat/qdelta/mincoeffs.py")],observe=["getQDelta(k), isKDependent"])

prop("C14","Lagrange matrices are exact on polynomials for any points",
"For any distinct interpolation points in any order, any weight algorithm, scaling or scaling reference and any quadrature rule, the interpolation, integration and derivative (first and second order) matrices reproduce exactly the values, integrals over any interval (also reversed, empty or outside the points) and derivatives of every polynomial of degree less than the number of points. Evaluation points on or next to an interpolation point return the interpolated value, evaluating the object as a function gives the same as the matrix whatever the shape of its argument, and automatic weights stay usable where the direct product formula overflows or underflows.",
["inputs","configurations"],
"All ordered point sets of 1 to 4 points from a grid with several scales and shifts, all weight modes and quadrature rules, evaluation points and intervals on a finer grid; sets of up to several hundred Chebyshev points on intervals that overflow or underflow.",
"The tests use sorted Chebyshev or equidistant points on [-1,1] and random polynomials of moderate degree.",
[L],[("barycentric weights and matrices","LagrangeApproximation, computeFejerRule")],observe=["getInterpolationMatrix/getIntegrationMatrix/getDerivativeMatrix/__call__"])

prop("C15","Duplicated interpolation points follow the chosen strategy",
"With duplicated points at any positions, each matrix (interpolation, integration, first and second derivative) has one column per given point, uses only the first (or only the last, as chosen) occurrence of each value, has zero columns for the others, and acts on functions exactly as the matrix built from the distinct points. Ignoring duplicates on request gives the matrix of the sorted distinct points, and unknown strategies are refused.",
["inputs","configurations"],
"All point sequences of length 1 to 4 (5 thorough) over 3 or 4 values in any order and with any repetition, both strategies, all matrix kinds, all weight modes.",
"The tests duplicate a few points of one sorted grid.",
[L],[("index bookkeeping for duplicates","LagrangeApproximation._setupDuplicates / _handleDuplicates")],observe=["getInterpolationMatrix/getIntegrationMatrix/getDerivativeMatrix(duplicates=...)"])

prop("C16","Sparse interpolation is exact to its order, periodic or not",
"The sparse interpolation matrix has one row per output point with at most the requested number of entries, located on the input points nearest to the output point (nearest modulo the period for periodic grids), and reproduces every polynomial of degree less than the requested order at every output point (on the unwrapped stencil for periodic grids). Output points that coincide with an input point copy its value, periodic results do not change when output points move by whole periods, and asking more entries than input points is refused.",
["inputs","configurations"],
"All subsets of 2 to 5 points of a grid at several scales (uniform and non-uniform), every order up to the number of points, all short sequences of output points from a finer grid including coincident, nearly coincident, repeated, outside and shifted by periods.",
"The tests refine one uniform grid; stencil reuse between successive output points, non-uniform grids and scales are not enumerated.",
[L],[("stencil selection and reuse","getSparseInterpolationMatrix")],
state=[("lastClosestPoints/lastInterpolationLine","stencil weights reused from one output point to the next",L)],observe=["getSparseInterpolationMatrix(...)"])

prop("C17","The SDC solver performs the SDC iteration it documents",
"For any linear problem, numbers of steps and sweeps (zero sweeps included), quadrature matrix, constant or sweep-dependent QDelta, with last-node or quadrature step update, the SDC solver returns the initial value followed by exactly the values of the preconditioned fixed-point iteration applied step after step. Monitoring residuals and/or errors does not change the solution and records at each sweep the residual of the collocation system and the error to the exact solution, the reported error is the largest deviation from the exact solution, and inconsistent shapes or unknown monitors are refused.",
["inputs","configurations"],
"All products of small alphabets: complex coefficients, initial values, 1 to 3 steps, 0 to 3 sweeps, matrices of several collocation families and all QDelta kinds, both updates, all monitor subsets.",
"The tests check convergence slopes and a few monitor values; sweep-dependent QDelta, zero sweeps and complex values are barely visited.",
[SD],[("sweep loop, step update, monitors","solveDahlquistSDC, errorDahlquistSDC")],observe=["solveDahlquistSDC(...)","errorDahlquistSDC(...)"])

prop("C18","The Dahlquist solver applies the stability function of the method",
"For every Q-generator, coefficient, initial value, final time and number of steps, the solution of the test problem after i steps is the initial value times the i-th power of the method's stability function R(z)=1+z b^T (I-zA)^{-1} 1, with the main or the embedded weights as requested. The error function is the largest deviation of that solution (or of the given one) from the exact exponential over all steps including the initial one.",
["inputs","configurations"],
"All registered Q-generators (all Runge-Kutta methods with all paddings, collocation families), main and embedded weights, a grid of complex coefficients, initial values, final times and 1 to 4 steps.",
"The tests measure convergence slopes in the asymptotic regime with a real or imaginary coefficient and unit initial value.",
[QC],[("stage solve and update","QGenerator.solveDahlquist, QGenerator.errorDahlquist")],observe=["solveDahlquist(...)","errorDahlquist(...)"])

prop("C19","The expected SDC order is the true order",
"The order announced for SDC after a number of sweeps, for a collocation method, a time-stepping QDelta and a step update strategy, is never larger than the true order of accuracy of the resulting method on the linear test problem. It also never falls below what the sweeps guarantee: one order per sweep (two for the first trapezoidal sweep), plus one for the quadrature update, limited by the order of the collocation method.",
["configurations"],
"All 24 node families with 2 to 4 nodes, the six time-stepping approximations, 0 to 4 sweeps and both updates (last-node update only where the last node is the right boundary).",
"The tests measure slopes over a few step sizes with tolerance, so a method with an accidentally small leading error passes with a wrong announced order.",
[SD],[("order formula with special cases","getOrderSDC")],observe=["getOrderSDC(...)"])

prop("C20","Registries stay consistent under any registration history",
"After any sequence of successful and refused registrations of Q-generators, Runge-Kutta methods and QDelta approximations, every registered class is reachable under its name and all its aliases, no entry of another class was replaced or removed, and a refused registration leaves the registries as they were. Registration refuses name or alias collisions, missing overrides, missing generic constructor arguments, inconsistent tables and classes that cannot be instantiated; newly registered classes are usable at once through the generic functions. Listing the classes of a registry (all, or those of one module) gives each registered class exactly once. The registries are complete whichever modules are imported, in whatever order.",
["histories","programs"],
"All sequences up to length 3 over an alphabet of about twenty valid and invalid class definitions (colliding names, colliding or repeated aliases, inherited aliases, missing overrides, inconsistent tables), starting from the library's own registries.",
"The tests try each kind of invalid class once in isolation and never look at what a refused registration leaves behind.",
[UT,QC,QD,BU],[("name and alias storage","utils.storeClass, register, registerRK, checkAndStore")],
state=[("Q_GENERATORS, QDELTA_GENERATORS, RK_SCHEMES","global registries",QC+", "+QD+", "+BU)],observe=["Q_GENERATORS, QDELTA_GENERATORS, RK_SCHEMES, genQCoeffs, genQDeltaCoeffs"])

prop("C21","No call influences the result of any other call",
"Whatever sequence of public functions and constructors is called before, and although the caller overwrites everything it received, each call returns the same as in a fresh process. No call modifies its arguments or ambient settings of the process (numpy error handling and printing, warning filters, random state, environment).",
["histories"],
"All ordered pairs (triples for a reduced alphabet) over an alphabet of about sixty public calls of all modules, every returned array overwritten in place, each sequence from a fresh process.",
"Unit tests run each call in whatever process state earlier tests left and do not modify results; order dependence and shared arrays are invisible to them.",
[QC,BU,CO,QD,DI,L,N,NU,SD],[("per-call allocation and copies","all public entry points")],
state=[("class attributes and module globals","tables, registries and caches living in the process","all modules")],observe=["public API"])

prop("C22","Generators shared between threads give the sequential results",
"When several threads use the library at the same time, on shared generator objects or independent ones, every call returns what it returns sequentially, no call raises or deadlocks, the generators remain correct afterwards, and the ambient settings of the process (warning filters, numpy error handling) are left as they were, for every interleaving of the threads. This includes registering and listing classes while other threads use the library.",
["schedules"],
"Two threads (three thorough) with one or two requests each on shared QDelta generators (plain, sweep-dependent, doubly cached), shared Q-generators, Lagrange and node objects; every interleaving at source-line granularity with up to two preemptions.",
"No test uses threads, and free-running threads would only sample interleavings.",
[QD,DI,QC,CO,L,N],[("cache filled by plain assignments of complete values","QDeltaGenerator.getQDelta, MIN_SR_FLEX.computeQDelta")],
state=[("_QDelta, _QDelta_MIN_SR_S","lazily filled caches",QD)],observe=["getQDelta/genCoeffs/... called concurrently"])

prop("C23","Numerical utilities compute what they document",
"The numerical order is the slope (with its root mean square deviation) of the regression of log error over log step size, invariant under scaling of errors and steps and exact for exact power laws; the extrapolation matrix is the least-squares polynomial fit of the requested degree evaluated at the requested times, reproducing every polynomial up to that degree; the LDU factorization returns unit lower triangular, diagonal and unit upper triangular factors whose product is the given matrix. The Fejer rule has its documented nodes and integrates exactly all polynomials of degree less than its number of points, with positive weights. A timer reports the wall time between start and stop divided by its scale, also as context manager and when an exception passes through it.",
["inputs"],
"All short sequences of step numbers and errors from an alphabet, all small node/time sets and degrees from a grid, all matrices of size 1 to 3 over a finite alphabet with non-singular leading minors, all Fejer rules up to several hundred points.",
"The tests use one or two examples for each utility.",
[NU,L],[("closed formulas","numericalOrder, getExtrapolationMatrix, lduFactorization, computeFejerRule")],observe=["return values"])

prop("C24","Copies of generators are equivalent and independent",
"A copy, a deep copy or a pickled and restored generator (quadrature nodes, Lagrange interpolation, Q-generator, QDelta generator), made at any point of any sequence of requests, and copies of copies, answer every request as a brand-new object built with the same parameters, in the same process or restored in a worker process that never imported the library. Requests made to a copy or to its original never influence the other, and a deep copy or restored object survives everything being overwritten in its original.",
["histories"],
"Two objects of every kind (all node families, Lagrange objects with and without duplicates, all registered Q-generators and QDelta approximations); every history of requests and of copying, deep copying or pickling one over the other until no new state appears; restoring after every request in processes that never imported the library.",
"No test copies or pickles a generator; lazily filled caches, padded tables and methods bound at construction are exactly what copies get wrong.",
[QD,DI,QC,CO,BU,L,N],[("state kept in instances, class attributes and caches","constructors and lazily filled caches of all generator classes")],
state=[("instance dictionaries","what copy and pickle transfer","all generator classes")],observe=["copy.copy, copy.deepcopy, pickle, then any method or property"])

prop("C25","Only the values of the arguments matter, not how they are stored",
"For every public function and class, numbers and arrays given as lists, tuples, arrays of any memory layout (strided, reversed, transposed, Fortran ordered, unaligned, byte-swapped, read-only) or of any usual number type (signed integers, single precision) that represents the values exactly, and numbers given as Python or numpy numbers, give the same results as double-precision arrays and Python numbers, alone or in any combination of arguments. Single-precision or 8 and 16 bit integer arguments may reduce the precision of the result, never more. Tables and coefficients of methods defined by the user are no exception.",
["inputs"],
"About 290 calls covering every public function and class; every argument in every storage form, every pair of arguments in every pair of forms (about 20 forms of an array, 12 of a number), all arguments in the same form; values at the limits of the small integer types.",
"The tests give one form (usually float arrays); overflow of small integers, in-place operations on read-only arguments and memory-order dependence need a particular combination of forms and values.",
[NU,SD,QD,DI,TS,AL,QC,CO,BU,L,N],[("conversion of arguments","np.asarray / np.array at the entry of public functions and constructors"),("arithmetic on unconverted arguments","solveDahlquistSDC, numericalOrder, lduFactorization, Collocation.__init__, TimeStepping.__init__")],observe=["return values, exceptions"])

prop("C26","SDC sweeps converge to the collocation method exactly as predicted",
"For every collocation method, every QDelta approximation or list of approximations, linear problem and step update, the SDC solver run with the coefficients the library generates gives after every number of sweeps the collocation solution plus the initial error propagated by the product of the iteration matrices of the sweeps. It therefore converges to what the Dahlquist solver gives for the collocation method whenever the iteration contracts (quadrature update, or last node where the right boundary is a node), its residuals then vanish, and the exact approximation needs one sweep only.",
["inputs"],
"All collocation families and node numbers, every QDelta approximation and lists of approximations, coefficients (stiff, oscillating, zero), 0 to 13 sweeps and the number of sweeps to convergence, both step updates, one and several steps, shifted intervals.",
"The tests measure convergence orders on a few combinations; whether coefficients, sweep indices, transfer to the solver and step update fit together for all of them is not tested.",
[SD,QD,QC,CO,DI,TS,AL],[("sweeps","solveDahlquistSDC"),("coefficients","genQCoeffs, genQDeltaCoeffs")],observe=["return values of solveDahlquistSDC, QGenerator.solveDahlquist"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
