"""Property texts; `python3 gen.py` writes properties.jsonl and MANIFEST.json from this file and props.py."""
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": mechanism}
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))
prop("C13", "Unfit external data is rejected",
  "Reading curves and surfaces from JSON documents and points from text files either builds the entity the content describes or throws. Content that does not fit (a file that cannot be opened, text that is not JSON, a missing member, a value of another kind, an index past the end of a list, a point with another number of coordinates than the dimension, a number that cannot be read, an unknown entity code) is always rejected by an exception: it is never read through another kind of value, never overruns an array, and never yields a null or empty entity.",
  ["inputs"], "every document and text file, well formed or not",
  "tests read files the library or its authors wrote; content that does not fit is the rule for files from elsewhere and there are unboundedly many ways not to fit",
  ["gbs-io/fromjson.h", "gbs-io/fromtext.h"], "accesses to JSON values, copies of read values, stream and parser results, returns of the readers")

NA = {
 "C20": "The residual at the points is a floating-point quantity fixed by the conditioning of a linear system that depends on the points, parameters and knots; no sound static bound is in reach. What is decidable about it (counts, degrees, lengths that admit a solution) is C07; that the fit is not computed through integers or shorter floats is C11.",
 "C21": "Equality of two piecewise polynomial maps after rearranging poles and knots is an identity over real arithmetic with loops whose bounds are runtime sizes; it needs algebraic proof or execution. The consistency of the resulting definition is C06 and the behaviour on failure is C12.",
 "C22": "That an evaluator returns the derivative of another evaluator is a numerical identity between recurrences over runtime degrees; source analysis decides only domain (C05), purity (C02) and use of the derivative order (C09).",
 "C23": "Equality of the values read back depends on number formatting and parsing inside rapidjson and on the data; reading unfit content is C13, the definition that results is C06.",
 "C24": "Distance to the optimum found by an iterative third-party solver (NLopt) on a non-convex objective cannot be bounded from the source; termination is C14, delivery of solver failures is C03.",
 "C25": "Emptiness of circumcircles, coverage and orientation depend on coordinates and on adaptive floating-point predicates; termination of the mesh loops is C14, races between mesh workers are C01, unchanged inputs of mesh queries are C02.",
 "C26": "Index expressions of the spline and matrix kernels are sums of runtime degrees, spans and counts related through the data of knot vectors; a sound static bound needs those numeric invariants proved over loops. The array accesses whose guards are relations between sizes are decided in C06, C07 and C13.",
}
def _na(id, title, statement, over, text, why, files, mechanism): prop(id, title, statement, over, text, why, files, mechanism)

prop("C01", "Parallel execution is free of shared writes",
  "Whenever the library processes a range in parallel (batch evaluation, transformations, interpolation and approximation set-up, surface building, extrema seeding, mesh generation and quality), the work done for one element never writes memory that the work done for another element of the same run may read or write. Results therefore equal those of a sequential run for every schedule, thread count and range size.",
  ["schedules", "inputs"], "every interleaving of the work items of every parallel algorithm call, for every range length",
  "a data race shows only under particular interleavings and usually above the parallel threshold; tests run a few small ranges and cannot enumerate schedules",
  ["gbs/execution.h", "gbs/bscurve.h", "gbs/bssurf.h", "gbs/basisfunctions.ixx", "gbs/transform.h", "gbs/bscinterp.h", "gbs/bssbuild.h", "gbs/extrema.h", "gbs-mesh/tfi.h", "inc/topology/tessellations.h"],
  "every call of a standard algorithm with a parallel policy, and the threshold/batch helpers that wrap it")
prop("C02", "Const operations modify nothing",
  "Evaluating or querying a curve, surface, function, edge or mesh entity through its const interface changes neither that object, nor any object it refers to, nor any process-wide state. Any number of threads may therefore evaluate the same object concurrently, and a result never depends on which evaluations were made before.",
  ["schedules", "histories"], "every sequence and every interleaving of const calls on shared objects",
  "a hidden cache or static scratch buffer gives right answers in single-threaded tests with few calls; only particular histories or interleavings expose it",
  ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/curves.h", "gbs/surfaces.h", "gbs/curveonsurface.h", "gbs/curvecomposite.h", "gbs/curvetrimmed.h", "gbs/curveoffset.h", "gbs/surfaceofrevolution.h"],
  "const member functions of the geometry classes and everything they call")

prop("C03", "Failures always reach the caller",
  "An error detected anywhere in the geometry and mesh code is delivered to the caller as an exception through every function in between: none of them ends the process or drops it. This includes errors raised while the library processes one element of a range in parallel (a parameter out of bounds in a batch evaluation, a curve that does not meet a network, an optimiser failure, an invalid build in a batch) which reach the caller as in a sequential run, for every range size and thread count.",
  ["inputs", "schedules"], "every failing element at every position of every range processed in parallel",
  "the parallel branch is taken only above a size threshold and the failing element must be in it; an uncaught exception there ends the test process",
  ["gbs/execution.h", "gbs/bscanalysis.h", "gbs/bssbuild.h", "gbs/extrema.h", "gbs/bscinterp.h", "gbs-mesh/tfi.h"],
  "every call of a standard algorithm with a parallel policy, and the helpers that trap and rethrow")
prop("C04", "Results depend only on the arguments",
  "The result of a library function is determined by its arguments: it never depends on random numbers, the clock, the environment, the thread or core count, the schedule of a parallel sum, the memory addresses of the objects involved, or state kept from earlier calls, and no library function outside the input/output modules writes to standard output, touches files, changes process-wide settings or ends the process.",
  ["histories", "schedules"], "every sequence of calls, every machine and every schedule",
  "a hidden cache, a random seed or a schedule-dependent sum shows as an irreproducible last digit or a rare wrong value; tests compare with tolerances and run once",
  ["gbs", "gbs-mesh", "inc/topology", "gbs/execution.h"], "every library function; static objects; reductions")
prop("C08", "Inputs are left unchanged",
  "No library function modifies what its caller hands over as constant: points, knots, weights, curves, surfaces, boundary and section lists passed by const reference, const pointer or const iterator, and the curves and surfaces behind shared pointers passed by value, are the same after the call as before it, also when the function throws.",
  ["inputs", "histories"], "every call of every function, for every argument",
  "a test looks at the result, not at the arguments afterwards; sharing through pointers makes the modification visible only in later, unrelated uses",
  ["gbs/bscinterp.h", "gbs/bscapprox.h", "gbs/bssbuild.h", "gbs/bsctools.h", "gbs/bsstools.h", "gbs/transform.h", "gbs-mesh/tfi.h", "inc/topology"], "const parameters of every library function")

prop("C05", "Evaluation outside the domain is always rejected",
  "Evaluating a B-spline curve, surface, scalar spline function or trimmed curve, or any derivative or iso-parametric curve of it, at a parameter outside the object's bounds in that direction (beyond a rounding tolerance below 1e-5) always throws, whatever derivative order is asked, and never returns an extrapolated value. Every parameter inside the bounds, both ends included, is accepted.",
  ["inputs"], "every parameter value, derivative order, degree, and knot vector, in both directions of a surface",
  "tests evaluate a handful of parameters; a missing test on one side, one direction or one derivative order returns plausible numbers",
  ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/curvetrimmed.h"], "value, derivatives, operator(), isoU, isoV of the spline classes")
prop("C06", "Inconsistent spline definitions are never constructed",
  "Whatever data is passed, a constructed B-spline curve or surface has as many flat knots as poles plus degree plus one and at least degree plus one poles in each direction, its bounds are its first and last knots, and inconsistent pole, weight, knot and multiplicity counts or unordered knots are rejected by an exception. Indexed pole access never returns a pole outside the stored array, and replacing poles or knots by an array of another length is rejected.",
  ["inputs"], "every combination of pole, weight, knot and multiplicity arrays and degrees",
  "tests build well-formed objects and a few malformed ones; each unchecked combination silently produces an object whose evaluation reads outside its arrays",
  ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/basisfunctions.ixx", "gbs/knotsfunctions.ixx"], "constructors, pole accessors and copy/move of poles and knots")
prop("C07", "Construction algorithms reject unusable arguments",
  "Range and flat knot building, parametrization, weight merging, interpolation, approximation, lofting, tangent building, pole grid building and extraction, coordinate search and structured meshing throw when their arguments cannot define a result: too few points, poles or sections for the degree, arrays whose lengths do not match, a coordinate index beyond the space dimension, curves of different degrees or parameter ranges where one is required, or networks of curves that do not touch. No argument combination of this kind goes through to a normal return.",
  ["inputs"], "every combination of array lengths, degrees, counts and indices",
  "tests exercise valid arguments; an accepted invalid combination reads or writes out of range or returns a wrong object only for those inputs",
  ["gbs/math.ixx", "gbs/knotsfunctions.ixx", "gbs/bscapprox.h", "gbs/bssapprox.h", "gbs/bscinterp.h", "gbs/bssinterp.h", "gbs/bssbuild.h", "gbs/extrema.h", "gbs-mesh/tfi.h"], "argument checks at the head of the algorithms")

prop("C09", "No argument is silently ignored",
  "Every argument of every library function can influence what the function returns, what it modifies or the error it raises. The weights, tolerances, counts, degrees, modes, bounds, directions, centres and vertices a caller passes are used; none is dropped or replaced by a default. (Excepted are the few parameters documented or shaped as kept for a common interface, such as the span-reduction flags of the evaluators and the tolerance of the exact mesh predicates.)",
  ["inputs"], "every parameter of every overload, for all values of the other arguments",
  "tests usually pass default or neutral values (weight one, default tolerance, full range), for which ignoring the argument changes nothing",
  ["gbs", "gbs-mesh", "inc/topology", "gbs-io"], "parameters of every library function, including those only forwarded to another overload")
prop("C10", "Every public template compiles when it is used",
  "Every public function and class template of the library, for the dimensions and precisions it supports, and the python, OpenCASCADE and rendering modules built on it, compile when a user calls them with arguments of the documented types, and each self-contained public header compiles when it is the first one included.",
  ["inputs"], "every public template, for curves and surfaces, rational or not, in dimension 1 to 3 and every documented argument combination",
  "a template nobody instantiates is never checked: the library builds and its tests pass while a user's first call does not compile",
  ["gbs", "gbs-mesh", "inc/topology", "gbs-io", "gbs-occt", "python"], "public templates; overload sets; headers")

prop("C11", "Real values keep their precision",
  "No coordinate, parameter, weight, length or other real value of the library passes through an integer, an integer division or a shorter floating-point type on its way from the arguments to the result: a real value becomes an integer only after an explicit rounding or when it is a whole number by construction, a ratio of counts is formed in floating point, and a double precision instantiation computes in double precision throughout.",
  ["inputs"], "every value of every real argument and intermediate of every library function",
  "tests use round numbers, unit intervals and tolerances for which a truncated ratio or a single-precision intermediate gives the same answer",
  ["gbs", "gbs-mesh", "inc/topology", "gbs-io"], "conversions between integers and reals and between real types")

prop("C12", "A failed modification leaves the object as it was",
  "When a member function that modifies a B-spline curve, surface or scalar spline function (replacing poles or knots, inserting or removing knots, raising the degree, trimming, reversing, changing bounds), or a library function that modifies a spline or its pole and knot arrays in place, reports an error by an exception, the object holds the same definition as before the call: all checks precede the first change, or the change is undone.",
  ["inputs", "histories"], "every failing call, whatever the data and whatever was done to the object before",
  "tests check that an error is raised and then drop the object; that it is still usable and unchanged afterwards is not looked at",
  ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/knotsfunctions.ixx", "gbs/bsctools.h", "gbs/transform.h"], "non-const members of the spline classes and in-place spline functions")

prop("C14", "Every operation comes to an end",
  "Every function of the library returns or throws for every input: each iterative algorithm (span search, knot insertion and removal, curve and surface discretization and refinement, Newton and smoothing iterations, mesh generation, refinement and edge recovery, walks around half-edge rings, text reading) advances in every iteration towards an exit that does not depend on convergence or on floating-point accuracy being reached, and every recursion gets smaller towards a base case. No tolerance, degenerate geometry or step size makes it run for ever.",
  ["inputs"], "every input, tolerance and iteration history",
  "a test shows termination for the inputs it runs; the inputs for which a convergence test is never met or a cursor stops advancing are exactly those nobody tried",
  ["gbs/basisfunctions.ixx", "gbs/knotsfunctions.ixx", "gbs/math.ixx", "gbs/bscanalysis.h", "gbs/bssanalysis.h", "gbs/extrema.h", "gbs-mesh/smoothing.h", "inc/topology"], "loops and recursive calls of all library functions")
prop("C15", "The U and V directions are never interchanged",
  "Wherever a surface is built, evaluated, differentiated, edited, approximated, discretized, meshed, written or read, the data of one parametric direction (degree, flat knots, number of poles, parameter, bounds, derivative order, knot span, sample count, JSON member) is used for that direction only: nothing meant for U is used for V or the reverse. The only exchange is a deliberate transposition of a whole surface definition.",
  ["inputs"], "every surface whose two degrees, knot vectors, pole counts or bounds differ",
  "most test surfaces have equal degrees, knots and domains in both directions, for which an interchange is invisible",
  ["gbs/bssurf.h", "gbs/basisfunctions.ixx", "gbs/bssinterp.h", "gbs/bssapprox.h", "gbs/bssbuild.h", "gbs/bsstools.h", "gbs/bssanalysis.h", "gbs-io/fromjson.h", "gbs-io/tojson.h"], "all uses of per-direction data of surfaces")
prop("C16", "Nothing is made of values that were never set",
  "No result, member or decision of the library depends on an indeterminate value: every local scalar, point, array and accumulator is given a value on every path before it is read or returned (early returns, degenerate inputs, zero orders and empty ranges included), and every constructed object, default constructed ones included, has all its members set.",
  ["inputs", "histories"], "every path through every function; every constructor",
  "an uninitialised value is often zero by chance or what an earlier call left on the stack, so that tests pass and the failure appears with another compiler, optimisation level or call history",
  ["gbs/basisfunctions.ixx", "gbs/vecop.ixx", "gbs/bscurve.h", "gbs/bssurf.h", "gbs/bscapprox.h", "gbs/extrema.h", "gbs-mesh", "inc/topology"], "locals, results and constructors of all library functions")

_na("C20", "Interpolation and approximation meet their data",
  "A curve or surface built by interpolation passes through every given point, tangent and curvature at its parameter within rounding of the solver, and an approximation stays within the deviation it reports.",
  ["inputs"], "every set of points, constraints, parameters and degree", "tests compare a few smooth point sets", ["gbs/bscinterp.h", "gbs/bssinterp.h", "gbs/bscapprox.h", "gbs/bssapprox.h"], "linear systems of basis function values solved by Eigen")
_na("C21", "Reparametrizing edits keep the shape",
  "Inserting a knot, raising the degree, splitting into Bezier segments, reversing, changing bounds or converting to rational form leaves the set of points of the curve or surface unchanged.",
  ["inputs"], "every curve and surface, knot and degree", "tests compare sampled points of a few curves", ["gbs/knotsfunctions.ixx", "gbs/bscurve.h", "gbs/bssurf.h"], "rearrangement of poles and knots")
_na("C22", "Derivatives are the derivatives of the values",
  "For every evaluator the value of derivative order d is the d-th derivative of the value of order 0, for rational and polynomial entities, curves on surfaces, offsets, revolutions and reparametrized curves.",
  ["inputs"], "every entity, parameter and order", "tests compare finite differences at a few parameters", ["gbs/basisfunctions.ixx", "gbs/curveonsurface.h", "gbs/surfaceofrevolution.h"], "basis function derivative recurrences and chain rules")
_na("C23", "What is written to JSON is read back equal",
  "A curve or surface written to JSON and read again has the same degree, knots, poles and weights.",
  ["inputs"], "every curve and surface", "tests read fixed files", ["gbs-io/tojson.h", "gbs-io/fromjson.h"], "number formatting and parsing")
_na("C24", "Extrema searches find the nearest point",
  "The point returned by a projection, minimum distance or intersection search is a global optimum within the requested tolerance.",
  ["inputs"], "every pair of entities and tolerance", "tests use a few convex cases", ["gbs/extrema.h", "gbs/solvers.h"], "NLopt searches from sampled starting points")
_na("C25", "Triangulations are Delaunay and cover their domain",
  "A mesh generated from a boundary covers exactly the domain it bounds, with counter-clockwise, non-overlapping triangles whose circumcircles contain no other vertex, constrained edges excepted.",
  ["inputs"], "every boundary, hole and refinement criterion", "tests mesh a few domains", ["inc/topology/tessellations.h", "inc/topology/edgeRecovery.h"], "incremental insertion with robust predicates")
_na("C26", "Kernels stay inside their arrays",
  "No evaluation, knot operation or matrix assembly reads or writes outside its arrays for a consistent definition.",
  ["inputs"], "every consistent curve and surface and parameter", "tests run without sanitizers on regular data", ["gbs/basisfunctions.ixx", "gbs/knotsfunctions.ixx", "gbs/polestools.h"], "index arithmetic over degrees, spans and counts")
