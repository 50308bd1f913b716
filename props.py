"""Which rules decide which property, on which drivers, and the smallest number of analysed instances for a meaningful answer."""
import rules_facts as RF
import rules_mod as RM
import rules_live as RL
import rules_inst as RI
import rules_exc as RE
import rules_tidy as RTI
import rules_uv as RUV
ALL = ["curve", "surf", "interp", "tools", "loft", "anal", "mesh", "tfi", "json", "misc", "mesh2"]
PROPS = {
 "C01": dict(rules=["PAR-RACE"], modes=["par"], drivers=ALL,
   floors={"PAR-RACE.sites": 25, "PAR-RACE.callables": 25},
   rule="no write of a callable run by a parallel algorithm lands on captured or static memory at an address that is the same for two elements",
   technique="interprocedural memory-effect (mod/ref) analysis of parallel callables on LLVM IR", note="sound up to: unresolved callbacks supplied by the user, recursion depth of the heap model (3 levels), lock-protected and atomic accesses are accepted; anything the analysis cannot place is not reported",
   explain="Interprocedural memory-effect summaries over the LLVM IR of every library function the drivers instantiate; every call into a parallel-policy standard algorithm is a site, every library callable reachable from it through the algorithm is checked."),
 "C02": dict(rules=["CONST-PURE"], modes=["const"], drivers=ALL,
   floors={"CONST-PURE.functions": 80, "CONST-PURE.mesh queries": 30},
   rule="the write set of every const member function contains no memory rooted at its object and no static object",
   technique="interprocedural write-set (purity) analysis on LLVM IR", note="every instantiated const member function and every free query of the half-edge mesh; user callbacks and third-party libraries are assumed pure; reference counts, locks and one-time initialised statics are exempt",
   explain="Interprocedural field-sensitive write sets, with virtual calls resolved by class hierarchy, of every instantiated const member function of the library."),
 "C03": dict(rules=["PAR-THROW", "FAILURE"], modes=["thr"], drivers=ALL,
   floors={"PAR-THROW.sites": 25, "PAR-THROW.callables": 25, "FAILURE.functions": 300},
   rule="no exception raised by library code leaves a callable run by a parallel algorithm; a handler inside it keeps what it caught and the function that runs the algorithm throws it afterwards; no library function on the way of a library exception is noexcept or has a handler that drops it",
   technique="interprocedural exception-escape analysis on LLVM IR", note="every parallel call site the drivers instantiate; exceptions raised by user callbacks, allocation failure and third-party code are outside the rule",
   explain="For every call into a parallel-policy standard algorithm, the throw statements of library code reachable from its callables are followed through the invoke/landing-pad structure up to the callable's boundary; trapped exceptions must be kept by the handler and thrown again after the algorithm."),
 "C04": dict(rules=["DETERMINISM"], modes=["det"], drivers=ALL,
   floors={"DETERMINISM.functions": 400},
   rule="no library function calls a random, clock, environment, thread or machine source, writes standard output, files (outside gbs-io), the environment, locale or rounding mode, ends the process, keeps state in a static object, sums floating-point numbers by a parallel reduction, or builds its result in the order of object addresses (walks over pointer-keyed containers, comparisons and hashes of pointers)",
   technique="interprocedural call-effect and static-state analysis on LLVM IR", note="every library function the drivers instantiate; std::cerr diagnostics are allowed; walks over containers ordered or hashed by address are examined for uses that depend on the order",
   explain="The calls of every library function, followed through standard-library code, are compared with the list of sources outside its arguments; the write sets are searched for static objects; parallel reductions over floating-point data are listed."),
 "C08": dict(rules=["INPUT-CONST"], modes=["mod"], mod=RM.rule_inputs, drivers=ALL,
   floors={"INPUT-CONST.functions": 250, "INPUT-CONST.parameters": 800},
   rule="the write set of a library function contains no memory reachable from a const reference, const pointer or const iterator parameter, nor the geometry behind a shared pointer passed by value",
   technique="interprocedural write-set (mod) analysis on LLVM IR", note="all instantiated functions and parameters; half-edge parameters are checked for the entity itself only, since links between mesh entities are shared by design",
   explain="Interprocedural field-sensitive write sets of every instantiated library function, mapped back to its source parameters."),
 "C05": dict(rules=["DOMAIN"], modes=["spec"], env={"GBSA_SPEC": RF.DOMAIN_RE}, post=RF.rule_domain, drivers=["curve", "surf", "tools"],
   floors={"DOMAIN.functions": 12},
   rule="the conditions true at every normal return of an evaluation imply lower - eps <= parameter <= upper + eps with 0 <= eps <= 1e-5, for the bounds of the parameter's own direction, and nothing else rejects a parameter",
   technique="must-hold branch-condition dataflow (return facts) over LLVM IR with linear normal forms", note="all paths of the analysed evaluation functions, interprocedurally; a rejecting condition that cannot be brought to linear form is counted as inconclusive and not reported",
   explain="For every evaluation entry point the set of branch conditions that hold on all paths to a normal return is computed interprocedurally, normalised to linear relations over the parameters and the object's bounds, and compared with the required membership relation."),
 "C06": dict(rules=["DEFINITION"], modes=["spec"], env={"GBSA_SPEC": RF.CTOR_RE}, post=RF.rule_ctor, drivers=["curve", "surf", "interp", "tools"],
   floors={"DEFINITION.ctors": 30, "DEFINITION.accessors": 2, "DEFINITION.replacements": 5},
   rule="the conditions true at every normal return of a constructor imply knots = poles + degree + 1 and poles >= degree + 1 per direction, equal lengths of knots/multiplicities and poles/weights, and a rejection that depends on the knot values; a returned pole address lies in the pole array; a replacement array has the old length; stored bounds are the first and last knot",
   technique="must-hold branch-condition dataflow (return facts) over LLVM IR with linear normal forms", note="all constructors from explicit data of the spline classes; that the order test compares neighbouring knots correctly is decided only as far as its dependence on the knot values",
   explain="Return facts of every data constructor, indexed pole accessor and replacement function, compared with the defining relations of a B-spline; member addresses are taken from what the accessors return, not from names."),
 "C07": dict(rules=["ARGS"], modes=["spec"], env={"GBSA_SPEC": RF.ARGS_RE}, post=RF.rule_args, drivers=["curve", "interp", "tools", "loft", "anal", "mesh", "tfi"],
   floors={"ARGS.functions": 25},
   rule="the conditions true at every normal return imply the documented relation between the arguments",
   technique="must-hold branch-condition dataflow (return facts) over LLVM IR with linear normal forms", note="the listed entry points and overloads; conditions on every element of a collection are decided as existence of a rejecting branch in the loop over it",
   explain="Return facts of the construction algorithms, compared with the documented size, degree and index relations of their arguments."),
 "C09": dict(rules=["ARG-USED"], modes=["live"], live=RL.rule_live, drivers=ALL,
   floors={"ARG-USED.functions": 300, "ARG-USED.parameters": 1500},
   rule="every parameter of every library function reaches, by data or control dependence, something the function returns, writes outside its frame or throws, unless it is listed as kept for a common interface",
   technique="interprocedural backward liveness (data and control dependence) of parameters on LLVM IR", note="may-influence: a parameter used on one path only counts as used; lambdas and call operators are not checked as functions of their own",
   explain="For every instantiated library function, backward slices from its returns, stores outside its frame and throwing calls through data and control dependences, with callee liveness to a fixpoint; a parameter outside every slice is reported."),
 "C10": dict(rules=["INSTANTIATE"], modes=[], extra=[RI.rule], drivers=[],
   floors={"INSTANTIATE.units": 80, "INSTANTIATE.instantiation_requests": 250},
   rule="the compiler's front end accepts every requested instantiation of the public templates, the python, OpenCASCADE and rendering modules, and each self-contained public header on its own",
   technique="compile-time witnesses: explicit instantiation requests type-checked by the compiler front end", note="dimensions 1 to 3 in double precision, the spline classes, interpolation, lofting and JSON in single precision as well; headers that already depend on inclusion order are not required to stand alone",
   explain="One request per public function template and class template of the library, type-checked with clang's front end against the current headers; no code is generated or run."),
 "C11": dict(rules=["PRECISION"], modes=["num"], drivers=ALL, extra=[RTI.rule_tidy],
   floors={"PRECISION.functions": 500, "PRECISION.conversions": 30, "PRECISION.syntax trees": 11},
   rule="every real-to-integer conversion has an explicitly rounded or whole-number operand, no integer quotient (other than size / stride) is converted to a real, and no double-precision function narrows to or widens from single precision",
   technique="conversion dataflow (whole-number lattice) over LLVM IR, integer-division matcher over the typed syntax tree", note="every conversion in every instantiated library function and in the standard algorithms instantiated for it; quotients of integer constants folded by the compiler front end are checked on the syntax tree",
   explain="All conversions between integers, single and double precision in the instantiated library code and the standard algorithms it instantiates; operands of real-to-integer conversions are traced back through arithmetic, selections and min/max to integers or rounding calls."),
 "C12": dict(rules=["ALL-OR-NOTHING"], modes=["exc"], exc=RE.rule_exc, drivers=["curve", "surf", "tools", "misc", "loft", "anal"],
   floors={"ALL-OR-NOTHING.functions": 40, "ALL-OR-NOTHING.throwing": 8},
   rule="on no path does an instruction that writes memory of the modified object precede an instruction that may raise a library exception, unless the exception is caught, the object written back and the exception thrown again",
   technique="interprocedural write/throw ordering (typestate) analysis on LLVM IR", note="library exceptions; allocation failures and user callbacks are outside the rule; objects built in steps (wires, mesh edges, lists of curves being unified) are outside the property",
   explain="For every member that modifies a spline and every function that modifies spline data in place, the instructions that write the object (from the interprocedural write sets) and those that may raise a library exception (from the exception-escape analysis) are ordered along all control-flow paths."),
 "C13": dict(rules=["JSON-KIND", "JSON-FIT", "JSON-RESULT", "JSON-FILE"], modes=["json"], drivers=["json", "misc"],
   floors={"JSON-KIND.accesses": 60, "JSON-KIND.functions": 10, "JSON-FIT.copies": 0, "JSON-RESULT.readers": 8, "JSON-FILE.streams": 1},
   rule="every read of a JSON value that presumes its kind, a member or an index is behind a branch that rejects the others (in the accessor or in the caller); a copy of outside values into a fixed-size array is behind a test that leaves exactly that size; every normal return of a reader passes through the construction of the entity; streams are read and parse results used only after their error tests; no handler drops an error",
   technique="typestate (checked-before-use) dominance analysis of accessor calls on LLVM IR", note="all readers of gbs-io for 2 and 3 dimensional entities; the numeric content (knot order, sizes of the spline data) is rejected by the constructors, see C06; writing is not covered; trailing characters after a number in a text line are not examined",
   explain="Calls of value accessors of the JSON library in every reader, with the branches that reject unfit values; copies into fixed-size arrays with the interval of sizes their guards leave; paths of the readers from entry to return; stream and parser results up to their tests."),
 "C14": dict(rules=["PROGRESS"], modes=["term"], drivers=ALL,
   floors={"PROGRESS.loops": 350, "PROGRESS.functions": 400, "PROGRESS.recursions": 10},
   rule="every loop has an exit test that is evaluated in every iteration and whose counter, iterator, cursor, worklist, stream or bisection interval moves towards it in every iteration; every recursive call makes an integer argument smaller, passes a part of its argument, or is behind a test of the least width of the interval that is split; convergence and accuracy tests alone are no such exit",
   technique="ranking-argument (monotone counter / cursor / worklist) analysis of natural loops and recursion on LLVM IR", note="all loops written in the instantiated library functions; rings of linked half edges are taken to be closed or to end in a null link, loops inside third-party and standard code are not examined, nor is the amount of work bounded",
   explain="Natural loops of every library function; for each exit test evaluated in every iteration the change of its operands over one iteration is computed through phis, selections, inner loops and memory, and compared with the direction the test needs."),
 "C15": dict(rules=["UV"], modes=[], drivers=[], extra=[RUV.rule_uv],
   floors={"UV.functions": 100, "UV.one-direction calls": 60, "UV.two-direction calls": 55},
   rule="a value that describes one parametric direction of a surface (degree, flat knots, parameter, pole count, bound, derivative order, knot span, grid stride, JSON member) is never used where the other direction is meant: as argument, member, stored value, comparison partner, index stride or result",
   technique="direction (type-qualifier) inference over clang's typed, instantiated syntax tree", note="all functions the drivers instantiate; directions are seeded from the accessors and members of the surface classes and from U/V parameters, and propagated through local variables, calls and arithmetic; values whose direction cannot be inferred raise nothing; exchanging the whole definition (transposition) is allowed",
   explain="Every expression of every instantiated library function gets a direction (U, V, both, none); the listed sinks are compared with it."),
 "C16": dict(rules=["UNSET", "CTOR-INIT"], modes=["init"], drivers=ALL, extra=[RUV.rule_uv],
   floors={"UNSET.functions": 400, "CTOR-INIT.classes": 15},
   rule="no local object, out-array or result of a library function is read or returned on a path on which nothing can have written it, and no constructor of a library class leaves a scalar member without a value",
   technique="interprocedural definite-assignment dataflow on LLVM IR (with branch correlation) and member-initialisation check on the syntax tree", note="all instantiated functions, whole objects: an array counts as set once a loop or call may write it, so partly filled arrays and heap blocks are not decided",
   explain="For every local object, array and returned object the paths from its creation to each read are examined for a possible write, through calls; for every constructor the scalar members it leaves unset are listed."),
}
