TECH["C01"] = "property-based testing: random systems and step sequences against a long-double Butcher-tableau reference, with shrinking"
TECH["C07"] = "property-based testing: generated intervals, steps (dyadic and full-resolution), problems and steppers of every category; oracle = exact observation grid, direct stepping of a fresh stepper, long-double reference solution, and a monitor on every dense-output evaluation"
TECH["C08"] = "property-based testing: generated intervals, initial steps and tolerances; oracle = step log of a recording stepper, times at which the system is evaluated, direct stepping, long-double reference solution"
TECH["C09"] = "property-based testing: generated monotone time sequences (repeated, adjacent, dense, sparse, single, empty) in several containers; oracle = the sequence itself, the step log, direct stepping, long-double reference solution"
TECH["C10"] = "property-based testing, differential: generated iterator walks against the observer trace of the matching integrate function"
TECH["C05"] = "property-based testing, model-based: generated trial-step histories (tolerances, weights, maximum step, call forms, step changes) against the accept / reject / step-size rule evaluated in long double on the plain stepper's error estimate"
TECH["C11"] = "property-based testing, stateful: generated histories of steps, interpolation queries, copies and re-initialisations against the underlying controlled stepper, an unqueried twin, the published continuous extension, polynomial solutions and a long-double solution"
TECH["C16"] = "property-based testing: generated (non-autonomous, nonlinear, stiff) systems against an independently coded long-double Rosenbrock stage solution, the stability function, the solution, and the residual of the backward Euler equation"
TECH["C04"] = "property-based testing, model-based: generated histories of steps, resets, initialisations, copies for every k against Adams weights obtained by exact Lagrange integration over the replayed trajectory; polynomial solutions"
TECH["C17"] = "property-based testing: generated systems, substep counts, orders and trial-step histories against Gragg's rule and the Aitken-Neville tableau in long double (row count inferred from the number of evaluations)"
TECH["C15"] = "property-based testing: generated separable Hamiltonians against the replayed kick-drift sequence, the symplectic form by differentiation, reversal, convergence order and direct stepping"
TECH["C21"] = "property-based testing, model-based: generated histories of steps of varying size, resets, copies and initialisations against variable-step Adams weights from exact Lagrange integration over the actual past times; for the controlled stepper all orders that explain the observed history are tracked; reset twins bit for bit"
TECH["C02"] = "property-based testing, differential: generated step histories in which every step is taken in a randomly chosen call form (overload, system by value / reference / temporary, state as container, sub-range, pair, pair of references) and compared with a second stepper that uses one canonical form; interleaved resets and state jumps where the form carries no history"
TECH["C03"] = "property-based testing, metamorphic/differential: generated step histories split over copies, reassignments, resets and interrupted problems compared bit for bit with fresh steppers that saw only the relevant part of the history"
TECH["C12"] = "property-based testing, differential/metamorphic: the same generated case (plain, error-estimating, controlled, dense-output runs with copies) executed with 20+ state representations, number types and scalar/complex encodings against std::vector<double>"
TECH["C13"] = "property-based testing, stateful: generated histories of sizes, adjust_size calls, copies and steps under each resizing policy, with a NaN-filling allocator, checked containers and ASan/UBSan, against a fresh stepper per size"
TECH["C14"] = "property-based testing, model-based: generated runs with step limiters (limit, number of steps needed, rejected trials, stepper kinds, throwing systems) against the unlimited run, the count of steps between observations and the count of failed trials"
TECH["C18"] = "property-based testing, metamorphic: generated runs of every stepper repeated on the reflected, time-reversed, shifted, scaled, permuted, padded and duplicated problem; bitwise comparison wherever floating point permits"
TECH["C19"] = "property-based testing, differential: generated tolerances, maximum steps, stepper objects with identity and problems; every factory form, default argument and convenience call traced against hand construction with the documented values spelled out"
TECH["C20"] = "property-based testing, differential: generated sizes, block counts, thread schedules and histories of split/unsplit, copies and runs on OpenMP, nested-OpenMP and (thread-ranked stand-in) MPI states against the serial state and the same runs on std::vector"
TECH["C22"] = "property-based testing, stateful: generated sequences of integrate/iterator calls on the same counting stepper, system and observer objects under every mix of by-value and by-reference passing, against shared tallies and twin calls with other passing forms"
TECH["C06"] = "property-based testing: generated ensembles of initial value problems (tolerance pair, tolerance kind, direction, start time, first step, driver) integrated by every adaptive stepper; quantiles of error / (tolerance x size x error growth) against a long-double reference solution, and growth of the number of steps against the order"
