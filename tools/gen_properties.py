#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
B = "include/boost/numeric/odeint/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],
            state=[dict(name=a, meaning=b, where=B+c) for a, b, c in state],
            mechanism=[dict(name=a, where=B+c) for a, c in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Explicit one-step methods compute exactly their published scheme",
  "For every right-hand side f(x,t), state, time and signed step, one step of an explicit Runge-Kutta type stepper (Euler, RK4 and its classic form, Cash-Karp 5(4) and its classic form, Dormand-Prince 5, Fehlberg 7(8), user-defined generic Runge-Kutta tableaus) yields the state, the error estimate and the final derivative defined by the published coefficients, with f evaluated at the published stage times and stage states. Nothing but rounding may separate the result from that scheme, whatever the dimension, the sign or size of the step, or the explicit time dependence of f.",
  ["inputs"], "all f (nonlinear, non-autonomous), all x of any dimension, all t, all dt of either sign, all user-supplied explicit tableaus",
  "Unit tests take a handful of steps of one or two constant or linear right-hand sides with one dt; a wrong coefficient or stage time that only shows on time-dependent, coupled or high-order terms is not visible there.",
  ["stepper/euler.hpp","stepper/runge_kutta4.hpp","stepper/runge_kutta4_classic.hpp","stepper/runge_kutta_cash_karp54.hpp","stepper/runge_kutta_cash_karp54_classic.hpp","stepper/runge_kutta_dopri5.hpp","stepper/runge_kutta_fehlberg78.hpp","stepper/explicit_generic_rk.hpp","stepper/explicit_error_generic_rk.hpp","stepper/detail/generic_rk_algorithm.hpp","stepper/detail/generic_rk_call_algebra.hpp","stepper/detail/generic_rk_operations.hpp"],
  [("per-stepper do_step_impl and coefficient tables","stepper/runge_kutta_dopri5.hpp"),("generic stage loop over the tableau","stepper/detail/generic_rk_algorithm.hpp")],
  ["do_step(...) outputs: x_out, xerr, dxdt_out","(t, x) arguments seen by the system function"])

p("C02", "All call forms of a step agree",
  "Every way the API offers to take the same step - in place, into a separate output, with a derivative supplied by the caller, with or without an error estimate, with a stepper, system or state passed through a reference wrapper or as a temporary range or pair - produces the same new state (and error estimate, derivative, step size and time). A form that writes to a separate output leaves the input state and a caller-supplied input derivative unchanged, and exact aliasing forms that the API documents (in place) do not change the result.",
  ["inputs","programs"], "all steppers that have more than one overload, all right-hand sides, states, times and steps",
  "Tests exercise the overloads mostly for compilation, on constant right-hand sides for which an aliasing or stale-buffer mistake gives the same number.",
  ["stepper/base/explicit_stepper_base.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/base/symplectic_rkn_stepper_base.hpp","stepper/modified_midpoint.hpp","stepper/extrapolation_stepper.hpp","stepper/velocity_verlet.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/adams_bashforth.hpp","stepper/adams_bashforth_moulton.hpp","stepper/rosenbrock4.hpp"],
  [("overload dispatch v1..v7","stepper/base/explicit_stepper_base.hpp"),("FSAL overload dispatch","stepper/base/explicit_error_stepper_fsal_base.hpp")],
  ["x, x_out, xerr, dxdt, t, dt after the call"])

p("C03", "One-step methods carry no history between steps",
  "The result of a step depends only on the system, state, time and step size handed in (and, for first-same-as-last and multi-step methods, on the history since the last reset or initialisation), never on what the stepper object was used for before. After a reset or initialisation a used stepper behaves like a new one, and copies or assigned steppers evolve independently of their source yet start with the same behaviour.",
  ["histories"], "all sequences of step, trial-step, reset, initialise, copy, assign and re-use operations over one stepper object with changing systems and states",
  "The tests use each stepper object along one trajectory; leftover buffers, flags or step-size memory only matter after particular sequences of rejections, resets, copies and re-use.",
  ["stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/adams_bashforth.hpp","stepper/adams_bashforth_moulton.hpp","stepper/dense_output_runge_kutta.hpp","stepper/velocity_verlet.hpp","stepper/rosenbrock4_controller.hpp","stepper/detail/rotating_buffer.hpp"],
  [("reset / initialize members","stepper/base/explicit_error_stepper_fsal_base.hpp"),("rotating buffer copies","stepper/detail/rotating_buffer.hpp")],
  ["result of each operation against a fresh stepper"],
  state=[("m_first_call","FSAL derivative cached or not","stepper/base/explicit_error_stepper_fsal_base.hpp")])

p("C04", "Adams multi-step methods follow the Adams formulas over their history",
  "An Adams-Bashforth stepper of k steps advances the state by the k-step Adams-Bashforth formula over the derivatives at the last k points of its own trajectory, and Adams-Bashforth-Moulton by that predictor followed by the implicit Adams formula evaluated once; both start themselves (or are explicitly initialised) with one-step methods and are exact for solutions that are polynomials of the method's degree. This holds for every k from 1 to 8, either time direction, and after any number of steps, resets and re-initialisations.",
  ["histories","inputs"], "all k in 1..8, all f, all step counts, all reset/initialise sequences, copies of the stepper in mid-history",
  "Tests check a single harmonic oscillator or one polynomial and a fixed number of steps; ring-buffer rotation and start-up mistakes show only for particular step counts, orders and non-autonomous f.",
  ["stepper/adams_bashforth.hpp","stepper/adams_moulton.hpp","stepper/adams_bashforth_moulton.hpp","stepper/detail/adams_bashforth_coefficients.hpp","stepper/detail/adams_moulton_coefficients.hpp","stepper/detail/adams_bashforth_call_algebra.hpp","stepper/detail/adams_moulton_call_algebra.hpp","stepper/detail/rotating_buffer.hpp"],
  [("step storage ring buffer","stepper/detail/rotating_buffer.hpp"),("self start","stepper/adams_bashforth.hpp")],
  ["state after every step","calls of the system function"])

p("C05", "An error-controlled step accepts exactly when the error is within tolerance",
  "A trial step of an error-controlled stepper either succeeds - time advances by exactly the step offered, the state is the one the underlying method produces, and the scaled error estimate was within tolerance - or fails, leaving time and state untouched and proposing a strictly smaller step in the same time direction. The next proposed step follows the documented rule of the method (for the Runge-Kutta family: shrink on failure but at most five-fold, grow only when the error is below half the tolerance and at most five-fold, otherwise unchanged), keeps its sign, and never exceeds a configured maximum step (given with the sign of the direction). This is about trials whose states and error estimates stay finite numbers.",
  ["inputs","histories"], "all error-controlled steppers (Cash-Karp, Dormand-Prince, Fehlberg, Rosenbrock, Bulirsch-Stoer, Adams), all tolerances including zero relative or absolute part, all weights, maximum steps, steps of either sign, sequences of trial steps",
  "Tests look at a few accepted steps going forward; rejections at the tolerance boundary, backward integration and maximum-step limits are hardly reached.",
  ["stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/bulirsch_stoer.hpp","stepper/controlled_adams_bashforth_moulton.hpp","stepper/detail/pid_step_adjuster.hpp","util/detail/less_with_sign.hpp"],
  [("default_error_checker / default_step_adjuster","stepper/controlled_runge_kutta.hpp")],
  ["return code, x, t, dt of try_step"])

p("C06", "Adaptive integration delivers accuracy governed by the tolerance",
  "For a smooth, moderately conditioned problem, adaptive integration with any shipped error-controlled or dense-output stepper ends within a moderate multiple of the requested tolerance of the true solution, and tightening the tolerance tightens the error. The same accuracy is reached in either time direction, from any start time, whatever initial step was suggested, and for the convenience call with its default tolerances, and the number of steps grows no faster than the order of the method requires.",
  ["inputs"], "all smooth problems with known solution in the generated families, all tolerances between 1e-3 and 1e-12, all intervals, initial steps and directions",
  "Tests integrate one problem per stepper with one tolerance and compare to a loose bound; silently lost accuracy (wrong error exponent, wrong interpolation, wrong stage) passes.",
  ["integrate/integrate.hpp","integrate/integrate_adaptive.hpp","integrate/detail/integrate_adaptive.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_controller.hpp","stepper/dense_output_runge_kutta.hpp","stepper/controlled_adams_bashforth_moulton.hpp"],
  [("step size control loop","integrate/detail/integrate_adaptive.hpp")],
  ["final state, observed states"])

p("C07", "Equidistant integration observes the exact time grid and ends on it",
  "Integration with a constant observation step calls the observer first at the start time and then at start plus k times the step for every k with that time inside the interval (a grid time that coincides with the interval's end up to rounding counts as inside), computed without accumulating rounding; the fixed-count form does so for exactly the requested number of steps and returns the matching end time. Every observed state is the solution at its observation time to the stepper's accuracy, the caller's state ends as the last observed one, and this holds for every stepper category, both time directions, empty and sub-step intervals, and any number of steps.",
  ["inputs","configurations"], "all intervals (including empty, shorter than one step, not a multiple of the step), signs, start times, step counts, stepper categories (plain, error, controlled, dense output), step-limit checker present or not",
  "Tests use a few forward intervals with a handful of steps; the rarely used branches (one interval only, dense output, negative step, final reduced step, very many steps) are not sampled.",
  ["integrate/integrate_const.hpp","integrate/integrate_n_steps.hpp","integrate/detail/integrate_const.hpp","integrate/detail/integrate_n_steps.hpp","util/detail/less_with_sign.hpp"],
  [("time = start + step*dt","integrate/detail/integrate_const.hpp")],
  ["observer calls (state, time)","return value","caller's state"])

p("C08", "Adaptive integration covers the interval exactly and observes every step",
  "Adaptive integration calls the observer at the start time and after every accepted step, at strictly monotone times, ends exactly at the end time without ever evaluating an accepted step beyond it, leaves the caller's state equal to the last observed one, and returns the number of accepted steps. For fixed-step steppers all steps have the given length except a shortened last one; with dense output every observed state is the stepper's solution at that time; all of it in either time direction and for intervals shorter than one step or empty.",
  ["inputs","configurations"], "all intervals, initial steps of either direction, tolerances, stepper categories, checkers",
  "Tests check only the final time of a few runs; monotonicity, exact end and step counts over arbitrary intervals, rejected last steps and backward runs are not examined.",
  ["integrate/integrate_adaptive.hpp","integrate/detail/integrate_adaptive.hpp","integrate/integrate.hpp","util/detail/less_with_sign.hpp"],
  [("last-step reduction","integrate/detail/integrate_adaptive.hpp")],
  ["observer calls (state, time)","return value","caller's state","times at which the system is evaluated"])

p("C09", "Integration to given time points observes each of them exactly once",
  "Given any monotone sequence of observation times, the observer is called exactly once per entry, in order, with exactly that time and the solution at that time to the stepper's accuracy; the caller's state ends as the solution at the last entry and the returned count is the number of steps taken. Repeated entries, unevenly spaced entries, a single entry, entries closer together or further apart than the step, and descending sequences with a negative step are all covered, for every stepper category and for iterator or range arguments.",
  ["inputs","configurations"], "all monotone sequences of times (length 1..many, repeats, either direction), steps, stepper categories",
  "Tests use one or two short ascending lists; degenerate spacing, repeats and descending lists decide whether an observation is lost, duplicated or displaced.",
  ["integrate/integrate_times.hpp","integrate/detail/integrate_times.hpp","util/detail/less_with_sign.hpp"],
  [("per-category observation loops","integrate/detail/integrate_times.hpp")],
  ["observer calls (state, time)","return value","caller's state"])

p("C10", "Solution iterators and ranges enumerate what the integrate functions observe",
  "Walking the constant-step, fixed-count, adaptive or given-times iterator (or the corresponding range, in the state or the state-and-time form) yields the same sequence of states and times, of the same length, as the matching integrate function calls its observer with. This holds for every stepper category the iterator supports, both directions, empty intervals, and under the iterator operations (copy, comparison with end, pre/post increment, use in standard algorithms). The iterator-based integrate functions pass exactly these elements to the observer and return the number of steps (or, for a fixed count, the time reached).",
  ["inputs","histories","configurations"], "all iterator kinds x stepper categories x intervals x directions",
  "Tests compare a few fixed short walks; agreement over arbitrary intervals, step counts, rejected steps and directions is not sampled.",
  ["iterator/impl/const_step_iterator_impl.hpp","iterator/impl/n_step_iterator_impl.hpp","iterator/impl/adaptive_iterator_impl.hpp","iterator/impl/times_iterator_impl.hpp","iterator/detail/ode_iterator_base.hpp","iterator/const_step_iterator.hpp","iterator/n_step_iterator.hpp","iterator/adaptive_iterator.hpp","iterator/times_iterator.hpp","iterator/const_step_time_iterator.hpp","iterator/n_step_time_iterator.hpp","iterator/adaptive_time_iterator.hpp","iterator/times_time_iterator.hpp","iterator/integrate/integrate_adaptive.hpp","iterator/integrate/integrate_const.hpp","iterator/integrate/integrate_n_steps.hpp","iterator/integrate/integrate_times.hpp","iterator/integrate/observer_collection.hpp"],
  [("increment()","iterator/impl/const_step_iterator_impl.hpp")],
  ["dereferenced values, walk length"])

p("C11", "Dense output interpolates the accepted step consistently",
  "After each step of a dense-output stepper the reported previous and current times bracket the step taken, the interpolated state equals the stored states at both ends (for the midpoint-centred Bulirsch-Stoer interpolation: up to the method's accuracy) and, in between, follows the solution to the method's accuracy. Asking for interpolated states any number of times, in any order, never alters the trajectory, the reported step size is the next step to be tried, the accepted steps are those of the underlying controlled stepper, and re-initialisation restarts cleanly from the given state, time and step.",
  ["inputs","histories"], "all dense-output steppers (interpolating wrappers of plain, error-controlled Dormand-Prince, Bulirsch-Stoer and Rosenbrock), all step sequences, interpolation points, re-initialisations, directions",
  "Tests interpolate along one trajectory at a few points with loose bounds; state swaps after copies, re-initialisation, rejected steps or backward steps are not explored.",
  ["stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/runge_kutta_dopri5.hpp","stepper/euler.hpp"],
  [("calc_state","stepper/dense_output_runge_kutta.hpp"),("calculate_finite_difference / interpolation","stepper/bulirsch_stoer_dense_out.hpp")],
  ["do_step return, calc_state, current/previous state, time, step"])

p("C12", "Results do not depend on the container or algebra that holds the state",
  "The same problem integrated with the same stepper gives the same states, up to rounding, whichever supported state representation is used: dynamic and fixed arrays, lists and deques, scalars and vector-space types, complex numbers, tuples of heterogeneous parts, multi-dimensional arrays, matrix-library vectors and matrices, types with physical units, and nested or parallel algebras. The same holds for the numeric type: lower and higher precision types agree to the coarser precision.",
  ["inputs","configurations"], "all supported state types x algebras x steppers, all dimensions, right-hand sides, times, steps and signs",
  "Tests run each state type for one constant problem of fixed small size; element order, strides, norms over heterogeneous parts and dimension-dependent code are not compared with each other.",
  ["algebra/range_algebra.hpp","algebra/array_algebra.hpp","algebra/fusion_algebra.hpp","algebra/vector_space_algebra.hpp","algebra/multi_array_algebra.hpp","algebra/default_operations.hpp","algebra/detail/norm_inf.hpp","algebra/detail/for_each.hpp","external/eigen/eigen_algebra.hpp","external/gsl/gsl_wrapper.hpp","external/openmp/openmp_range_algebra.hpp","util/ublas_wrapper.hpp","util/copy.hpp"],
  [("for_eachN / norm_inf of each algebra","algebra/range_algebra.hpp"),("algebra_dispatcher","algebra/algebra_dispatcher.hpp")],
  ["final states of all representations"])

p("C13", "Internal buffers follow the state size as the resizing policy promises",
  "With the always-resize policy a stepper may be used with states whose size changes between calls and behaves on each as a stepper made for that size; with the initial policy it adapts on first use; with the never policy it works after an explicit size adjustment. Size means every extent: lengths, shapes, index bases and the parts of composite states. No sequence of sizes, steppers, copies and explicit size adjustments reads or writes outside a state or buffer or uses uninitialised data.",
  ["histories","configurations"], "all resizable state types, all steppers, all policies, all sequences of sizes (growing, shrinking, zero to large), copies in between",
  "Tests check resize call counts for one growth; memory errors only occur for particular size sequences and for buffers of rarely used overloads.",
  ["util/resizer.hpp","util/resize.hpp","util/same_size.hpp","util/is_resizeable.hpp","util/state_wrapper.hpp","util/multi_array_adaption.hpp","stepper/base/algebra_stepper_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/adams_bashforth.hpp","stepper/rosenbrock4.hpp"],
  [("resizer policies","util/resizer.hpp")],
  ["results against a fresh stepper","address sanitizer"])

p("C14", "Step limiters stop exactly the integrations that make no progress",
  "An integration given a step limit of N raises the documented no-progress error exactly when more than N steps are needed between two consecutive observer calls, and otherwise behaves identically to the same call without a limit; the limit counts anew after every observer call. A controlled integration that cannot find an acceptable step raises the documented step-adjustment error after a bounded number of trials instead of running forever, and at any such error the observer has seen only genuine, already completed observations.",
  ["inputs","fault_sequences","configurations"], "all limits N, integrate functions, stepper categories, observation spacings, and right-hand sides that defeat step adjustment (NaN, infinities, discontinuities) from some point on",
  "Tests trigger each error once with one limit; the exact threshold, the reset between observations and non-interference below the limit need generated limits.",
  ["integrate/max_step_checker.hpp","integrate/check_adapter.hpp","integrate/integrate_const.hpp","integrate/integrate_n_steps.hpp","integrate/integrate_times.hpp","integrate/integrate_adaptive.hpp","integrate/detail/integrate_adaptive.hpp","util/odeint_error.hpp"],
  [("checked stepper/observer wrappers","integrate/check_adapter.hpp"),("max_step_checker","integrate/max_step_checker.hpp")],
  ["exception type, observer calls, step counts"])

p("C15", "Symplectic and Verlet steppers are the published, structure-preserving maps",
  "For every separable Hamiltonian system the symplectic steppers (symplectic Euler, the McLachlan composition methods, velocity Verlet) map coordinates and momenta exactly by their published sequence of kicks and drifts, preserve the symplectic form, and conserve linear invariants. The short form that only specifies the force agrees with the general form with unit mass, symmetric schemes are reversed by the opposite step, and passing the two parts as a pair or separately makes no difference.",
  ["inputs"], "all separable systems (nonlinear forces and velocities), dimensions, states, steps of either sign",
  "Tests compile the forms and run one harmonic oscillator; wrong coefficients of the same sum, swapped kick/drift order or aliasing show only for nonlinear systems.",
  ["stepper/symplectic_euler.hpp","stepper/symplectic_rkn_sb3a_mclachlan.hpp","stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp","stepper/velocity_verlet.hpp","stepper/base/symplectic_rkn_stepper_base.hpp"],
  [("do_step_impl kick/drift loop","stepper/base/symplectic_rkn_stepper_base.hpp")],
  ["coordinates and momenta after a step","numerical Jacobian of the step map"])

p("C16", "Implicit and Rosenbrock steppers solve their defining equations",
  "A Rosenbrock step produces the published fourth-order stage solution and error estimate for any smooth right-hand side with its Jacobian, including explicit time dependence, and on linear problems equals its rational stability function of the step matrix; an implicit Euler step satisfies the backward Euler equation to its tolerance. On stiff linear problems these steppers damp the fast components for arbitrarily large steps.",
  ["inputs"], "all smooth f with exact Jacobian, dimensions, time dependence, steps of either sign, stiffness up to 1e8",
  "Tests run one stiff example with fixed parameters and loose bounds; wrong Jacobian use, missing time-derivative terms or wrong coefficients of the embedded estimate survive.",
  ["stepper/rosenbrock4.hpp","stepper/rosenbrock4_controller.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/implicit_euler.hpp"],
  [("default_rosenbrock_coefficients and do_step","stepper/rosenbrock4.hpp"),("Newton iteration","stepper/implicit_euler.hpp")],
  ["x_out, xerr, dense output"])

p("C17", "Extrapolation steppers realise Gragg-Bulirsch-Stoer extrapolation",
  "The modified midpoint stepper reproduces Gragg's smoothed midpoint rule for any number of substeps, the fixed-order extrapolation stepper of order p is the Aitken-Neville extrapolation of it and shows order p, and a Bulirsch-Stoer step returns an entry of that extrapolation tableau whose error estimate meets the tolerance. All of them hold for non-autonomous systems, both time directions, and every order and substep count the interface offers.",
  ["inputs","configurations"], "all orders 4..., all substep counts, f, states, times, steps",
  "Tests check polynomial exactness or one oscillator for a couple of orders; a wrong substep sequence, smoothing or aliasing is invisible on polynomials of low degree.",
  ["stepper/modified_midpoint.hpp","stepper/extrapolation_stepper.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp"],
  [("extrapolate","stepper/bulirsch_stoer.hpp"),("do_step_impl","stepper/modified_midpoint.hpp")],
  ["x_out, xerr, try_step result"])

p("C18", "Integration respects time shift, time reversal, scaling and permutation",
  "Shifting the time origin of an autonomous problem shifts all times and changes no state; reflecting time (negated interval, step and right-hand side) reflects all times and changes no state; scaling a linear problem (by a factor of either sign) together with its absolute tolerance, or permuting or padding the components with inert ones, scales, permutes or pads the result. These relations hold for every stepper, every integrate function, and step-size decisions included.",
  ["inputs","configurations","programs"], "all steppers x integrate functions x problems x transformations",
  "Tests almost never integrate backwards or compare two related runs, so a branch that treats direction, origin or scale wrongly has no witness.",
  ["integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_const.hpp","integrate/detail/integrate_n_steps.hpp","integrate/detail/integrate_times.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_controller.hpp","stepper/dense_output_runge_kutta.hpp","stepper/controlled_adams_bashforth_moulton.hpp","util/detail/less_with_sign.hpp"],
  [("less_with_sign / min_abs / max_abs","util/detail/less_with_sign.hpp")],
  ["observer traces of the two related runs"])

p("C19", "Factory functions and defaults build the stepper the user asked for",
  "A controlled or dense-output stepper made by a factory function, in any of its argument forms, behaves identically to the one constructed by hand with the same underlying stepper, absolute and relative tolerance (in that order) and maximum step; the convenience integrate call behaves as adaptive integration with the documented default stepper and tolerances; default tolerances and substep counts are the documented ones.",
  ["configurations","inputs"], "all factories x underlying steppers x tolerances x maximum steps x problems",
  "Tests check result types of factory calls, not their numerical behaviour, so swapped or dropped arguments pass.",
  ["stepper/generation/make_controlled.hpp","stepper/generation/make_dense_output.hpp","stepper/generation/generation_controlled_runge_kutta.hpp","stepper/generation/generation_dense_output_runge_kutta.hpp","stepper/generation/generation_rosenbrock4.hpp","stepper/generation/generation_runge_kutta_dopri5.hpp","stepper/generation/generation_controlled_adams_bashforth_moulton.hpp","integrate/integrate.hpp"],
  [("controller_factory / dense_output_factory","stepper/generation/make_controlled.hpp")],
  ["try_step / do_step traces of both steppers"])

p("C20", "Split and parallel states are a faithful image of the serial state",
  "Splitting a state over any number of chunks and joining it again restores it exactly for every length and chunk count, chunk sizes stay balanced, and integrating a split or parallel state gives the result of the serial integration. Norms, copies and resizing of split states agree with those of the joined state.",
  ["inputs","configurations","schedules"], "all lengths (including shorter than the number of chunks), chunk counts, thread counts, steppers",
  "Tests use one length and chunk count; remainders, more chunks than elements and error norms over chunks are boundary cases.",
  ["util/split.hpp","util/split_adaptor.hpp","external/openmp/openmp_state.hpp","external/openmp/openmp_range_algebra.hpp","external/openmp/openmp_nested_algebra.hpp","external/mpi/mpi_state.hpp","external/mpi/mpi_vector_state.hpp","external/mpi/mpi_nested_algebra.hpp"],
  [("split / unsplit","util/split.hpp")],
  ["split chunks, unsplit result, integrated states"])

p("C21", "Variable-step, variable-order Adams integration follows its polynomial model",
  "The adaptive Adams-Bashforth-Moulton stepper advances along any sequence of varying step sizes by the variable-step predictor-corrector built on the derivatives at its actual past times, and is therefore exact for polynomial solutions up to its degree; its error estimate vanishes on those. The controlled form takes exactly such a step with an order that its history allows, changes the order by at most one per step, accepts a trial exactly when the step-size controller, fed with the scaled error estimate, does not shrink the step below its threshold, leaves state and time alone otherwise, keeps the step below its configured limit in either direction of time, and restarts cleanly after reset or initialisation.",
  ["inputs","histories"], "all orders 2..8, all step-size sequences, resets and initialisations, tolerances",
  "Tests use a constant step and one polynomial; the divided-difference coefficients depend on the whole step-size history.",
  ["stepper/adaptive_adams_bashforth_moulton.hpp","stepper/controlled_adams_bashforth_moulton.hpp","stepper/detail/adaptive_adams_coefficients.hpp","stepper/detail/pid_step_adjuster.hpp"],
  [("adaptive_adams_coefficients","stepper/detail/adaptive_adams_coefficients.hpp")],
  ["x, xerr, order, t, dt"])

p("C22", "By-value arguments stay untouched, referenced ones are the objects acted on",
  "Steppers, systems and observers handed to integrate functions, iterators and dense-output or controlled wrappers by value are not observably modified, and those handed through reference wrappers are the very objects acted on, so that their accumulated effects are visible to the caller afterwards and carried on by a following call. A collection of observers acts as one: each member sees every observation, in order. The system is called only with states of the caller's size and times inside the span of the steps taken, and inputs declared read-only are never written.",
  ["programs","histories"], "all integrate functions x stepper categories x argument passing forms, sequences of calls continuing one another",
  "Tests check that reference-wrapped arguments compile; lost or doubled effects, e.g. a copy where a reference is expected, need state that is inspected after generated call sequences.",
  ["util/unwrap_reference.hpp","integrate/integrate_adaptive.hpp","integrate/integrate_const.hpp","integrate/integrate_n_steps.hpp","integrate/integrate_times.hpp","integrate/detail/integrate_adaptive.hpp","integrate/check_adapter.hpp","iterator/detail/ode_iterator_base.hpp","integrate/observer_collection.hpp","util/bind.hpp"],
  [("unwrap_reference","util/unwrap_reference.hpp")],
  ["call counters in system, observer and stepper objects"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
        for fn in q["anchors"]["files"]:
            assert os.path.exists("/repo/"+fn) , fn
print(len(P), "properties")
