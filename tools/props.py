# read by mkmeta.py
NOTE = ("Held on the executions explored (counts in the evidence file), which "
        "are generated from VERIF_SEED; ")

prop("C01", "Integrations advance strictly and end exactly at t_bound",
     "Every accepted step moves time strictly in the direction of integration "
     "and no step passes t_bound. An integration that is reported finished "
     "ends at exactly the requested t_bound, whatever the rounding of the "
     "interval end points, direction, tolerance, max_step or first_step; an "
     "integration that cannot get there fails with a message instead.",
     ["inputs", "configurations"],
     "all methods x all (t0, t_bound) pairs (decimal, far offset, tiny, "
     "integer, infinite, both directions) x tolerances x max_step x "
     "first_step",
     "tests integrate a handful of intervals; rounding of t+h at the last "
     "step depends on the particular floating point end points",
     ALLF,
     [("final step handling", C), ("CKdisc step loop", "extensisq/cash.py"),
      ("SWAG step loop", "extensisq/shampine.py"),
      ("SSV2stab step loop", "extensisq/sommeijer.py")],
     ["solver.t, solver.status after each step", "solve_ivp result"],
     "online monitor on solver.t/status in every step of random integrations",
     NOTE + "assumes smooth bounded right hand sides.")

prop("C02", "max_step and first_step are respected",
     "No accepted step is longer than max_step, no right hand side "
     "evaluation for a step reaches further than the method's nodes allow "
     "within max_step, and the first attempted step is the given first_step "
     "(when it fits in the interval and in max_step).",
     ["inputs", "configurations"],
     "all methods x max_step x first_step x interval x tolerance",
     "tests use max_step in at most a few runs; the interplay with step "
     "growth, look ahead and rejected steps is not sampled",
     ALLF,
     [("step size reassessment", C), ("CKdisc", "extensisq/cash.py"),
      ("SWAG", "extensisq/shampine.py"),
      ("SSV2stab", "extensisq/sommeijer.py")],
     ["accepted step sizes", "times of right hand side evaluations"],
     "online monitor on step sizes and evaluation times",
     NOTE + "assumes smooth bounded right hand sides.")

prop("C03", "The global error is in proportion to the tolerance",
     "For smooth, moderately conditioned problems with a known solution, the "
     "error of every accepted state and of the dense output inside the steps "
     "stays below a modest constant times (number of steps) x (rtol |y| + "
     "atol) x (error amplification of the problem). This holds for every "
     "method, both directions, real and complex states, and all tolerances "
     "above rounding.",
     ["inputs", "configurations"],
     "all methods x problems with exact solutions x tolerances x directions",
     "tests check convergence on one or two problems; a wrong coefficient in "
     "a rarely used branch or a scaling mistake in the error control of some "
     "problem class stays unseen",
     ALLF,
     [("error estimation and step size control", C),
      ("SWAG order and step size selection", "extensisq/shampine.py"),
      ("SSV2stab error control", "extensisq/sommeijer.py")],
     ["solver.t, solver.y", "dense_output()"],
     "offline oracle: exact or high precision solutions of generated problems",
     NOTE + "the constants are at least 4 times what was seen on the "
     "unmodified code.")

prop("C04", "Every one-step method has its documented order of accuracy",
     "One step of a method reproduces the Taylor series of the solution up "
     "to and including its documented order for every (nonlinear, "
     "non-autonomous) right hand side, and every accepted step of an "
     "integration is such a step. For Nystrom methods this holds for "
     "positions and velocities.",
     ["inputs", "configurations"],
     "all Runge-Kutta, Nystrom, ESDIRK and stabilized methods x right hand "
     "sides x states x step sizes",
     "the order conditions quantify over all elementary differentials; tests "
     "use a few problems that satisfy many conditions by accident and loose "
     "tolerances",
     RKF[1:] + NYSF[1:] + ESDF[1:] + [C, "extensisq/sommeijer.py"],
     [("coefficients", "A, B, C, Ap, Bp of each method module"),
      ("stage evaluation", C), ("BS5, CFMR7osc step loops",
                                "extensisq/bogacki.py, extensisq/calvo.py")],
     ["values given to and returned by fun in a step", "solver.y"],
     "black box coefficient recovery from monitored calls; Taylor series "
     "oracle; lockstep reference model of each step",
     NOTE + "the recovered coefficients decide all order conditions of "
     "generic exponential fields to 1e-11.")

prop("C05", "Dense output joins the accepted states (and slopes)",
     "The interpolant of each step equals the accepted states at both ends "
     "of the step, so the assembled solution is continuous; for methods "
     "documented as C1 its derivative at both ends equals the right hand "
     "side there. Nystrom interpolants do so for positions and velocities.",
     ["inputs", "histories", "configurations"],
     "all methods and interpolant options x problems x steps (including "
     "after rejections, order reduction and extrapolated steps)",
     "tests compare the interpolant at few points of few problems",
     ALLF,
     [("interpolants", C), ("PiecewiseCubicDenseOutput",
                            "extensisq/hosea.py"),
      ("SwagDenseOutput, LinearDenseOutput", "extensisq/shampine.py"),
      ("CKdisc dense output", "extensisq/cash.py")],
     ["solver.dense_output()", "solve_ivp(dense_output=True).sol"],
     "online monitor on the interpolant of every step",
     NOTE + "slopes are obtained by polynomial differentiation.")

prop("C06", "The dense output has its documented order of accuracy",
     "Inside each step the interpolant reproduces the Taylor series of the "
     "solution through the state up to the documented order of the "
     "interpolant, for every right hand side and every point of the step. "
     "Evaluation as scalar, as array, later on, or through the assembled "
     "solution gives the same values.",
     ["inputs", "histories", "configurations"],
     "all one-step methods and interpolant options x right hand sides x "
     "points in the step",
     "tests measure one error norm on one problem, which hides wrong "
     "interpolation coefficients of higher order",
     RKF[1:] + NYSF[1:] + ESDF[1:] + [C, "extensisq/sommeijer.py"],
     [("interpolation coefficients", "P, Pp, Pfree, Plow, Pbest of each "
       "method module"), ("interpolants", C)],
     ["solver.dense_output()"],
     "black box coefficient recovery; Taylor series oracle; lockstep "
     "reference model of the interpolant",
     NOTE + "see C04.")

prop("C07", "Dense output is a pure observer and stays valid",
     "Asking for dense output, in any subset of steps and any number of "
     "times, does not change the trajectory. An interpolant keeps returning "
     "the same values after later steps, after the solver is gone, and after "
     "the user modifies the arrays it was called with or that it returned. "
     "It costs only the documented extra evaluations.",
     ["inputs", "histories", "configurations"],
     "all methods and interpolant options x problems x subsets of steps x "
     "orders of use",
     "tests make dense output in every step of one solver and evaluate it "
     "once",
     ALLF,
     [("interpolant construction", C),
      ("extra stages", "extensisq/bogacki.py, extensisq/fine.py, "
       "extensisq/murua.py"), ("SWAG state copies", "extensisq/shampine.py")],
     ["solver.t, solver.y", "dense_output()"],
     "trajectory comparison (bitwise) and recorded interpolant values",
     NOTE + "Fi5N(interpolant=1) is documented to adjust the solution and "
     "exempt.")

prop("C12", "The right hand side is only evaluated inside the interval",
     "Every evaluation of the right hand side and Jacobian, during "
     "construction, stepping and dense output, is at a finite time between "
     "t0 and t_bound (KC4I: up to its published node at 1.04 of a step). "
     "The values passed have the shape and type of y0.",
     ["inputs", "configurations"],
     "all methods x intervals x directions x tolerances x first step choices",
     "tests use right hand sides that are defined everywhere, an evaluation "
     "on the wrong side or beyond the end goes unnoticed",
     ALLF,
     [("starting step size", C), ("SSV2stab first step",
                                  "extensisq/sommeijer.py"),
      ("stage times", C), ("stiffness detection", C)],
     ["arguments of fun and jac"],
     "online monitor on the arguments of all evaluations",
     NOTE + "assumes smooth bounded right hand sides.")

prop("C13", "Work counters are truthful",
     "The reported nfev, njev and nlu equal the calls made of the right hand "
     "side and Jacobian and the matrix factorizations, and the package's "
     "counters of failed steps, failed iterations and linear solves equal "
     "what happened in the current integration. Counters are never carried "
     "over from a previous integration.",
     ["inputs", "histories", "configurations"],
     "all methods x problems with rejections x stiff problems x options",
     "tests do not count calls independently",
     ALLF,
     [("NFS, NFI, NLS", C), ("nfev, njev, nlu", "scipy base class and " + C)],
     ["fun, jac, lu and solve calls", "solver counters", "solve_ivp result"],
     "independent call counting compared with the counters after each step",
     NOTE + "evaluations made to estimate Jacobians or spectral radii are "
     "not part of nfev.")

prop("C08", "Steps are accepted only if the error estimate is within tolerance",
     "The error estimate of every method is a local error estimate of its "
     "documented order (it vanishes for solutions that the embedded method "
     "integrates exactly and does not vanish otherwise). A step is accepted "
     "only if this estimate, weighted per component with atol + rtol |y| and "
     "averaged over the components, is at most one; a rejected step is "
     "retried with a smaller step size and leaves time and state as they "
     "were.",
     ["inputs", "histories", "configurations"],
     "all methods with embedded error estimates x stage values x weights x "
     "right hand sides x tolerances",
     "tests only see that results are accurate enough; a weaker error "
     "estimate or acceptance criterion passes any easy problem",
     ALLF,
     [("error estimation", C), ("embedded weights",
                                "E, E_pre, Ep of each method module"),
      ("early error estimates", "extensisq/bogacki.py, extensisq/calvo.py"),
      ("CKdisc, SWAG, SSV2stab error tests", "extensisq/cash.py, "
       "extensisq/shampine.py, extensisq/sommeijer.py")],
     ["evaluations and acceptance of each attempted step"],
     "fault injection in stage values to recover the error estimator from "
     "acceptances; online monitor of acceptance on random integrations",
     NOTE + "estimator weights are compared with recorded ones and with the "
     "order conditions.")

prop("C09", "Integrations are deterministic and independent of each other",
     "The same integration gives the same steps, states, counters, messages "
     "and dense output every time. Other integrations before it, interleaved "
     "with it, nested in its right hand side, in other threads, or failed "
     "ones, have no influence on it.",
     ["histories", "schedules", "configurations"],
     "all methods x options x pairs of integrations x interleavings",
     "each test runs one integration after another with default options; "
     "state shared between solvers (class attributes, module state, work "
     "arrays) goes unnoticed",
     ALLF,
     [("class level coefficients and work arrays", "all method modules"),
      ("module level counters", C)],
     ["solver.t, y, nfev, njev, nlu, status after each step", "messages"],
     "bitwise comparison of recorded trajectories over random schedules",
     NOTE + "the package's global failure counters belong to the last "
     "integration only.")

prop("C10", "Results don't depend on how the problem is represented",
     "Equivalent formulations give equivalent integrations up to rounding: "
     "mirrored or shifted or scaled time, permuted, duplicated or scaled "
     "components (with scaled tolerances), complex type for real data, a "
     "complex problem as a pair of real ones with the same norm, vectorized "
     "right hand sides and array-like inputs. Steps, states and dense output "
     "correspond.",
     ["inputs", "configurations"],
     "all methods x problems x tolerances x equivalent formulations",
     "tests use one formulation of each problem, and check errors against "
     "loose bounds",
     ALLF,
     [("error norm", C), ("direction of integration", C),
      ("step size control", C), ("SWAG", "extensisq/shampine.py"),
      ("SSV2stab", "extensisq/sommeijer.py")],
     ["solver.t, solver.y after each step", "dense_output()"],
     "metamorphic comparison of two monitored integrations",
     NOTE + "the choice of the first step is given where it isn't "
     "symmetric.")

prop("C11", "The user's data are left alone and returned data stay valid",
     "No array that enters the solver (y0, tolerances, matrices, sparsity, "
     "results of user functions, times for dense output) is modified, so "
     "read-only arrays work. States and interpolated values that were "
     "returned keep their values when the integration continues.",
     ["inputs", "histories", "configurations"],
     "all methods x input types (lists, views, integers, read-only, sparse) "
     "x options",
     "tests pass fresh arrays and do not look at them afterwards",
     ALLF,
     [("state updates", C), ("SWAG work arrays", "extensisq/shampine.py"),
      ("Jacobian and mass matrix handling", C)],
     ["all arrays at the boundary between user and solver"],
     "monitor with copies of all boundary arrays; read-only arrays",
     NOTE + "user functions that reuse their output buffer or modify their "
     "arguments are excluded; Fi5N(interpolant=1) is documented to adjust "
     "the state.")

prop("C24", "Step size control follows the documented formula",
     "After an accepted step the step size is multiplied by g^(kb1+kb2) "
     "err^(-kb1 e) err_old^(-kb2 e) (h/h_old)^-a, with (kb1, kb2, a, g) from "
     "the chosen sc_params (G, S, standard or a user tuple) and e = 1/(q+1) "
     "for an error estimate of order q, limited by the minimum and maximum "
     "factors. The elementary controller g err^-e is used for the first step "
     "and for rejected attempts (with at least a factor 0.2), and there is no "
     "growth right after a rejection.",
     ["inputs", "histories", "configurations"],
     "all Runge-Kutta, Nystrom and implicit methods x sc_params x histories "
     "of error estimates, accepted and rejected",
     "tests never look at single step size changes",
     RKF + NYSF[1:] + ESDF[1:],
     [("step size control", C)],
     ["attempted step sizes as a function of injected errors"],
     "fault injection (chosen errors in chosen attempts) and a reference "
     "model of the controller",
     NOTE + "error estimates are known from the estimator weights of C08.")

prop("C14", "Arguments are validated, clipped and defaulted as documented",
     "An argument that is invalid (a tolerance of the wrong type, sign or "
     "size, a nonpositive step size, a first step that does not fit, a "
     "non-finite initial state, wrongly sized Jacobian or mass matrix, unknown "
     "interpolant or step control parameters, and those of the sensitivity "
     "functions) is rejected with an exception before integrating. An omitted "
     "argument is equivalent to its documented default, rtol above 0.1 or "
     "below its minimum acts as that limit, and an unknown option only causes "
     "a warning.",
     ["inputs", "configurations"],
     "all methods x all arguments x invalid, boundary and equivalent values",
     "tests try a few invalid arguments on a few methods",
     ALLF + ["extensisq/sensitivity.py"],
     [("argument validation", C), ("SWAG arguments", "extensisq/shampine.py"),
      ("SSV2stab arguments", "extensisq/sommeijer.py"),
      ("sensitivity arguments", "extensisq/sensitivity.py")],
     ["exceptions and warnings", "complete trajectories"],
     "fault injection in arguments, monitored exceptions; differential "
     "monitor of trajectories with equivalent arguments",
     NOTE + "the class of the exception is checked, not its text.")

prop("C21", "Forward sensitivity analysis is correct",
     "sens_forward returns the solution and the derivatives of the solution "
     "to each parameter, at the end point, at the times in t_eval and in "
     "between, with errors in proportion to rtol and atol. This holds for "
     "every first order method, both directions, any number of states and "
     "parameters (also zero or negative parameters), parameter dependent "
     "initial conditions, and with given or approximated derivatives.",
     ["inputs", "configurations"],
     "methods x problems x parameters x options",
     "tests use two small problems and one or two methods",
     ["extensisq/sensitivity.py"],
     [("sens_forward", "extensisq/sensitivity.py")],
     ["returned sensitivities and solution"],
     "offline oracle: independently integrated variational equations of "
     "generated problems; metamorphic runs with rescaled parameters",
     NOTE + "smooth right hand sides; constants at least 4 times what was "
     "seen.")

prop("C22", "Adjoint sensitivity analysis is correct",
     "sens_adjoint_end and sens_adjoint_int return the value of the end point "
     "function or the integral, and its derivatives to each parameter, with "
     "errors in proportion to rtol and atol, equal to the result of forward "
     "analysis within these errors. This holds for every first order method, "
     "both directions, any number of states and parameters, parameter "
     "dependent initial conditions, and with or without a given forward "
     "solution.",
     ["inputs", "configurations"],
     "methods x problems x parameters x scalar functions x options",
     "tests use two small problems and one or two methods",
     ["extensisq/sensitivity.py"],
     [("sens_adjoint_end, sens_adjoint_int", "extensisq/sensitivity.py")],
     ["returned sensitivities, value, adjoint and forward solution"],
     "offline oracle: independently integrated variational equations of "
     "generated problems; comparison with forward analysis",
     NOTE + "smooth right hand sides; constants at least 4 times what was "
     "seen.")

prop("C28", "User defined methods do what their tableau says",
     "A method made by subclassing the Runge-Kutta, Nystrom or ESDIRK base "
     "class takes steps exactly as its coefficients prescribe: stages, new "
     "solution, error based acceptance, interpolant and number of evaluations "
     "follow from A, B, C, E (and P) in every step, up to rounding (or Newton "
     "tolerance). This holds for any number of stages, with or without use of "
     "the derivative at the end point, and with or without interpolant.",
     ["inputs", "configurations", "histories"],
     "random tableaus x problems x directions x options",
     "tests only use the methods in the package, which exercise a few shapes "
     "of tableau",
     [C], [("base classes", C)],
     ["accepted steps", "right hand side evaluations", "dense_output()"],
     "online comparison of every step with a reference implementation of the "
     "tableau",
     NOTE + "tableaus satisfy the lowest order conditions; acceptance close "
     "to the limit is not judged.")

prop("C16", "Implicit methods are stable on stiff problems",
     "Steps of any size of the implicit methods do not amplify any mode of a "
     "dissipative or oscillating linear system, leave slow modes accurate, "
     "and make very stiff modes vanish for the L-stable methods. On stiff "
     "problems with a smooth solution (also nonlinear ones, and after a fast "
     "transient) the accuracy and the number of steps do not depend on the "
     "stiffness.",
     ["inputs", "configurations"],
     "all ESDIRK methods x spectra over 12 decades x step sizes x stiffness "
     "ratios x forms of the Jacobian",
     "tests integrate one or two stiff problems at one stiffness ratio",
     ESDF + [C],
     [("implicit stages and error estimate", C),
      ("coefficients", "A of each method module")],
     ["solver.y of each step", "number of steps"],
     "online monitor of the modes of linear systems in every step; exact "
     "solutions of stiff problems",
     NOTE + "normal linear systems.")

prop("C17", "Problems with a mass matrix, DAEs included, are solved correctly",
     "With a mass matrix M (given as diagonal, full, or sparse; singular or "
     "not) the implicit methods integrate M y' = f(t, y): differential and "
     "algebraic components have errors in proportion to the tolerance in "
     "every step and inside the steps. The notation of M and an equivalent "
     "reformulation of the equations do not affect the solution; inconsistent "
     "initial conditions are replaced by consistent ones with a warning, "
     "consistent ones are kept, and constraints that do not determine the "
     "algebraic components are refused.",
     ["inputs", "configurations"],
     "all ESDIRK methods x DAEs of index 1 x mass matrices x forms of M and "
     "Jacobian x tolerances x directions",
     "tests solve one DAE with two forms of M and compare the end state",
     ESDF + [C],
     [("validation of M, consistent initial conditions, Newton matrix", C)],
     ["solver.y of each step", "dense_output()", "warnings and exceptions"],
     "comparison of every step with the reduced ODE; comparison of equivalent "
     "formulations",
     NOTE + "smooth problems of index 1 with well conditioned constraints; a "
     "cleanly reported failure is retried with a smaller tolerance.")

prop("C18", "The Jacobian affects the cost of implicit methods, not the solution",
     "However the Jacobian of an implicit method is given (function, constant, "
     "dense, list, sparse, estimated by differences, with sparsity pattern, "
     "vectorized, evaluated each step) the solution is accurate and the number "
     "of steps is the same. A Jacobian function is evaluated at the state a "
     "step starts from only. An inexact Jacobian may cost more or lead to a "
     "reported failure but does not lead to a wrong solution.",
     ["inputs", "configurations"],
     "all ESDIRK methods x stiff problems x sixteen forms of the Jacobian",
     "tests use two or three forms of the Jacobian on one problem",
     ESDF + [C],
     [("Jacobian handling, Newton iteration, reuse of factorizations", C)],
     ["solver.y of each step", "number of steps"],
     "differential monitor of trajectories and step numbers; independent "
     "reference solution",
     NOTE + "see DESIGN.md for the constants.")

prop("C15", "Stiffness diagnosis warns when it should and never interferes",
     "Stiffness detection never changes the integration, whatever its "
     "settings, costs no evaluations if turned off and a bounded number per "
     "diagnosis otherwise. If the step size is limited by stability for long "
     "(real or complex dominant roots), a warning of the right kind follows; "
     "no such warning is given if accuracy limits the step size, the solution "
     "grows, or the remaining work is small.",
     ["inputs", "histories", "configurations"],
     "all explicit methods with stiffness detection x spectra x step limits x "
     "detection intervals",
     "tests check one stiff problem per method at most",
     RKF + NYSF[1:] + ["extensisq/shampine.py", "extensisq/sommeijer.py"],
     [("stiffness detection", C), ("SWAG low order counter",
                                   "extensisq/shampine.py"),
      ("SSV2stab stage limit", "extensisq/sommeijer.py")],
     ["warnings per step", "evaluations per step", "complete trajectories"],
     "bitwise trajectory comparison; monitored warnings and evaluations on "
     "problems with known roots",
     NOTE + "warnings for roots near the imaginary axis are not judged.")

prop("C19", "SSV2stab takes as many stages as stability demands",
     "In every attempted step the number of stages of SSV2stab covers the "
     "spectral radius of the Jacobian times the step size, and is not larger "
     "than needed or than its limit; so no mode of a dissipative problem "
     "grows, and on smooth problems the number of steps does not depend on "
     "the spectral radius. A given rho_jac is called with the current time "
     "and state in each step (once if const_jac) and used; otherwise the "
     "spectral radius is estimated in time and with evaluations close to the "
     "solution only, also for a state at or close to zero.",
     ["inputs", "histories", "configurations"],
     "spectra x variation of the spectral radius x tolerances x rho_jac and "
     "const_jac",
     "tests solve one parabolic problem and look at the end state",
     ["extensisq/sommeijer.py"],
     [("stage number, spectral radius estimation, stages",
       "extensisq/sommeijer.py")],
     ["right hand side evaluations grouped in attempts", "rho_jac calls",
      "solver.y"],
     "online monitor of the evaluations of each attempted step against the "
     "stability boundary",
     NOTE + "real negative spectra; estimated spectral radii grow at most 20% "
     "in 25 steps.")

prop("C20", "SWAG is a variable order Adams PECE method of full accuracy",
     "Every attempted step of SWAG predicts with the Adams-Bashforth formula "
     "of order k through the k latest derivatives at their actual, unequal "
     "times, evaluates, corrects with the Adams-Moulton formula of order k+1 "
     "and evaluates again; the dense output interpolates the same "
     "derivatives and both states. A step is accepted if and only if the "
     "weighted difference of the correctors of order k+1 and k is within "
     "tolerance; order (at most k_max) and size of the next step and of "
     "retries follow the published rules (lower order if that estimates "
     "better, higher only with constant step size, double, keep or reduce).",
     ["inputs", "histories", "configurations"],
     "smooth and disturbed problems x k_max x tolerances x step limits",
     "the formulas depend on the complete history of step sizes, orders and "
     "rejections; a wrong coefficient in one transition goes unnoticed in "
     "the end error of the few problems in the tests",
     ["extensisq/shampine.py"],
     [("coefficients, prediction, correction, order and step selection",
       "extensisq/shampine.py"),
      ("interpolant", "extensisq/shampine.py")],
     ["all right hand side evaluations and values", "solver.t, solver.y",
      "dense output"],
     "online shadow model (extended precision, recomputed from the recorded "
     "derivatives) of each attempted step",
     NOTE + "decisions with a margin below 3% are not judged.")

prop("C23", "Second order methods take second order problems, and only those",
     "Every correctly structured second order problem (velocity independent "
     "for MR6NN) is accepted by the Nystrom methods and integrated "
     "accurately, whatever its initial state (zero, at rest, velocities equal "
     "to positions, integers, complex). A problem with another structure is "
     "rejected before integrating: an odd number of components, first "
     "derivatives that differ from the velocities, or (MR6NN) accelerations "
     "that depend on the velocities.",
     ["inputs"],
     "Nystrom methods x initial states x couplings",
     "tests offer one wrong problem per method; acceptance by accident "
     "depends on the values of the initial state",
     NYSF,
     [("structure tests in the constructor", C)],
     ["exceptions of the constructor", "solver.y", "dense output"],
     "monitored construction and differential monitor against scipy's DOP853",
     NOTE + "wrong structures that are invisible at the initial state are "
     "not promised to be detected.")

prop("C25", "Faults of the user's functions end or interrupt the integration cleanly",
     "If the right hand side (or Jacobian, or rho_jac) returns nan or inf, "
     "from some time on, in a part of the state space, for a short while or "
     "in a single call, no state with nan or inf is ever accepted and the "
     "integration never hangs: it either avoids the fault and stays accurate, "
     "or fails with a message in the last good state (or an exception for a "
     "useless matrix). Exceptions raised by the user's functions propagate. A "
     "solution that goes to infinity ends in a reported failure before the "
     "pole.",
     ["inputs", "faults"],
     "all methods x kinds of faults x time of the fault",
     "tests have no faults in the right hand side; what happens depends on "
     "the stage in which the fault occurs",
     ALLF,
     [("step loops of all methods", C),
      ("SWAG step loop", "extensisq/shampine.py"),
      ("SSV2stab step loop", "extensisq/sommeijer.py"),
      ("early error estimates", "extensisq/bogacki.py")],
     ["solver.status, messages", "solver.t, solver.y after each step",
      "number of evaluations after the fault"],
     "fault injection in the user's functions, online monitor of the accepted "
     "states, differential check of finished integrations",
     NOTE + "SWAG and SSV2stab are not used for poles.")

prop("C27", "CKdisc accepts only solutions within tolerance, also at discontinuities",
     "Every accepted step of CKdisc is the fifth order solution over the "
     "attempted step, or if that is not within tolerance the third order "
     "solution over 3/5, or the second order solution over 1/5 of it, from "
     "the stages already evaluated, and with an own error estimate below the "
     "tolerance. Attempts are abandoned after two or four stages if and only "
     "if failure is predicted from the earlier steps as published, and the "
     "next step size follows the published rules. Jumps in the derivative are "
     "passed with an error in proportion to the tolerance.",
     ["inputs", "histories", "configurations"],
     "smooth, fast, discontinuous and disturbed problems x tolerances",
     "the choice between the formulas depends on the history of all previous "
     "steps and the position of jumps in a step",
     ["extensisq/cash.py", C],
     [("step loop of CKdisc", "extensisq/cash.py")],
     ["all right hand side evaluations and values", "solver.t, solver.y",
      "dense output"],
     "online shadow model of each attempted step, recomputed from the "
     "recorded derivatives",
     NOTE + "decisions with a relative margin below 1e-6 are not judged.")

prop("C29", "The first step is selected from the problem, tolerance and limits",
     "Without first_step the first attempted step follows from bounds for the "
     "first and second derivative and the Lipschitz constant, which are "
     "sampled with a few evaluations very close to the initial point and "
     "inside the interval, from the weighted tolerances and the order of the "
     "method, as published. It is in the direction of integration, never "
     "zero, and never larger than max_step, the interval or the inverse of "
     "the Lipschitz constant.",
     ["inputs", "configurations"],
     "all methods x problems (also zero, constant, stiff, of very different "
     "scales) x tolerances x limits",
     "tests hardly look at the first step; it depends on all of the initial "
     "state, tolerances and limits",
     ALLF,
     [("h_start", C), ("first step", "extensisq/sommeijer.py"),
      ("first step", "extensisq/shampine.py")],
     ["evaluations in the constructor", "evaluations of the first attempt"],
     "monitor that recomputes the first step from the recorded evaluations",
     NOTE + "DAEs are not included.")

prop("C26", "solve_ivp output agrees with the steps that are taken",
     "Dense output, t_eval, events and args of SciPy's solve_ivp neither "
     "change the steps nor the accepted states. The values at t_eval and the "
     "dense output are those of the interpolants of the steps, every sign "
     "change of an event function over a step is reported once, at a root "
     "inside that step and with the interpolated state, and a terminal event "
     "ends the integration there.",
     ["inputs", "configurations", "histories"],
     "all methods x problems x t_eval x events (direction, terminal count) x "
     "dense output x args",
     "tests of events use one or two problems; state that interpolants share "
     "with the solver matters only for particular successions of calls",
     ALLF,
     [("dense output", C), ("CKdisc", "extensisq/cash.py"),
      ("SWAG", "extensisq/shampine.py"),
      ("SSV2stab", "extensisq/sommeijer.py")],
     ["solve_ivp result", "steps, states and interpolants by hand"],
     "differential monitor: solve_ivp against stepping by hand",
     NOTE + "assumes event functions with clear sign changes.")

prop("C31", "SSV2stab takes the steps of the published RKC method",
     "All stages, the solution, the error estimate, the decision on "
     "acceptance, the size of the next attempt and the interpolant are those "
     "of the published Runge-Kutta-Chebyshev method, for any number of "
     "stages; the number of stages follows from the spectral radius and the "
     "step size, and is enough for stability.",
     ["inputs", "configurations", "histories"],
     "problems x spectral radius (constant, function, estimated) x tolerances "
     "x limits, smooth or disturbed such that steps are rejected",
     "tests integrate one or two problems with a few stage numbers; the "
     "coefficients are calculated for every number of stages",
     ["extensisq/sommeijer.py"],
     [("step and stages", "extensisq/sommeijer.py"),
      ("interpolant", "extensisq/common.py")],
     ["evaluations (time, state, derivative) in all attempts",
      "accepted states", "dense_output()"],
     "shadow model of the published method, fed with recorded derivatives",
     NOTE + "decisions within rounding of their threshold are not judged.")

prop("C32", "Accepted implicit steps solve their stage equations",
     "The state after an accepted step of an implicit method differs no more "
     "than a few tolerances from that of the same step with accurately solved "
     "stage equations, in at least nine of ten steps of an integration, and "
     "with few exceptions in the other ones. This holds with exact, numerical, "
     "inexact or outdated Jacobian, with mass matrices and for DAEs.",
     ["inputs", "configurations", "histories"],
     "ESDIRK methods x stiff nonlinear problems x mass matrices x Jacobian "
     "variants x tolerances",
     "the error control hides unconverged iterations; tests only see the "
     "final error of a few problems",
     ["extensisq/common.py"],
     [("Newton iterations", C)],
     ["first evaluation in the accepted attempt", "accepted states"],
     "differential monitor: every accepted step repeated with stage equations "
     "solved accurately",
     NOTE + "short integrations (fewer than 20 steps) are not judged.")
