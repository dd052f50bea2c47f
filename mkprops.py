#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script only because the JSON lines are long)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
NLP = "the NLP handed to casadi.nlpsol (f, x, g, p) and the call arguments x0, lbx, ubx, lbg, ubg, p"
PR, SO, MO, OC, OP, RK, AU, HE, UT = ["nosnoc/%s.py" % n for n in
    "problem solver model ocp nosnoc_opts rk_utils auto_model helpers utils".split()]

prop("C01", "The NLP's dynamic constraints are exactly the selected Runge-Kutta scheme",
 "For every model and every supported option combination, the equality constraints of the generated NLP that involve the dynamics are exactly one application of the selected IRK scheme (scheme, number of stages, representation) per finite element to the model's right-hand side, evaluated with that element's step size, its control stage's control and parameters, the global variables and the speed of time. Consecutive finite elements and control stages are chained through their end states, starting at the initial state parameter. No such constraint is missing, duplicated, or attached to the wrong element.",
 ["configurations", "inputs"],
 "all option combinations (scheme, stages, representation, PSS mode, FESD on/off, stage and element counts incl. non-uniform ones, speed of time, parameters) of a family of small models",
 "Tests solve a few dozen configurations and look at the final state; a constraint attached to the wrong stage, parameter or control is invisible where the models are constant or the optimum is insensitive to it.",
 [PR, MO, RK], [("forward_simulation", PR), ("X_fe / prev_fe chaining", PR), ("f_x_fun", MO)],
 [("ind_x/ind_v/ind_h/ind_u", "index maps of the primal vector", PR)], [NLP])
prop("C02", "Switching, convexity and user algebraic equations hold at every stage",
 "For every configuration, every Runge-Kutta stage carries exactly the algebraic equations of the selected PSS representation (stationarity of the switching functions, convex multiplier sum for Stewart, user algebraic equations) evaluated at that stage's own state, algebraic variables, control and parameters. With FESD and a scheme that does not contain the right boundary point, the switching equations are additionally imposed at the right end of every finite element but the last of the horizon, on that end point's own multipliers, and nowhere else.",
 ["configurations", "inputs"],
 "all option combinations over a family of models with one or several subsystems, different numbers of regions, user algebraic variables, g_Stewart and general inclusions",
 "Tests use one subsystem or symmetric ones almost everywhere and check only the solution at the end of the horizon.",
 [PR, MO], [("g_z_all_fun, g_z_switching_fun", MO), ("boundary point in forward_simulation", PR)], [], [NLP])
prop("C03", "All complementarity pairs are imposed and relaxed as the MPCC mode says",
 "For every configuration the NLP contains, and contains only, the complementarity conditions between every convex multiplier of a stage and every switching multiplier of the same finite element and of the end of the preceding one (with FESD, in either cross-complementarity mode), or of the same stage only (without FESD), each relaxed exactly as the MPCC mode documents in terms of the homotopy parameters or the elastic variable. In every MPCC mode the multipliers are constrained to be nonnegative, either by bounds or by the relaxation itself. The complementarity residual used to stop the homotopy is the largest of these products.",
 ["configurations", "inputs"],
 "all combinations of MPCC mode, cross-complementarity mode, scheme, stages, FESD, PSS mode and element layout over the model family",
 "A missing pair only matters for trajectories that would exploit it; the tests exercise a handful of trajectories and most MPCC modes on one problem only.",
 [PR], [("create_complementarity", PR), ("create_complementarity_constraints", PR), ("get_complementarity_vector", PR)],
 [("sigma_p, tau, s_elastic", "homotopy parameters / elastic slack", PR)], [NLP, "problem.comp_res"])
prop("C04", "The time grid always covers exactly the requested horizon",
 "For every configuration the step sizes are variables bounded by (1 -/+ gamma_h) times the nominal step of their control stage when FESD is on, and constants equal to it when FESD is off. With FESD they are constrained to sum to the control stage length on an equidistant control grid and to the full terminal time otherwise, for any number of control stages; no other constraint involves only step sizes. The reported time grid starts at zero, accumulates the steps and picks the control grid at the stage boundaries.",
 ["configurations"],
 "all combinations of FESD on/off, equidistant grid on/off, 1-3 control stages, uniform and non-uniform elements per stage, gamma_h and terminal times",
 "Tests never combine a non-equidistant control grid with one control stage, and use non-uniform element counts nowhere.",
 [PR, SO, OP], [("sum of fe.h constraints", PR), ("add_step_size_variable / h bounds", PR), ("time_steps, t_grid, t_grid_u", SO)], [], [NLP, "result fields time_steps, t_grid, t_grid_u"])
prop("C05", "Box, path and terminal constraints apply at exactly the promised points",
 "For every configuration each primal variable carries the bounds and the initial guess that the model, OCP and options declare for it (states, controls, user algebraics, global variables, multipliers, elastic slack, speed of time). The generic path constraint is imposed with its own bounds at the end of every control stage, additionally at the end of every finite element if requested, and at every Runge-Kutta stage if requested; the terminal constraint is imposed once, on the final state. No constraint is dropped, duplicated or evaluated with another stage's control or parameters.",
 ["configurations", "inputs"],
 "all combinations of path-constraint flags, scheme, representation, element layout, PSS mode and bounds",
 "The per-stage path flags are not used by any test; bounds are only checked through the optimum, where they are mostly inactive.",
 [PR, OC], [("add_variable calls in FiniteElement / control stage", PR), ("g_path_fun placement", PR), ("g_terminal", PR)], [], [NLP])
prop("C06", "The NLP objective is the declared cost plus the documented regularisers",
 "For every configuration the NLP objective equals the running cost integrated with the quadrature weights of the selected scheme over the actual step sizes (scaled by the speed of time, evaluated with each stage's own control and parameters), plus the terminal cost at the final state, plus exactly the selected step-equilibration penalty and elastic penalty. In particular a constant running cost integrates to that constant times the horizon whatever the scheme, representation and number of stages, and the reported cost value is the objective value with its sign.",
 ["configurations", "inputs"],
 "all combinations of scheme, stages 1-5, representation, layout, step-equilibration and MPCC modes over polynomial costs",
 "Tests never compare the objective value itself, and never use a running cost with one-stage schemes.",
 [PR, OC, RK, SO], [("fe.cost / B_irk / b_irk", PR), ("step_equilibration", PR), ("elastic cost", PR), ("cost_val", SO)], [], [NLP, "result field cost_val"])
prop("C07", "Step equilibration couples step sizes exactly where no switch happens",
 "For every step-equilibration mode, every pair of neighbouring finite elements inside a control stage, and no other pair, is coupled by exactly the term the mode promises: a penalty or constraint on the difference of the two step sizes, weighted (in the indicator-based modes) by a factor that vanishes exactly when some multiplier of the two elements changes sides at their common boundary. The mean-based mode instead penalises the deviation of every step from the nominal step of its control stage, and without FESD no such term exists.",
 ["configurations", "inputs"],
 "all step-equilibration modes times layout, scheme, PSS mode and subsystem counts; all active-set patterns of two neighbouring elements",
 "Tests check that an OCP still converges in each mode, which is insensitive to wrong or missing coupling terms.",
 [PR], [("step_equilibration", PR), ("sum_Lambda / sum_Theta", PR)], [], [NLP])
prop("C08", "User complementarity pairs are enforced at the level they depend on",
 "A user path complementarity pair that depends on states or algebraic variables is imposed at every Runge-Kutta stage of every finite element; one that depends only on controls or time-varying parameters is imposed once per control stage; one that depends only on global variables and parameters is imposed once. Each uses the values of that stage and the relaxation of the selected MPCC mode, for any number of control stages and any elements-per-stage layout.",
 ["configurations", "inputs"],
 "all subsets of pair kinds times MPCC modes, control stages and uniform/non-uniform layouts",
 "No test uses non-uniform element counts with path complementarities, and none uses global pairs.",
 [OC, PR], [("classification in preprocess_ocp", OC), ("create_complementarity_constraints / create_global_compl_constraints", PR)], [], [NLP])
prop("C09", "Least-squares constraint handling is equivalent to the exact constraints",
 "With least-squares constraint handling the NLP has no general constraints and its objective equals the exact-handling objective plus the sum of squares of precisely the constraints that exact handling would impose, all other data unchanged. If any of those constraints is not an equality to zero, construction is refused instead of silently changing the problem.",
 ["configurations", "inputs"],
 "all option combinations, compared pairwise between the two constraint handlings",
 "Two configurations are solved by the tests, and none has path constraints with one-sided or nonzero bounds.",
 [PR], [("LEAST_SQUARES reformulation", PR)], [], [NLP])
prop("C10", "The DCS reformulation reproduces the Filippov vector field everywhere",
 "For any state, solving the generated complementarity system for the multipliers yields exactly the vector field of the region the state lies in when it is in the interior of a region, and on switching surfaces exactly the convex combinations of the vector fields of the adjacent regions (for the Step representation, the multi-affine combinations). This holds for Stewart with switching matrices, Stewart with user functions, Step, and general inclusions, for any number of subsystems and any mix of region counts, and the multipliers of an interior point are unique up to the documented shift.",
 ["inputs", "configurations"],
 "all sign patterns of the switching functions (interior, boundary), all switching matrices of small size incl. don't-care entries, all complementary active sets of the multipliers",
 "Tests only simulate a few trajectories through one or two surfaces; most sign patterns and switching matrices are never visited.",
 [MO], [("preprocess_model: g_switching, g_convex, upsilon, f_x", MO)], [], ["model.f_x_fun, model.g_z_all_fun, model.std_compl_res_fun"])
prop("C11", "Initial multipliers are the correct ones for the initial state",
 "Before every solve the initial-multiplier parameters of the NLP equal, component by component in the order the NLP uses them, the exact nonnegative switching multipliers of the current initial state with the first stage's current parameters, so that every convex multiplier selection that is admissible at the initial state, and no other, is complementary to them. This holds for both PSS modes, any number and mix of subsystems, and after any sequence of parameter and initial-state updates.",
 ["inputs", "histories", "configurations"],
 "all sign patterns of the switching functions at the initial state times subsystem layouts and PSS modes, and after every short sequence of set calls",
 "A permuted or stale initial multiplier only matters with several subsystems or changing parameters, which tests do not combine.",
 [MO, SO, PR], [("lambda00_fun / compute_lambda00", MO), ("setup_p_val", SO), ("fe0.Lambda order in p", PR)], [], [NLP])
prop("C12", "Parameters and initial state reach every place that uses them, and only those",
 "At every NLP solve the numerical parameter vector passed to the solver contains the most recently set values of the time-varying parameters of each control stage, the global parameters in every stage, the homotopy parameters of that iteration and the current initial state, in the slots where the symbolic problem uses them. Setting one field changes no other field, whatever the order and number of set and solve calls.",
 ["histories", "inputs"],
 "all sequences of set/solve calls up to a bounded depth over models with any combination of parameter kinds and 1-3 control stages",
 "The one parametric test sets parameters once, at construction.",
 [SO, MO, PR], [("set", SO), ("setup_p_val", SO), ("p_ctrl_stages / p_val_ctrl_stages", MO)],
 [("p_val_ctrl_stages", "numerical parameters per control stage", MO)], [NLP])
prop("C13", "The homotopy loop is correct for every sequence of NLP solver outcomes",
 "Whatever the NLP solver answers, the homotopy solves a sequence of problems whose relaxation parameter starts at sigma_0 and follows the selected update rule, each warm-started at the previous answer, and stops after the first iterate whose complementarity residual is below the tolerance, after the first problem with parameter at or below sigma_N, or after the maximal number of iterations, and not earlier. The returned solution, cost, iterates, iteration counts and timings are those of the problems actually solved, and the reported status is success exactly when the last NLP solve ended in one of the accepted return codes.",
 ["fault_sequences", "histories", "configurations"],
 "all sequences of solver answers (every return status class, complementarity below/above tolerance) up to the iteration bound, for both update rules and different sigma schedules",
 "Tests only see the answers IPOPT happens to give, which are nearly all successful.",
 [SO, UT], [("NosnocSolver.solve", SO), ("homotopy_sigma_update", SO), ("check_ipopt_success", UT)], [("sigma_k", "relaxation parameter", SO)], ["calls to the NLP solver; result fields status, w_sol, w_all, nlp_iter, cpu_time_nlp, cost_val"])
prop("C14", "The result dictionary is a faithful decoding of the primal solution",
 "For every configuration and every primal vector, each field of the results (states at element ends and at all stages, controls, algebraic variables, multipliers, global variables, speed of time, time grids) contains exactly the entries of the primal vector that represent that quantity, in chronological order, with the initial state first where the field includes it. The index maps of the problem are disjoint, in range and cover the whole primal vector, and extraction never fails for a problem that could be built.",
 ["configurations", "inputs"],
 "all option combinations and subsystem layouts; primal vectors with pairwise distinct entries",
 "Tests read x, t and u of a few layouts with identical region counts.",
 [SO, PR, UT], [("get_results_from_primal_vector", SO), ("__collect_final_element / increment_indices", PR)], [], ["result dictionary", "problem.ind_*"])
prop("C15", "Detected switches are reported at the time they happen",
 "The reported switch times are exactly the element boundaries at which the active region (convex multipliers, or step multipliers in Step mode) changes between consecutive finite elements, measured from the start of the horizon; in a simulation loop they are offset by the time simulated before. No other time is reported, for any number of elements, control stages and any sequence of active regions.",
 ["inputs", "configurations", "histories"],
 "all sequences of active regions over up to 5 finite elements and up to 3 simulation steps, for both PSS modes",
 "No test looks at the switch times.",
 [SO, HE], [("switch_indices / switch_times", SO), ("switch time offset in run", HE)], [], ["result fields switch_times"])
prop("C16", "The simulation loop chains its steps for every outcome history",
 "For every history of per-step outcomes, step i of the simulation loop is solved from the end state of step i-1 (the given initial state for the first), with the i-th parameter row and, if provided, the i-th initial guess. The collected states, time grid, multipliers, statuses and costs are the concatenation of the per-step results in order, each loop starts from its own fresh records, and with stop_on_failure the loop ends right after the first step that is not successful and reports so.",
 ["histories", "fault_sequences"],
 "all sequences of per-step outcomes (success/failure, end state) up to 4 steps, with and without parameter rows, initial guesses and stop_on_failure",
 "Tests simulate only sequences in which every step succeeds, and never use stop_on_failure.",
 [HE], [("NosnocSimLooper.run / get_results", HE)], [], ["calls to the NLP solver; get_results()"])
prop("C17", "Setters and initialisation strategies give exactly the documented start point",
 "For every sequence of set and solve calls, the start point of the next solve is: the values most recently set for each field, with all states overwritten by the current initial state under the default strategies, everything else taken from the last solution under the warm-start strategy, and nothing overwritten under the external strategy. Each setter changes exactly the entries of its field (per control stage, per finite element, or all), a wrongly shaped or unknown field is rejected, and arrays passed in by the user are never modified and never alias later state.",
 ["histories", "inputs", "configurations"],
 "all sequences of set/solve calls up to a bounded depth for each initialisation strategy and several layouts",
 "One test sets x and u once before a single solve.",
 [SO], [("NosnocSolverBase.set", SO), ("initialize", SO)], [("w0", "start point", PR)], ["x0 argument of the NLP solver calls"])
prop("C18", "Solvers are isolated and reconstruction is reproducible",
 "Creating, configuring or solving with one set of options, model and OCP objects never changes the NLP, the NLP solver options or the results of any other, independently created set. Building a problem twice from equal inputs gives the same NLP and the same solver options, regardless of what was built or solved before in the process.",
 ["histories"],
 "all interleavings of construct/set/solve operations on two independent solver instances up to a bounded depth, over option pairs that differ",
 "Tests run in separate processes or in a fixed order and never compare instances.",
 [OP, MO, PR], [("option defaults", OP), ("preprocess", OP)], [("opts_casadi_nlp", "NLP solver options", OP)], ["arguments of casadi.nlpsol and of the NLP solver calls"])
prop("C19", "Butcher tableaux satisfy the order conditions of their scheme",
 "For every number of stages from 1 to 9 and every scheme, the differential tableau has the Gauss-Legendre or Radau-IIA nodes and satisfies the simplifying order conditions B(p), C(s) and D of that scheme, and the integral (collocation) form has the same nodes, differentiates and extrapolates every polynomial of degree s exactly, and has the same quadrature weights. The explicit Runge-Kutta helpers are of order four and integrate over exactly the requested time span or grid.",
 ["inputs"],
 "all 18 tableaux in both forms, all matrix entries; explicit integrators over all polynomial right-hand sides of degree up to 3",
 "Tests use at most 4 stages and only check end results at 1e-6.",
 [RK], [("generate_butcher_tableu", RK), ("generate_butcher_tableu_integral", RK), ("rk4, rk4_on_timegrid", RK)], [], ["return values"])
prop("C20", "Automatic reformulation preserves the nonsmooth right-hand side",
 "For every right-hand side built from sign, min, max and smooth operations, the automatic reformulation either raises an error or returns a model whose dynamics, with the multipliers of the region the state is in, equal the original right-hand side at every point away from the switching surfaces. It never silently drops, duplicates or mixes terms, whatever the number of equations, the number of nonsmooth terms, and repeated switching functions, and the returned model can be turned into a problem unless a switching function depends on a control, which is refused with an error.",
 ["programs", "inputs"],
 "all expression trees over a small grammar up to a bounded size, in one and two equations, evaluated in every sign region",
 "Tests check a few private helpers on five expressions and never reformulate a model end to end.",
 [AU, MO], [("NosnocAutoModel.reformulate", AU)], [], ["the returned NosnocModel"])
prop("C21", "Ill-formed inputs are rejected, never silently accepted",
 "Every dimension or type inconsistency between model, OCP and options (state, control, algebraic, global-variable and path bounds and guesses, parameter values, switching matrices and functions, option types, elements-per-stage list, simulation parameter rows) raises an error at or before solver construction (or loop construction). Every consistent input is accepted.",
 ["inputs", "configurations"],
 "all single corruptions (too short, too long, wrong type) of every sized input of a family of valid problems",
 "Six corruptions are tested.",
 [MO, OC, OP, UT, HE], [("preprocess_model checks", MO), ("preprocess_ocp checks", OC), ("validate", UT)], [], ["exceptions at construction"])
prop("C22", "Exact switched trajectories, and only those, are feasible for the NLP",
 "Every run of the hybrid system whose mode changes happen at finite-element boundaries is, with its exact multipliers, feasible for the unrelaxed FESD NLP in every configuration (boolean mode: as far as the complementarity operands stay below its big M). No point whose convex multipliers select two different regions within one finite element, or leave a region without the switching multiplier vanishing at the boundary, is feasible.",
 ["histories", "configurations"],
 "all runs of small hybrid automata (crossing, sliding entry, sliding, leaving, two subsystems) over up to 4 finite elements and 2 control stages, times scheme, stages, representation, PSS and cross-complementarity modes",
 "Tests solve for single trajectories; feasibility of other mode sequences and infeasibility of misaligned switches is never examined.",
 [PR, MO], [("cross complementarity, continuity of multipliers at element boundaries", PR)], [], [NLP])
prop("C23", "Simulations that report success are accurate and switch exactly",
 "Whenever a FESD simulation of a piecewise-smooth system whose flow the Runge-Kutta scheme integrates exactly, and which meets the switching surfaces transversally (not slower than the step size lets an element rest on the surface), reports success with complementarity below tolerance, every state it returns lies on the exact solution, the switch lies on an element boundary to within tolerance, and the simulated time span is exactly the requested one, for every scheme, representation, PSS mode and cross-complementarity mode and every initial state. All PSS modes and representations agree on the result.",
 ["inputs", "configurations"],
 "all combinations of scheme, stages 1-3, representation, PSS and cross-complementarity mode times a grid of initial states on both sides of the surface, for crossing and sliding systems",
 "Tests cover one initial state per system and a subset of combinations.",
 [PR, SO, MO], [("whole transcription and homotopy", SO)], [], ["NosnocSolver.solve results with the real IPOPT"])
prop("C24", "Active-set fixing and polishing only touch what the active set justifies",
 "With active-set fixing of the first element, exactly the convex multipliers of the first element's stages whose initial multiplier is positive are fixed to zero, and nothing else changes. The polishing step solves one further problem with zero relaxation, started at the last iterate, in which exactly the convex multipliers that are numerically zero or one and the switching multipliers that are numerically zero are fixed to that value, works for every problem the solver accepts, and its outcome is what is returned and reported.",
 ["configurations", "inputs", "fault_sequences"],
 "all initial sign patterns, all zero/one/interior patterns of the multipliers of the last iterate on small problems, all layouts and all solver outcomes",
 "Three tests run these features and check only the final state.",
 [SO], [("fix_active_set_fe0 in solve", SO), ("polish_solution", SO)], [], ["lbx/ubx/x0/p arguments of the NLP solver calls; result dictionary"])
prop("C25", "Smoothed initialisation is a consistent approximation of the nonsmooth system",
 "The smoothed multipliers used for initialisation sum to one in every subsystem for every state, converge to the indicator of the active region away from the switching surfaces as the smoothing parameter goes to zero, and the smoothed vector field is the corresponding combination of the region fields; a nonpositive smoothing parameter is refused. The smoothed initialisation strategy (Stewart representation, schemes ending at the right boundary) writes, for every finite element and stage, the state of the smoothed flow at that stage's time and the multipliers of that state, and nothing else.",
 ["inputs", "configurations"],
 "all sign patterns and a decreasing sequence of smoothing parameters for all small switching matrices; all stage and element counts",
 "One simulation runs the strategy and checks only the final state.",
 [MO, SO], [("add_smooth_step_representation", MO), ("initialize RK4_SMOOTHENED", SO)], [], ["model.*_smooth_fun; x0 argument of the NLP solver"])
prop("C26", "Speed of time and time freezing keep physical time consistent",
 "With speed-of-time variables the dynamics and the running cost of every element are scaled by the variable of its control stage (local mode) or by the single global variable (global mode), which are bounded by the configured limits and reported in the results. With time freezing on an equidistant control grid, the model's clock state at the end of every control stage is constrained to the nominal stage end time, relative to its initial value, within the configured tolerance; a model without clock state is refused.",
 ["configurations"],
 "all combinations of speed-of-time mode, time freezing, control grid, stages, element layout, scheme and representation",
 "The only time-freezing test uses one configuration; the global mode is not tested at all.",
 [PR, OP], [("sot handling in NosnocProblem", PR), ("time_freezing constraint", PR)], [], [NLP, "result field sot"])
prop("C27", "A dumped problem is equivalent to the problem it was dumped from",
 "For every configuration, dumping a problem and loading it again gives the same objective and constraint functions, bounds, start point and index maps as the live problem, and the dumped parameter values are the current initial state and parameters with zero relaxation. Dumping does not change the live problem.",
 ["configurations", "histories"],
 "all option combinations up to a bounded number of deviations, after every short sequence of set calls",
 "dump() is not tested.",
 [PR], [("NosnocProblem.dump", PR)], [], ["the pickle file"])
prop("C28", "FESD retains the convergence order of the underlying Runge-Kutta method",
 "For smooth nonlinear region dynamics the global error of a FESD simulation decreases with the step size at the order of the underlying Runge-Kutta scheme, also across switches.",
 ["inputs"], "all smooth nonlinear piecewise systems and step sizes going to zero",
 "Order is an asymptotic statement about real-valued flows; tests check single step sizes.",
 [PR, RK], [("whole transcription", PR)], [], ["simulation error"])
prop("C29", "The vector field of a solver object is the smoothed Filippov vector field",
 "The function a solver creates for evaluating its vector field returns, at every state, the convex combination of the region vector fields whose weights solve the smoothed complementarity system of the indicator functions: the region field away from the switching surfaces, a combination of the adjacent fields near them, and the limit for decreasing smoothing parameter. It honours controls, global and time-varying parameters, and it refuses systems it cannot represent.",
 ["inputs", "configurations"],
 "all switching matrices of small size, all sign patterns of the switching functions including the surfaces, a decreasing sequence of smoothing parameters, models with and without controls and parameters",
 "The only test plots the field for one model and one smoothing parameter.",
 [SO], [("create_function_calculate_vector_field", SO)], [], ["value of the returned function"])
prop("C30", "Options reach the NLP solver and the homotopy can reach its tolerance",
 "After every sequence of option assignments and constructions with the same options object, the NLP solver is created with exactly the tolerances and settings the last assignments ask for, derived defaults follow the options they are derived from while assigned values are kept, and the homotopy solves the sequence of relaxation parameters the options describe; with the default number of problems the last relaxation parameter is not larger than the complementarity tolerance.",
 ["histories", "configurations"],
 "all words of option assignments and constructions up to a bounded length",
 "Tests construct every options object once and never look at the options passed to the NLP solver.",
 [OP, SO], [("NosnocOpts.preprocess", OP), ("homotopy_solve", SO)], [], ["arguments of ca.nlpsol", "sequence of p arguments of the NLP solver"])
prop("C31", "Inspection never fails and never changes the computation",
 "Printing a problem, its options or its model, selecting a print level, plotting iterates (Stewart representation) and timings, and decoding a primal vector never raise an error for a consistent problem, whatever was set and solved before, and never change a later NLP call or result. What is printed and plotted is the live data: every constraint and variable, the number of inconsistent bounds and guesses, one line per solved problem, the multipliers and states of the iterates, the timings; print level zero prints nothing on success.",
 ["histories", "configurations"],
 "all words of set and solve operations up to a bounded length with every inspection at every position, all options up to a bounded number of deviations, all print levels",
 "Tests only ever use one print level and never print, plot or decode a second time.",
 [PR, SO, UT, "nosnoc/plot_utils.py"], [("NosnocProblem.print", PR), ("_print_iter_stats", SO), ("plot_iterates, plot_timings", "nosnoc/plot_utils.py")], [],
 ["standard output", "the drawn matplotlib figure", NLP])
prop("C32", "Optimal control solutions that report success are true and feasible",
 "Whenever the solution of an optimal control problem with FESD reports success with complementarity below tolerance, and the scheme integrates flow and cost exactly, the reported states start at the current initial state and follow, element by element, a Filippov solution of the model for the reported controls, current parameters, global variables and speed of time; controls, states at element ends, global variables and speed of time respect their bounds, path and terminal constraints hold where they are promised, the time and control grids cover the horizon, and the reported cost is the exact cost of that trajectory plus the step size regulariser. This also holds for later solves with other initial states and parameters.",
 ["configurations", "inputs", "histories"],
 "all listed problems (models x costs and constraints x options x starts) up to the bounds, two consecutive solves each",
 "Tests solve a handful of optimal control problems and compare final states with loose tolerances; none recomputes the cost or checks the trajectory between switches.",
 [PR, SO, OC, MO], [("whole transcription and homotopy", PR), ("get_results_from_primal_vector", SO)], [], ["result dictionary of solve()"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
