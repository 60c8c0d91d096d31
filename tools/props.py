#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py && python3 gen_manifest.py)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, tests, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": tests, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


CI = "ct_core/include/ct/core/"
OI = "ct_optcon/include/ct/optcon/"
RI = "ct_rbd/include/ct/rbd/"

p("P01", "Fixed-step integration computes exactly the named scheme at the right times",
  "Integrating any (closed-loop) continuous-time system for n fixed steps from any state and start time yields exactly the n-fold application of the chosen scheme (explicit Euler, classical Runge-Kutta 4, in both implementations; symplectic Euler for symplectic systems), with stage times advancing by the step. Recorded state and time trajectories, substep recorders and event handlers see the states and times of that same trajectory, constant-step and adaptive interfaces start and stop at the requested times, adaptive schemes honour the error tolerances set by the user, and a re-used or reset integrator behaves as a fresh one.",
  "inputs configurations", "all dynamics f(x,t), controllers, states, start times, step sizes, all listed integrator types and interfaces",
  "integrator tests compare a few closed-form oscillators at loose tolerances with one start time; a wrong stage time or a wrong weight for time-varying dynamics passes them.",
  [CI + "integration/Integrator.h", CI + "integration/Integrator-impl.h", CI + "integration/IntegratorSymplectic-impl.h", CI + "integration/internal/SteppersCT.h", CI + "integration/internal/SteppersODEInt.h", CI + "integration/Observer-impl.h", CI + "integration/EventHandlers"],
  [("steppers", CI + "integration/internal"), ("observer and event handlers", CI + "integration/Observer-impl.h")])
p("P02", "Trajectory lookup returns the interpolant of the stored samples",
  "For any strictly increasing sample times, any data and any sequence of query times and edits, evaluating a trajectory at a time returns the zero-order-hold or linear interpolant of the current samples, clamped to the first and last sample outside their range. Start/final time, duration, size and time-to-index queries agree with the same samples, and earlier look-ups never influence later results.",
  "inputs histories", "sample times, data, query times, interleaved edits, both interpolation types",
  "the interpolation test uses one equidistant grid and monotone queries; cached search positions and boundary comparisons only fail for particular query orders and edits.",
  [CI + "common/Interpolation.h", CI + "types/trajectories/DiscreteTrajectoryBase.h", CI + "types/arrays/TimeArray.h"],
  [("index search with cache and clamped interpolation", CI + "common/Interpolation.h")])
p("P03", "Trajectory and array edits keep data and times consistent",
  "Appending, removing, erasing at the front, resizing, concatenating, swapping, extracting sub-ranges, taking arithmetic of arrays and generating time grids give exactly the sample sequence the operation describes, with each value still attached to its own time. Operands that are not assigned stay unchanged, and a copy is independent of its original.",
  "inputs histories", "data, times, offsets, sequences of edits",
  "array tests check constant-filled arrays of one length.",
  [CI + "types/arrays/DiscreteArray.h", CI + "types/arrays/DiscreteArray.h", CI + "types/arrays/TimeArray.h", CI + "types/trajectories/DiscreteTrajectoryBase.h", CI + "common/linspace.h"],
  [("DiscreteArray operators", CI + "types/arrays/DiscreteArray.h"), ("trajectory edits", CI + "types/trajectories/DiscreteTrajectoryBase.h")])
p("P04", "Discretised systems propagate exactly one interval from time n*dt",
  "One step of a discretised continuous-time system equals K substeps of length dt/K of the selected integration scheme with the control held constant and starting at time n*dt, and the recorded substep states and controls are those of that step. Clones, copies and re-parameterised or re-targeted discretisers do the same and never disturb each other or the caller's system; controlled systems apply their controller's output (zero without controller), also in copies, which own their controller.",
  "inputs configurations histories", "dynamics f(x,u,t), states, controls, dt, K, step index, scheme, construction path",
  "the discretiser test uses one time-invariant system at n=0 without copies.",
  [CI + "systems/discrete_time/SystemDiscretizer-impl.h", CI + "systems/discrete_time/DiscreteControlledSystem.h", CI + "systems/continuous_time/ControlledSystem.h", CI + "control/continuous_time/ConstantController-impl.h", CI + "integration/EventHandlers/SubstepRecorder.h"],
  [("propagateControlledDynamics", CI + "systems/discrete_time/SystemDiscretizer-impl.h")])
p("P05", "Discrete-time sensitivities are the derivatives of the discretised step",
  "The sensitivity integrator returns the exact Jacobians of the discretised (multi-substep) state transition with respect to the start state and the held control for Euler, Runge-Kutta 4 and symplectic Euler, at every step index. The closed-form approximations return their defining maps of the continuous linearisation evaluated at the right point and time: forward Euler, backward Euler, symplectic Euler, Tustin and the matrix exponential (also for singular system matrices).",
  "inputs configurations", "dynamics and linearisations as arbitrary functions of (x,u,t), states, controls, dt, step index, substeps",
  "sensitivity tests compare variants on time-invariant systems at index zero with tolerances that hide first-order differences.",
  [CI + "integration/sensitivity/SensitivityIntegrator.h", CI + "integration/sensitivity/SensitivityApproximation.h"],
  [("integrateSensitivity", CI + "integration/sensitivity/SensitivityIntegrator.h"), ("getAandB", CI + "integration/sensitivity/SensitivityApproximation.h")])
p("P06", "Numerical linearisation reproduces the Jacobians of the dynamics",
  "Finite-difference linearisers of continuous and discrete systems and of general functions return the Jacobian exactly (up to rounding) for affine functions, and for quadratic ones when double-sided, at any point, with truncation error of the order of the square root of machine precision otherwise. They evaluate at the given state, control and time/step, keep the structure of second-order systems, and clones linearise their own copy of the system.",
  "inputs configurations", "coefficients, evaluation points of any magnitude and sign, one- and double-sided, time/step",
  "linearisation tests sample random points of two systems with time 0 and compare at 1e-5.",
  [CI + "systems/linearizer/DynamicsLinearizerNumDiff.h", CI + "systems/continuous_time/linear/SystemLinearizer.h", CI + "systems/discrete_time/linear/DiscreteSystemLinearizer.h", CI + "math/DerivativesNumDiff.h"],
  [("perturbation loop", CI + "systems/linearizer/DynamicsLinearizerNumDiff.h")])
p("P07", "State-feedback controllers evaluate their affine law at the right time and stage",
  "A time-varying state feedback controller returns feedforward(t) + gain(t)*(x - reference(t)), each part interpolated on its own samples, and at integer stage n uses exactly the n-th samples; updating replaces the whole law or throws on inconsistent lengths, and extraction along another trajectory gives one control per stage at its time. Constant feedback and step-input controllers follow their formulas, defaults are zero, and clones keep the law they were cloned from.",
  "inputs histories", "gains, references, feedforwards, grids, query states, times and stages, update/clone sequences",
  "no test exercises non-uniform grids, updates or clones of feedback controllers.",
  [CI + "control/StateFeedbackController-impl.h", CI + "control/continuous_time/ConstantStateFeedbackController.h", CI + "control/continuous_time/siso/StepInputController.h"],
  [("computeControl/update", CI + "control/StateFeedbackController-impl.h")])
p("P08", "PID output follows its law with integral and output limits over all histories",
  "After any history of measurements, setpoint, parameter and state changes, resets and clones, the PID output is P + I + D saturated to the output limits, where I accumulates gain*error*dt and never leaves the integral limit, and D uses the supplied derivative or the backward difference of the last measurement.",
  "histories inputs", "operation histories, gains, limits, measurements",
  "no test covers integral limits, resets or clones of the PID controller.",
  [CI + "control/continuous_time/siso/PIDController-impl.h"],
  [("computeControl, computeI, saturateControl", CI + "control/continuous_time/siso/PIDController-impl.h")])
p("P09", "Switched systems apply the subsystem of the phase active at the query time",
  "For any phase durations and start time, time queries of a phase sequence return the phase whose half-open interval contains the time (first/last phase outside the range), and switch events report the phases and time of the boundary. Switched continuous/discrete and linear/nonlinear systems evaluate dynamics, propagation and Jacobians of exactly that phase's subsystem with unchanged arguments, and clones own their subsystems.",
  "inputs configurations", "durations, start times, query times/steps, subsystems as arbitrary functions",
  "switching tests use integer durations and query points inside phases.",
  [CI + "switching/Switching.h", CI + "systems/continuous_time/SwitchedControlledSystem.h", CI + "systems/discrete_time/SwitchedDiscreteControlledSystem.h", CI + "systems/continuous_time/linear/SwitchedLinearSystem.h", CI + "systems/discrete_time/linear/SwitchedDiscreteLinearSystem.h"],
  [("getIdxFromTime", CI + "switching/Switching.h")])
p("P10", "LTI and second-order systems implement their defining matrices",
  "LTI systems (continuous and discrete) evaluate A*x+B*u dynamics and C*x+D*u outputs, return their stacked controllability and observability matrices, Gramians as the sums they are defined by, and decide controllability/observability correctly; second-order systems follow x'' = -2*zeta*wn*x' - wn^2*x + g*u from either parameterisation and linearise to the matrices of that equation. Copies and clones have the same dynamics and are independent.",
  "inputs configurations", "all system matrices, parameters, states and controls",
  "the tests instantiate one oscillator and never compare the structural matrices.",
  [CI + "systems/continuous_time/linear/LTISystem.h", CI + "systems/discrete_time/linear/DiscreteLTISystem.h", CI + "systems/continuous_time/SecondOrderSystem.h"],
  [("computeControllabilityMatrix, computeObservabilityMatrix", CI + "systems/continuous_time/linear/LTISystem.h")])
p("P11", "Linear solves return the solution of the system for every regular matrix",
  "The AD-compatible LU and LDLT solves return X with A*X = B for every matrix A with non-zero leading minors (symmetric for LDLT) and every right-hand side, and leave their operands unchanged.",
  "inputs", "all matrices with non-zero pivots, all right-hand sides",
  "no test exercises these solves on general matrices.",
  [CI + "math/Inverses.h"],
  [("LUsolve, LDLTsolve", CI + "math/Inverses.h")])
p("P12", "Cost terms evaluate their formula and their derivatives match the value",
  "Every analytical cost term returns the value of its defining formula at the given state, control and time (tracking terms against their reference trajectories at that time), and its first and second derivatives are exactly the derivatives of that value. Clones and copies keep weights, references, name and time activation and are independent of their original.",
  "inputs configurations", "weights, references, states, controls, times",
  "cost-function tests compare derivative implementations of a few terms at random points, at time zero.",
  [OI + "costfunction/term"],
  [("term values and derivatives", OI + "costfunction/term")])
p("P13", "Cost functions sum their active terms and keep references and loads consistent",
  "The intermediate/terminal cost is the sum of the registered terms' values, each weighted once by its time activation at the evaluated time, and all first and second derivatives (analytical and numerical) are those of that sum; the current point is never disturbed by evaluation. Reference updates reach every addressed term and nothing else, clones are deep, and terms and activations loaded from configuration files evaluate like those constructed with the same parameters.",
  "inputs configurations histories", "terms, weights, activations, states, controls, times, update/clone sequences, file contents",
  "tests compare analytical and AD costs of one config file at activation-free points.",
  [OI + "costfunction/CostFunctionQuadratic-impl.hpp", OI + "costfunction/CostFunctionAnalytical-impl.hpp", OI + "costfunction/CostFunctionQuadraticSimple-impl.hpp", OI + "costfunction/utility"],
  [("evaluateIntermediate*/evaluateTerminal*", OI + "costfunction/CostFunctionQuadratic-impl.hpp")])
p("P14", "Constraint containers stack all terms with consistent Jacobians and bounds",
  "Constraint containers return, in registration order, the stacked values, bounds, sparse and dense Jacobians and sparsity patterns of all intermediate/terminal terms at the current state, control and time; Jacobians are the derivatives of the values, sparse and dense forms agree, reported violations are the distances outside the bounds, and clones are independent. Switched containers evaluate the container of the phase active at the current time.",
  "inputs configurations histories", "term coefficients, bounds, states, controls, times, phases, registration order",
  "constraint tests use one container with fixed numbers and no terminal/phase changes.",
  [OI + "constraint/ConstraintContainerAnalytical-impl.h", OI + "constraint/ConstraintContainerBase-impl.h", OI + "constraint/LinearConstraintContainer-impl.h", OI + "constraint/term"],
  [("evaluateIntermediate/jacobian*Intermediate", OI + "constraint/ConstraintContainerAnalytical-impl.h")])
p("P15", "Unconstrained LQ solutions satisfy the optimality conditions for every problem",
  "For every linear-quadratic optimal control problem with convex stages, the Riccati solver's affine policy, applied from any start state, and the returned state/control sequences satisfy the first-order optimality conditions and the dynamics, for any construction path and re-use of the solver. Problem containers store box constraints relative to the nominal point, sample time-invariant problems as documented, reject inconsistent sizes, and constrained problems are rejected by the unconstrained solver.",
  "inputs configurations histories", "problem matrices, start states, dimensions, stages, regularisation, solver re-use",
  "tests compare two LQ solvers on one random problem of fixed size.",
  [OI + "solver/lqp/GNRiccatiSolver-impl.hpp", OI + "solver/lqp/LQOCSolver.hpp", OI + "problem/LQOCProblem-impl.hpp"],
  [("designController, computeCostToGo", OI + "solver/lqp/GNRiccatiSolver-impl.hpp"), ("set*Constraint*", OI + "problem/LQOCProblem-impl.hpp")])
p("P16", "LQR gains come from Riccati recursions along the right trajectory point and time",
  "A Riccati step returns K = -(R+B'PB)^-1 B'PA and P = Q + A'PA - K'HK (with the documented eigenvalue shift in its robust form). The discrete algebraic solver returns an iterate that changed by less than the tolerance or throws. Finite-horizon gains follow the recursion with costs and linearisations taken at each stage's state, control and time and reject inconsistent lengths; the iterative continuous-time solution satisfies the algebraic Riccati equation and stabilises.",
  "inputs configurations", "system and weight matrices, trajectories, dt, tolerances, iteration limits",
  "LQR tests evaluate one system numerically with loose comparisons.",
  [OI + "lqr/riccati/DynamicRiccatiEquation.hpp", OI + "lqr/riccati/DARE-impl.hpp", OI + "lqr/FHDTLQR-impl.hpp", OI + "lqr/riccati/CARE-impl.hpp", OI + "lqr/LQR-impl.hpp"],
  [("iterateNaive, iterateRobust", OI + "lqr/riccati/DynamicRiccatiEquation.hpp"), ("solve, linearizeModel", OI + "lqr/FHDTLQR-impl.hpp")])
p("P17", "NLOC rollouts, defects and costs are those of the real trajectory",
  "For every NLOC algorithm, shot length and initial guess, the solver's rollout integrates the system within each shot from the shot's initial state (applying the guess feedback around the guess states for closed-loop algorithms), the defects are the gaps between a shot's end and the next shot's start, and the reported cost is the time-discretised intermediate cost of that trajectory plus its terminal cost at the horizon's end.",
  "inputs configurations", "algorithms, shot lengths, dynamics and cost as arbitrary functions, guesses, feedback gains, time steps",
  "solver tests check convergence on a few oscillators.",
  [OI + "nloc/NLOCBackendBase-impl.hpp", OI + "nloc/algorithms/MultipleShooting-impl.hpp", OI + "nloc/algorithms/SingleShooting-impl.hpp"],
  [("rolloutSingleShot, computeSingleDefect, computeCostsOfTrajectory", OI + "nloc/NLOCBackendBase-impl.hpp")])
p("P18", "A full NLOC iteration is the Gauss-Newton step of the problem it was given",
  "One full-step iteration of every NLOC algorithm returns the trajectory, feedforward and feedback given by the Riccati solution of the linear-quadratic approximation at the current trajectory (dynamics linearised and discretised at each stage's state, control and time, cost derivatives scaled by the time step, defects included), followed by the algorithm's rollout; continuous-time problems are discretised and linearised with the configured integrator, step number and sensitivity scheme.",
  "inputs configurations", "algorithms, shot lengths, arbitrary dynamics, linearisations and costs, guesses, time steps, sub-steps",
  "solver tests check convergence on a few problems with time-invariant dynamics and costs.",
  [OI + "nloc/NLOCBackendBase-impl.hpp", OI + "system_interface", OI + "solver/lqp/GNRiccatiSolver-impl.hpp", CI + "integration/sensitivity/SensitivityIntegrator.h"],
  [("executeLQApproximation, extractSolution, initializeCostToGo", OI + "nloc/NLOCBackendBase-impl.hpp")])
p("P19", "NLOC line search only accepts steps its acceptance rule allows",
  "For every line-search type, the accepted step size is the first of the backtracking sequence whose rolled-out trajectory satisfies the configured acceptance condition on the merit function (cost plus weighted defects); the returned trajectory, controls, cost and defects are those of that step, and when every step is rejected the solver keeps the trajectory, cost and defects it had before.",
  "inputs configurations", "line-search types and parameters, algorithms, arbitrary dynamics and costs, step directions",
  "tests only watch convergence, which a wrong acceptance rule usually also reaches.",
  [OI + "nloc/NLOCBackendBase-impl.hpp", OI + "nloc/NLOCBackendST-impl.hpp"],
  [("acceptStep, lineSearch", OI + "nloc/NLOCBackendBase-impl.hpp"), ("performLineSearch", OI + "nloc/NLOCBackendST-impl.hpp")])
p("P20", "Real-time iterations and restarts use the new state, dynamics and cost",
  "A real-time (MPC) iteration that is prepared before and finished after the measured state arrives returns the same step as the linear-quadratic approximation at the trajectory starting from the measured state, with a policy that is consistent with its own reference trajectory; iterations after changing the initial state, the dynamics or the cost function continue from the solution found so far, executed with its feedback, and contain nothing of the replaced data.",
  "inputs configurations histories", "algorithms, shot lengths, guesses, measured states, arbitrary old and new dynamics and costs",
  "MPC tests only check the distance of the final state from the goal.",
  [OI + "nloc/algorithms/MultipleShooting-impl.hpp", OI + "nloc/algorithms/SingleShooting-impl.hpp", OI + "nloc/NLOCBackendBase-impl.hpp"],
  [("prepareMPCIteration, finishMPCIteration", OI + "nloc/algorithms/MultipleShooting-impl.hpp"), ("changeInitialState, changeNonlinearSystem, changeCostFunction", OI + "nloc/NLOCBackendBase-impl.hpp")])
p("P21", "MPC time keeping and horizon strategies give the documented horizons",
  "Given the initial horizon, the minimum horizon, the time since the first solve and the prediction stop time, each of the four horizon modes yields its documented horizon and end-of-task flag (also after settings or horizon updates). The externally timed time keeper reports the times since the first and previous solve, the measured delay statistics and a forward-prediction window [elapsed, elapsed + delay] clipped to the current horizon, for every sequence of clock readings, and forgets everything when re-initialised.",
  "inputs configurations histories", "modes, horizons, delay settings, clock readings, re-initialisation",
  "the MPC test runs one mode with real clocks.",
  [OI + "mpc/MpcTimeKeeper.h", OI + "mpc/timehorizon/MpcTimeHorizon-impl.h"],
  [("computeNewTimings", OI + "mpc/MpcTimeKeeper.h"), ("computeNewTimeHorizon", OI + "mpc/timehorizon/MpcTimeHorizon-impl.h")])
p("P22", "MPC hands over correctly shifted policies, start states and time stamps",
  "Every MPC iteration warm-starts the solver with the previous policy advanced by the elapsed whole steps and cut or extended (repeating its last entries on an increasing time grid) to the new horizon, gives it the measured state predicted to the end of the delay with the policy in execution, and returns the solver's policy with the time at which it starts, advanced by exactly what post-truncation removed. Cold start, failed solves, custom prediction controllers and resets behave as configured.",
  "inputs configurations histories", "policies, clock readings, measured states, delays, horizon modes, arbitrary dynamics and solver results",
  "the MPC test never compares policies, time stamps or predicted states.",
  [OI + "mpc/MPC-impl.h", OI + "mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h"],
  [("prepareIteration, finishIteration", OI + "mpc/MPC-impl.h"), ("designWarmStartingPolicy, truncateSolutionFront", OI + "mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h")])
p("P23", "DMS decision variables map to one consistent time grid, guess and policy",
  "For every number of shots, horizon and spline type, the direct-multiple-shooting decision vector holds exactly the node states and controls in their documented slots on an equidistant grid that ends at the horizon. Initial guesses (by trajectory or linear between start and goal) fill those slots, the control splines, the returned state/control trajectories, times and derivatives with respect to node variables agree with them, and changing the initial state or the time horizon updates constraints, shots, grid and weights consistently.",
  "inputs configurations histories", "shot numbers, horizons, guesses, decision vectors, query times, spline types, later changes",
  "the DMS tests solve two oscillator problems with one setting and check the final state.",
  [OI + "dms/dms_core/DmsDimensions.h", OI + "dms/dms_core/OptVectorDms.h", OI + "dms/dms_core/TimeGrid.h", OI + "dms/dms_core/spline", OI + "dms/dms_core/DmsProblem.h", OI + "dms/dms_core/DmsSolver.h"],
  [("OptVectorDms", OI + "dms/dms_core/OptVectorDms.h"), ("splines", OI + "dms/dms_core/spline")])
p("P24", "DMS continuity constraints and their sparse Jacobian match the integrated shots",
  "For any decision vector, dynamics and shot length, the DMS equality constraints are the initial-state gap and the differences between a node and the end of the previous shot integrated with the configured scheme, steps and control spline; the sparse Jacobian handed to the NLP solver lists each structural entry once at the right row and column and equals the exact derivative of those constraints. Values do not depend on which decision vectors were evaluated before.",
  "inputs configurations histories", "decision vectors, arbitrary dynamics and linearisations, integrators, splines, evaluation order",
  "tests only see a converged solution, which approximate Jacobians or stale caches may still reach.",
  [OI + "dms/constraints/ContinuityConstraint.h", OI + "dms/constraints/InitStateConstraint.h", OI + "dms/dms_core/ShotContainer.h", OI + "dms/dms_core/ControllerDms.h", OI + "dms/constraints/ConstraintsContainerDms.h", CI + "integration/sensitivity/SensitivityIntegrator.h"],
  [("shot integration and sensitivities", OI + "dms/dms_core/ShotContainer.h"), ("evalSparseJacobian", OI + "dms/constraints/ContinuityConstraint.h")])
p("P25", "DMS cost and gradient are those of the discretised trajectory",
  "For both cost evaluation methods (node sum and full shot integration), the NLP objective of any decision vector equals the documented quadrature of the running cost at the node/integration times plus the terminal cost at the last node and final time, and the gradient handed to the NLP solver is its exact derivative with respect to every decision variable.",
  "inputs configurations histories", "decision vectors, arbitrary costs and dynamics, shot numbers, splines, horizon changes",
  "tests check convergence with time-invariant quadratic costs only.",
  [OI + "dms/dms_core/cost_evaluator/CostEvaluatorSimple.h", OI + "dms/dms_core/cost_evaluator/CostEvaluatorFull.h", OI + "dms/dms_core/ShotContainer.h", CI + "integration/sensitivity/SensitivityIntegrator.h"],
  [("eval, evalGradient", OI + "dms/dms_core/cost_evaluator")])
p("P26", "DMS path and terminal constraints reach the NLP with bounds and exact Jacobian",
  "For every combination of input box, state box and general constraint containers, the DMS constraint vector evaluates each intermediate constraint at every node's state, control and time and the terminal ones at the last node, with the containers' bounds, and the sparse Jacobian (pattern and values) is the exact derivative of these rows; the counts of constraints and non-zeros reported to the solver match what is written.",
  "inputs configurations", "decision vectors, arbitrary constraint functions, bounds, combinations of containers, shot numbers, splines",
  "tests use one box constraint on an oscillator.",
  [OI + "dms/constraints/ConstraintDiscretizer.h", OI + "dms/constraints/ConstraintsContainerDms.h", OI + "nlp/DiscreteConstraintContainerBase.h", OI + "nlp/Nlp.h"],
  [("eval, evalSparseJacobian, getLowerBound", OI + "dms/constraints/ConstraintDiscretizer.h")])
p("P27", "EKF and steady-state Kalman filter implement their recursions",
  "Every predict/update sequence of the extended Kalman filter returns the recursion of its models: the propagated estimate, P = A P A' + Q, gain P C'(C P C' + R)^-1 with the measurement predicted at the time of the update, and P = (I - K C) P. The steady-state filter predicts with its system model for the given step and corrects with the gain P C'(C P C' + R)^-1 of the converged filter Riccati equation.",
  "inputs histories", "arbitrary process and measurement models, covariances, controls, measurements, times, sequences of calls",
  "the filter test compares a noisy simulation with a loose bound.",
  [OI + "filter/ExtendedKalmanFilter-impl.h", OI + "filter/SteadyStateKalmanFilter-impl.h", OI + "filter/EstimatorBase.h"],
  [("predict, update", OI + "filter/ExtendedKalmanFilter-impl.h"), ("computeFilterRiccati", OI + "filter/SteadyStateKalmanFilter-impl.h")])
p("P28", "Unscented Kalman filter implements the unscented recursion",
  "For any scaling parameters, models and covariances, predict and update of the unscented Kalman filter use the documented weights (state weights summing to one) and sigma points at the mean plus/minus scaled Cholesky columns of the covariance, propagate them through the process model, and return the weighted means, covariances and cross-covariance correction; a linear model is propagated exactly as the Kalman filter does.",
  "inputs histories", "scaling parameters, arbitrary models, covariances, measurements, sequences of calls",
  "the filter test compares one noisy simulation with a loose bound.",
  [OI + "filter/UnscentedKalmanFilter-impl.h", OI + "filter/UnscentedKalmanFilter.h"],
  [("computeSigmaPoints, predict, update", OI + "filter/UnscentedKalmanFilter-impl.h")])
p("P29", "Filter models and disturbance augmentation describe the given system",
  "The continuous-time filter process model steps the system by exactly the given dt with the control held constant and returns the configured sensitivity and noise Jacobians; linear measurement models return C x and their Jacobians; the input-disturbance augmentation applies the disturbance states to the control, keeps them constant, and its controller acts on the nominal state, also in copies and after a change of controller.",
  "inputs configurations histories", "arbitrary systems and controllers, states, controls, disturbances, times, copies",
  "the disturbance test runs one closed loop and checks convergence.",
  [OI + "filter/CTSystemModel-impl.h", OI + "filter/LTIMeasurementModel-impl.h", OI + "filter/DisturbedSystem.h", OI + "filter/InputDisturbedSystem-impl.h", OI + "filter/DisturbedSystemController-impl.h"],
  [("computeDynamics, computeDerivativeState", OI + "filter/CTSystemModel-impl.h"), ("computeControlledDynamics", OI + "filter/InputDisturbedSystem-impl.h")])
p("P30", "Joint states wrap, compare and check limits exactly",
  "For any joint positions, limits and tolerance, toUniquePosition changes each position by whole turns only, into [lower - tol, lower + 2 pi + tol], and leaves admissible positions and all velocities alone; position and velocity limit checks accept exactly the states within the limits (widened by the tolerance). Accessors, arithmetic and ordering act on the matching position and velocity entries.",
  "inputs configurations", "positions, velocities, limits, tolerances, joint numbers",
  "the joint state test tries a few fixed angles.",
  [RI + "state/JointState.h", RI + "state/JointAcceleration.h"],
  [("toUniquePosition, checkPositionLimits, checkVelocityLimits", RI + "state/JointState.h")])
p("P31", "Point-to-point joint trajectories respect limits and reach the target in time",
  "For any start, target and positive velocity and acceleration limits, the single-joint trajectory starts at rest at the start, ends at rest exactly at the target after the minimum time for those limits and stays there; its velocity is the derivative of its position, never exceeds the limit and never changes faster than the acceleration limit; it moves monotonically without overshoot. The arm generator samples exactly these joint trajectories over the slowest joint's duration. Negative times are rejected.",
  "inputs histories", "starts, targets, limits, query times, sampling times, re-use",
  "there is no test of these classes that the build runs; sampled plots would miss discontinuities at phase switches.",
  [RI + "common/SingleDOFTrajectoryGenerator.h", RI + "common/SimpleArmTrajectoryGenerator.h"],
  [("setup, queryTrajectory", RI + "common/SingleDOFTrajectoryGenerator.h"), ("generateTrajectory", RI + "common/SimpleArmTrajectoryGenerator.h")])
p("P32", "Actuator models, joint PID and selection matrices map joints correctly",
  "Second-order actuators give each joint its own damped oscillator with the configured frequency, damping and (by default unit) amplification; series-elastic actuators turn motor velocity and spring deflection into gear velocity and torque; for both, the state reconstructed from an output reproduces that output. The joint position PID controller runs one independent PID loop per joint on that joint's position and velocity, and selection matrices route each input to the matching actuated coordinate.",
  "inputs configurations histories", "parameters, joint and actuator states, controls, setpoint and gain changes, dimensions",
  "the tests of these classes are not part of the runnable suite.",
  [RI + "robot/actuator/SecondOrderActuatorDynamics-impl.h", RI + "robot/actuator/SEADynamicsFirstOrder-impl.h", RI + "robot/control/JointPositionPIDController-impl.h", RI + "robot/control/SelectionMatrix-impl.h"],
  [("computeActuatorDynamics, computeStateFromOutput", RI + "robot/actuator")])
p("P33", "Spatial algebra and rigid body inertias obey Newton-Euler mechanics",
  "The rigid-body-dynamics library's spatial vectors, transforms and inertias are consistent: motion and force cross products, spatial transform conversions and inertia tensors (dense and sparse) equal their definitions for any mass, centre of mass, inertia, rotation and translation; inertia after a change of mass or rigid motion is that of the moved body, and gyroscopic bias forces equal v x* I v, including the specialised single-axis versions.",
  "inputs configurations", "masses, centres of mass, inertia tensors, rotations, translations, spatial velocities",
  "the repository has no runnable test of this library.",
  [RI.replace("ct/rbd/", "ct/iit/rbd/") + "InertiaMatrix.h", RI.replace("ct/rbd/", "ct/iit/rbd/") + "utils.h", RI.replace("ct/rbd/", "ct/iit/rbd/") + "robcogen_commons.h"],
  [("fill, changeRefFrame", RI.replace("ct/rbd/", "ct/iit/rbd/") + "InertiaMatrix.h")])
MI = "ct_models/include/ct/models/"
p("P34", "Generated robot models: kinematics, Jacobians and dynamics agree",
  "For every joint configuration of the pendulum, double pendulum, quadrotor with load, HyQ and HyA models, the homogeneous, motion and force transforms between the same two frames describe the same rigid motion, opposite transforms are inverses, chained transforms equal the direct one, and each Jacobian is the derivative of its transform. Inverse dynamics, gravity, Coriolis terms and the joint space inertia matrix equal the Newton-Euler law of the links under external forces, and forward dynamics inverts inverse dynamics.",
  "inputs configurations", "joint angles, velocities, accelerations, torques, external wrenches, base motion, link parameters",
  "the runnable tests never execute these models.",
  [MI + "InvertedPendulum/generated/inverse_dynamics.impl.h", MI + "DoubleInvertedPendulum/generated/forward_dynamics.impl.h", MI + "QuadrotorWithLoad/generated/inverse_dynamics.impl.h", MI + "HyQ/generated/transforms.impl.h", MI + "HyQ/generated/jsim.impl.h", MI + "HyA/generated/jacobians.impl.h", MI + "HyA/generated/forward_dynamics.impl.h"],
  [("forward and inverse dynamics", MI + "HyQ/generated"), ("transforms and Jacobians", MI + "HyA/generated")])
p("P35", "Quadrotor model obeys rigid body motion and its linearisation is exact",
  "For every state away from the pitch singularity and every thrust and moment, the quadrotor model moves as a rigid body with its mass and inertia under gravity, body-axis thrust and body moments (Newton and Euler equations with XYZ Euler angles), and the matrices of the analytic linear model are the exact derivatives of that motion with respect to state and control.",
  "inputs", "attitudes, velocities, body rates, thrust, moments",
  "the NLOC tests do not include the quadrotor; a wrong generated entry only slows convergence.",
  [MI + "Quadrotor/Quadrotor.hpp", MI + "Quadrotor/QuadrotorLinear.hpp", "ct_models/src/Quadrotor/A_quadrotor.cpp", "ct_models/src/Quadrotor/quadrotor_ode.cpp"],
  [("quadrotor_ode", "ct_models/src/Quadrotor/quadrotor_ode.cpp"), ("A_quadrotor, B_quadrotor", "ct_models/src/Quadrotor/A_quadrotor.cpp")])
p("P36", "Constraints given to NLOC reach the LQ subproblem relative to the trajectory",
  "For every box and general constraint handed to the nonlinear optimal control solver, each iteration's LQ subproblem restricts exactly the original constraint linearised about the current trajectory: box bounds are shifted by the current state or control, general constraints carry their own Jacobians and distance to the bounds at that stage's state, control and time, terminal constraints use the terminal state, and sizes cover every stage; they are refreshed in every iteration and when constraints are set late. A solver that cannot handle constraints refuses them. The line search merit contains the true constraint violation of the candidate and of the starting trajectory.",
  "inputs configurations histories", "constraint functions and bounds, trajectories, subproblem solutions, stages, iterations, selection patterns",
  "the constrained solver tests need HPIPM and are not part of the runnable suite.",
  [OI + "nloc/NLOCBackendBase-impl.hpp", OI + "problem/LQOCProblem-impl.hpp", OI + "nloc/algorithms/MultipleShooting-impl.hpp", OI + "nloc/algorithms/SingleShooting-impl.hpp", OI + "solver/lqp/GNRiccatiSolver-impl.hpp", OI + "constraint/ConstraintContainerBase-impl.h"],
  [("computeLinearizedConstraints, computeBoxConstraintErrorOfTrajectory, computeGeneralConstraintErrorOfTrajectory", OI + "nloc/NLOCBackendBase-impl.hpp"), ("setInputBoxConstraint, setIntermediateStateBoxConstraints", OI + "problem/LQOCProblem-impl.hpp")])
p("P37", "Signal and geometry helpers: quantiser, planes, ellipsoids and external timer",
  "The quantiser outputs a multiple of its interval, carries the rounding rest of each signal separately so that outputs plus rest always sum to the inputs, and starts from zero for new signals and after a reset. Solving a plane for one coordinate gives a point on the plane; the ellipsoid test is the scaled squared body-frame distance from the centre minus one (so non-positive exactly inside) and follows a moved centre; the externally driven timer reports the last stop minus the last start reading, zero before and after a reset. Invalid coefficient indices and too few points for a plane fit are rejected.",
  "inputs histories", "signals, indices, rounding method, resets, plane and ellipsoid parameters, points, clock readings",
  "none of these classes is exercised by the runnable tests.",
  [CI + "common/QuantizationNoise.h", CI + "geometry/Plane.h", CI + "geometry/Ellipsoid.h", CI + "common/ExternallyDrivenTimer.h"],
  [("quantize", CI + "common/QuantizationNoise.h"), ("insideEllipsoid", CI + "geometry/Ellipsoid.h")])
p("P38", "Multi-threaded NLOC equals single-threaded NLOC under every thread schedule",
  "With worker threads, every interleaving of the workers and the calling thread yields exactly the same iterates, line-search choice and final policy as the single-threaded solver for the same problem, and every solve and shutdown completes: no schedule loses a wake-up, deadlocks, lets a worker process a stage twice or with stale data, or lets it touch results of an earlier or later task.",
  "schedules inputs configurations", "all interleavings (bounded number of deviations) of two workers and the caller at synchronisation points, dynamics, cost, guess, start state; full step, line search, two iterations, single shooting",
  "tests run the operating system's few favourable schedules on linear problems.",
  [OI + "nloc/NLOCBackendMP-impl.hpp", OI + "nloc/NLOCBackendMP.hpp", OI + "nloc/NLOCBackendST-impl.hpp", OI + "nloc/NLOCBackendBase-impl.hpp"],
  [("threadWork / startupRoutine", OI + "nloc/NLOCBackendMP-impl.hpp")])
p("P39", "Control simulator: real-time simulation integrates the held control",
  "The simulated system advances by exactly one control interval per control update, integrating the system with the control held over that interval (the remainder included when the interval is not a multiple of the simulation step) and stage times following the simulation; the recorded states are those of the integration, a simulation ends after the requested duration or on a stop request, can be run again and copied, and finishes under every interleaving of its threads.",
  "inputs schedules histories", "dynamics, controls, start states, intervals, schedules of system, controller and calling thread, stop and re-run",
  "the class has no runnable test; its threads depend on wall-clock sleeps.",
  [CI + "simulation/ControlSimulator.h"],
  [("simulateSystem / controlLoop", CI + "simulation/ControlSimulator.h")])
p("P40", "NLP solver interface and DMS solver hand the problem over faithfully",
  "Every callback of the interior point optimiser (sizes, bounds, starting point and multipliers, cost, gradient, constraints, sparse Jacobian and Hessian) returns the values of the given nonlinear program at the point asked for, whatever the order of the callbacks. The optimiser's solution, multipliers and success are returned, warm starts use them, and the configured options reach it. The multiple shooting solver builds that program from its own problem, horizon, initial state, constraints and guess.",
  "inputs histories configurations", "programs, evaluation points, callback orders, optimiser results, repeated solves, settings",
  "the optimiser tests only look at the final solution of a few small programs and need IPOPT.",
  [OI + "nlp/solver/implementation/IpoptSolver-impl.h", OI + "nlp/solver/IpoptSolver.h", OI + "nlp/Nlp.h", OI + "nlp/OptVector.h", OI + "nlp/DiscreteConstraintContainerBase.h", OI + "dms/dms_core/DmsSolver.h"],
  [("get_nlp_info / eval_* / finalize_solution", OI + "nlp/solver/implementation/IpoptSolver-impl.h"), ("configure / solve", OI + "dms/dms_core/DmsSolver.h")])
p("P41", "Constrained LQ solver interface (HPIPM) states the given problem exactly",
  "For every sequence of linear quadratic problems set on the interface (horizons growing, shrinking or equal, constraints added, removed or changed in value only, the same object again or another one), the quadratic program handed to the library is the given one: dynamics, cost, index sets and finite bounds of every stage, infinite bounds switched off and no others, the initial deviation fixed to zero. The library's states, controls, feedback and feedforward are returned, the first feedback following from its Riccati matrices, and the configured iteration limit is used.",
  "inputs histories configurations", "problem matrices, bounds, horizons, constraint patterns, sequences of problems, library answers",
  "HPIPM is not installed, so no runnable test touches this code.",
  [OI + "solver/lqp/HPIPMInterface-impl.hpp", OI + "solver/lqp/HPIPMInterface.hpp", OI + "solver/lqp/LQOCSolver.hpp", OI + "problem/LQOCProblem.hpp"],
  [("configureInputBoxConstraints / configureStateBoxConstraints / configureGeneralConstraints", OI + "solver/lqp/HPIPMInterface-impl.hpp"), ("computeFeedbackMatrices", OI + "solver/lqp/HPIPMInterface-impl.hpp")])
#--MORE--
if __name__ == "__main__":
    with open(H + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
