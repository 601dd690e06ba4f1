#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
W = "include/hpp/bezier-com-traj/waypoints/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "A successful CoM plan meets every requested boundary condition",
  "When the centre-of-mass planner reports success, the returned curve is defined exactly on [0, total duration] and its initial and final position, velocity and acceleration equal the values of the problem for each of those the constraint option fixes. This holds for every supported combination of boundary options, for positions at the coordinate origin as anywhere else, for both constraint representations, both discretisation modes, both solvers and any number of phases.",
  ["inputs", "configurations"],
  "all boundary states, durations, contact scenes; 7 constraint-option sets x {fixed points, time step, continuous} x {double description, force} x {QP, LP}",
  "the tests plan a handful of recorded scenes and check end points for some of them only, never with zero-valued states",
  ["src/computeCOMTraj.cpp", "src/waypoints_definition.cpp", "include/hpp/bezier-com-traj/utils.hh", W],
  [("constant control points per option set", W), ("curve assembly from option flags", "include/hpp/bezier-com-traj/utils.hh"), ("result construction", "src/computeCOMTraj.cpp")],
  ["computeCOMTraj", "computeCOMTrajFixedSize"])
p("C02", "Sampled formulation: success means every sampled instant is feasible",
  "When the centre-of-mass planner, in fixed-count or time-step mode, reports success, then at every sampling instant the returned trajectory lies inside the kinematic polytope of the active phase, needs a contact wrench that the phase's contacts can produce with the requested safety margin, and respects the acceleration limit when that limit is switched on. At a phase switch the conditions of both phases hold.",
  ["inputs", "configurations"],
  "all scenes, phase counts, time steps, point counts, option sets, safety margins and acceleration limits",
  "the tests check success flags and stability on a few scenes with one sampling density",
  ["src/computeCOMTraj.cpp", "src/utils.cpp", "src/common_solve_methods.cpp", W],
  [("per-step stability, kinematic and acceleration rows, doubled at switches", "src/computeCOMTraj.cpp"), ("time arrays", "src/utils.cpp"), ("wrench curve control points", W)],
  ["computeCOMTraj with a time step", "computeCOMTrajFixedSize"])
p("C03", "Continuous formulation: success means feasible at every instant",
  "When the planner is used without time sampling and reports success, the returned trajectory satisfies the active phase's kinematic constraints, contact-wrench feasibility and acceleration limit at every instant of the motion, not only at control or sample points. At phase boundaries this holds for both adjoining phases, with the double-description and with the contact-force representation, and with the QP and the LP solver.",
  ["inputs", "configurations"],
  "all times in [0,T] of all successful continuous plans over scenes, phase counts and contact sequences, both representations, both solvers",
  "the tests sample one or two scenes and only for the inequality representation",
  ["src/computeCOMTraj.cpp", W],
  [("Bezier split per phase and constraints on control points", "src/computeCOMTraj.cpp"), ("force equality rows and dropped redundant boundary points", "src/computeCOMTraj.cpp"), ("symbolic control points", W)],
  ["computeCOMTraj without a time step"])
p("C04", "Zero-step capturability: success means the robot really stops, safely",
  "When the zero-step query reports success, the returned trajectory starts at the given centre-of-mass position and velocity, ends at rest at the returned point inside the kinematic (and, with angular momentum, angular) limits, and at every checked instant requires only contact wrenches the contact phase can produce, counting the returned angular-momentum rate. Without a time step this holds for all instants of the motion; with one it holds at the sampled instants.",
  ["inputs", "configurations"],
  "all contact phases, states, durations, time steps, with and without angular momentum and with kinematic/angular limits",
  "the tests compare success with the equilibrium library on random scenes but never evaluate the curve, never use angular limits",
  ["src/solve_0_step.cpp", "src/common_solve_methods.cpp"],
  [("wrench control points w0..w4 and angular ones u0..u4", "src/solve_0_step.cpp"), ("inequality assembly, kinematic and angular limits", "src/common_solve_methods.cpp"), ("curve construction", "src/solve_0_step.cpp")],
  ["solve0step"])
p("C05", "The feasibility verdict is right in both directions",
  "A planning or capturability request fails if and only if no choice of the free control point (and angular momentum variable) satisfies the constraints the formulation imposes. A problem with a comfortably interior solution is never reported infeasible and one whose constraints are violated by a clear margin is never reported feasible.",
  ["inputs", "configurations"],
  "all problems whose best constraint margin is not within numerical tolerance of zero; all modes with the inequality representation and the zero-step query",
  "tests fix expected verdicts for a few scenes; a constraint silently dropped, duplicated or mis-signed shifts the verdict only near its boundary",
  ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/common_solve_methods.cpp", "src/solver-abstract.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp"],
  [("constraint assembly", "src/computeCOMTraj.cpp"), ("row normalisation and zero-row removal", "src/common_solve_methods.cpp"), ("solver status mapping", "src/solver-abstract.cpp")],
  ["success flag of computeCOMTraj, computeCOMTrajFixedSize, solve0step"])
p("C06", "The returned plan minimises the requested cost",
  "Among all trajectories satisfying the imposed constraints, the returned one minimises the selected cost: summed squared acceleration, distance of the free point to the middle of start and goal, deviation of the final velocity from the target, or for zero-step queries the distance to the initial position (traded with angular momentum when that is enabled). No feasible trajectory of the same family is better by more than numerical tolerance.",
  ["inputs", "configurations"],
  "all feasible problems x cost functions x option sets solved with the QP solver",
  "the tests never compare the returned point with another feasible one; two of the cost functions are not exercised at all",
  ["src/costfunction_definition.cpp", "src/solve_0_step.cpp", "src/solver-abstract.cpp", "src/eiquadprog-fast.cpp", W],
  [("cost matrices", "src/costfunction_definition.cpp"), ("acceleration expression per option set", W), ("zero-step cost", "src/solve_0_step.cpp")],
  ["x of the result"])
p("C07", "QP solver returns the constrained minimum or the right refusal",
  "For a strictly convex quadratic programme with linear equalities and inequalities, the QP solver reports optimal exactly when the constraints can be met, and then returns the unique minimiser, satisfying every constraint, with the objective value, active set and multipliers it reports. A step limit set by the caller is never exceeded silently: the answer is either the same as without it or a refusal. Reusing one solver object for problems of different sizes, and the dense and sparse entry points, give the same answers.",
  ["inputs", "histories"],
  "all strictly convex QPs with 1..30 variables, any mix of equalities, inequalities, redundant, duplicated and degenerate rows; sequences of problems on one object",
  "no test calls the QP solver directly; the planner's tests only see small non-degenerate problems",
  ["src/eiquadprog-fast.cpp", "include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp"],
  [("dual active-set iterations (Goldfarb-Idnani)", "src/eiquadprog-fast.cpp"), ("equality insertion", "src/eiquadprog-fast.cpp")],
  ["solve_quadprog", "solve_quadprog_sparse"],
  [("active set", "indices of active constraints and their multipliers", "include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp")])
p("C08", "LP solver and solver front end honour bounds, equalities and status",
  "Through the common solving entry point, a linear programme with inequalities, equalities and variable bounds is reported solved exactly when it has an optimum, and the returned point then satisfies all constraints and bounds and attains the optimal objective, whatever the problem's size. The QP back end, given the same constraints and bounds through the same entry point, honours them identically.",
  ["inputs", "configurations"],
  "all bounded/unbounded/infeasible LPs, any mix of one- and two-sided, equal and absent bounds, sparse or dense, up to tens of thousands of coefficients",
  "the tests reach the LP back end only through two planner scenes without upper bounds",
  ["src/glpk-wrapper.cpp", "src/solver-abstract.cpp"],
  [("bound classification", "src/glpk-wrapper.cpp"), ("bound rows for the QP back end", "src/solver-abstract.cpp")],
  ["solvers::solve with both solver choices"])
p("C09", "Symbolic curve expressions agree with the real curve",
  "For every supported boundary option set, the library's symbolic expressions in the free variable(s) - fixed control points, position, velocity, acceleration and jerk at a time, derivative control points, contact-wrench control points, final velocity and velocity cost - agree, for every value of the free variable(s), with the corresponding quantity of the actual Bezier curve. This includes boundary states that are zero or place a control point at the origin.",
  ["inputs", "configurations"],
  "all boundary states, durations, times and free-variable values; all option sets for which the expression is provided",
  "tests check some end values for some option sets; coefficients multiplied by a zero or symmetric input are invisible to them",
  [W, "src/waypoints_definition.cpp", "src/computeCOMTraj.cpp"],
  [("hand-expanded expressions per option set", W), ("dispatch on option flags", "src/waypoints_definition.cpp")],
  ["computeConstantWaypoints(Symbolic)", "evaluate*AtTime", "compute*Waypoints", "computeWwaypoints", "computeFinalVelocityPoint", "computeVelocityCost"])
p("C10", "End-effector planner: boundary state, clearance and best tracking",
  "A successful end-effector plan is defined on [0, duration], starts and ends with exactly the requested position, velocity, acceleration and jerk, and keeps every free control point at or above the lower of the start and goal heights. Subject to that, it minimises the weighted combination of integrated squared velocity and deviation from the reference path, so weight one tracks the path as closely as the curve family allows. A plan is found whenever one clearly exists.",
  ["inputs", "configurations"],
  "all boundary states, durations, reference paths and weights in [0,1]; one, three and five free control points",
  "the tests check the end points of a few curves; optimality, path tracking and the height condition are never checked",
  ["include/hpp/bezier-com-traj/solve_end_effector.hh", W],
  [("constraint matrix", "include/hpp/bezier-com-traj/solve_end_effector.hh"), ("cost assembly", "include/hpp/bezier-com-traj/solve_end_effector.hh"), ("jerk option sets", W)],
  ["solveEndEffector"])
p("C11", "No memory error or undefined behaviour on any accepted input",
  "No call of the public interface with well-formed arguments reads or writes outside an object, uses uninitialised memory, aborts, overflows or otherwise triggers undefined behaviour. This includes large and degenerate problems, empty constraint sets, bounds on both sides, and default-constructed or copied problem data.",
  ["inputs", "histories", "configurations"],
  "all well-formed calls, including problem sizes far beyond the tests and degenerate active sets",
  "the test suite runs uninstrumented on small problems; an overflow that does not crash goes unseen",
  ["src/glpk-wrapper.cpp", "src/solver-abstract.cpp", "src/eiquadprog-fast.cpp", "src/computeCOMTraj.cpp", "include/hpp/bezier-com-traj/data.hh", "src/common_solve_methods.cpp"],
  [("buffer sizing", "src/glpk-wrapper.cpp"), ("active-set bookkeeping", "src/eiquadprog-fast.cpp"), ("row counting before filling", "src/computeCOMTraj.cpp")],
  ["the whole public interface under AddressSanitizer, UBSan and memcheck"])
p("C12", "Results depend only on the arguments: pure, repeatable, thread-safe",
  "Solving the same problem gives bit-identical results whatever was solved before, leaves the caller's problem data untouched, and concurrent calls from several threads on separate problem data race on nothing and return what they return alone. Results stay valid after the inputs are destroyed.",
  ["histories", "schedules"],
  "all sequences and thread interleavings of planner, capturability, end-effector and QP calls",
  "tests run each problem once, in one thread",
  ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/costfunction_definition.cpp", "src/waypoints_definition.cpp", "src/eiquadprog-fast.cpp", "include/hpp/bezier-com-traj/data.hh"],
  [("static dispatch tables are constant", "src/costfunction_definition.cpp"), ("per-call solver objects", "src/solver-abstract.cpp")],
  ["all planner entry points, ThreadSanitizer, argument snapshots"])
p("C13", "Unsupported requests are refused, never answered wrongly",
  "A request naming an unsupported combination of boundary options, an unknown cost function or solver, a number of durations different from the number of contact phases, no contact phase at all, contact phases that are undefined or have no usable wrench description, no sampling point per phase, or a cost that contradicts the boundary options raises an error and returns no plan. Conversely every supported combination is accepted without error.",
  ["inputs", "configurations"],
  "all option bit patterns, cost values, solver values and phase/duration counts",
  "the tests try one or two unsupported values",
  ["src/computeCOMTraj.cpp", "src/costfunction_definition.cpp", "src/waypoints_definition.cpp", "src/solver-abstract.cpp"],
  [("dispatch and exceptions", "src/waypoints_definition.cpp"), ("size checks", "src/computeCOMTraj.cpp"), ("cost dispatch and contradiction check", "src/costfunction_definition.cpp")],
  ["exceptions from every planner entry point"])
p("C14", "Time sampling covers every phase, boundaries included",
  "Sampling by count or by step yields times that never decrease, start at zero, end at exactly the total duration, are labelled with the phase they belong to, are spaced by at most the requested step inside a phase, and include every phase switch. Sampling by count gives exactly the requested number of intervals in every phase; sampling by step lists each switch for both phases.",
  ["inputs"],
  "all phase durations, point counts and time steps",
  "one test checks fixed durations with friendly step sizes, where accumulated rounding does not show",
  ["src/utils.cpp"],
  [("fixed-count sampling", "src/utils.cpp"), ("step sampling", "src/utils.cpp")],
  ["computeDiscretizedTime", "computeDiscretizedTimeFixed"])
p("C15", "The result record is self-consistent; failures carry no plan",
  "On success the reported cost, solution vector, terminal velocity and acceleration, angular-momentum curve and trajectory describe one and the same motion: recomputing each from the trajectory and the problem gives the reported value. On failure the record reports no success, carries an empty solution and a constant zero curve, and is never partially filled.",
  ["inputs", "configurations"],
  "all successful and failed requests of all planners and modes",
  "tests read the success flag and the curve, rarely the other fields, and never those of a failed result",
  ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "include/hpp/bezier-com-traj/data.hh", "include/hpp/bezier-com-traj/solve_end_effector.hh"],
  [("result construction", "src/computeCOMTraj.cpp"), ("zero-step result construction and real cost", "src/solve_0_step.cpp")],
  ["fields of the returned record"])
p("C16", "The Python interface returns what the C++ interface returns",
  "A problem built and solved through the Python module gives the same verdict, solution, cost and curve as the same problem through the C++ interface, for every planner the module exposes. Setting and reading a problem field round-trips, and invalid requests surface as Python exceptions rather than crashes.",
  ["inputs", "histories"],
  "all problems expressible through the module; all field assignments and call orders",
  "the Python test makes a handful of calls and compares nothing with the C++ results",
  ["python/bezier_com_traj.cpp", "src/solve_0_step.cpp", "src/computeCOMTraj.cpp"],
  [("argument conversion", "python/bezier_com_traj.cpp"), ("property accessors", "python/bezier_com_traj.cpp")],
  ["the hpp_bezier_com_traj module built from the tree"])
p("C17", "Plans are invariant under re-description of the same problem",
  "Re-describing a problem without changing it does not change the plan: translating all positions and contacts (with zero safety margin, whose unit depends on the origin), or turning horizontal contacts and everything else by quarter turns about the vertical (the symmetry of the linearised friction cones), transforms the verdict and trajectory accordingly; reordering, duplicating or positively scaling kinematic rows, or reordering contact points, leaves them as they were. Loosening constraints never turns a feasible problem infeasible nor raises the optimal cost, and tightening them never does the reverse.",
  ["inputs", "configurations"],
  "pairs of equivalent or ordered problems across scenes, option sets, modes and representations",
  "tests look at single problems; a dropped or mis-transformed term shows only as a disagreement between two descriptions",
  ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/common_solve_methods.cpp", W],
  [("constraint assembly", "src/computeCOMTraj.cpp"), ("wrench expressions", W)],
  ["computeCOMTraj, computeCOMTrajFixedSize, solve0step"])
p("C18", "Alternative formulations of one problem agree",
  "Formulations documented as equivalent give equivalent answers: fixed-count and time-step sampling that produce the same instants, double description and contact forces, the zero-step query and the planner restricted to a stop, and QP and LP solvers on cost-free feasibility agree on the verdict and, for a unique optimum, on the plan. A continuous plan is also feasible for every sampled formulation of the same problem.",
  ["inputs", "configurations"],
  "all problems expressible in both formulations, away from the numerical feasibility boundary",
  "tests compare verdicts of formulations on two or three scenes",
  ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/solver-abstract.cpp", W],
  [("force and inequality constraint assembly", "src/computeCOMTraj.cpp"), ("two independent derivations of the stop curve", "src/solve_0_step.cpp and " + W)],
  ["pairs of calls on the same problem"])
p("C19", "Row normalisation and affine arithmetic preserve what they represent",
  "Normalising a system of inequalities keeps its solution set, gives unit-norm rows, sets trivially true rows apart and reports trivially false ones. Sums, differences and scalings of affine expressions evaluate to the same operations on their values, mismatched sizes are refused, and basis polynomials, cross-product matrices and sampled control points obey their defining identities.",
  ["inputs"],
  "all matrices (including zero rows, single rows), vectors, expressions and degrees",
  "only the cross-product matrix is checked, on one vector",
  ["src/common_solve_methods.cpp", "src/utils.cpp", "include/hpp/bezier-com-traj/utils.hh"],
  [("zero-row removal and normalisation", "src/common_solve_methods.cpp"), ("affine expression operators", "src/utils.cpp")],
  ["Normalize", "waypoint operators", "skew", "ComputeBersteinPolynoms", "ComputeDiscretizedWaypoints"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write(
    "".join(json.dumps(x) + "\n" for x in P))
