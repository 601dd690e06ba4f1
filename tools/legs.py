# Which monitors decide which property: build variant, workload size, shards.
def leg(group, check, quick, thorough, variant="plain", name=None, **kw):
    d = dict(group=group, check=check, quick=quick, thorough=thorough, variant=variant,
             name=name or (check + "-" + variant))
    d.update(kw)
    return d


OBS = ("Held on the executions counted in the evidence file, nothing more. Trusts the oracle in harness/oracle.hpp, "
       "Eigen, ndcurves evaluation, and the contact cones of the installed hpp-centroidal-dynamics. ")

CHECKS = {
    "C01": dict(legs=[leg("checks_plan", "C01", 20000, 60000)],
                technique="runtime monitor: oracle on the returned curve under random planning workloads",
                note=OBS + "Boundary values are compared to 1e-9 relative.",
                rule="one case = one random planning problem (contacts, phases, option set, mode, solver, cost); "
                     "non-trivial = the planner reported success, so that the curve could be checked; distinct by problem data"),
    "C02": dict(legs=[leg("checks_plan", "C02", 20000, 60000)],
                technique="runtime monitor: physical re-check of every sampled instant of each returned plan",
                note=OBS + "Tolerance 1e-6 (2e-5 with GLPK, whose own tolerance is 1e-7 scaled).",
                rule="as C01, sampled modes only; non-trivial = success, every sampling instant then re-checked physically"),
    "C03": dict(legs=[leg("checks_plan", "C03", 18000, 50000)],
                technique="runtime monitor: physical re-check of each continuous plan between and at control points",
                note=OBS + "25 instants per phase; tolerance 1e-6 (2e-5 with GLPK, 1e-3 for forces with the QP).",
                rule="as C01, continuous formulations only; non-trivial = success, 25 instants per phase then re-checked"),
    "C04": dict(legs=[leg("checks_zero", "C04", 70000, 200000)],
                technique="runtime monitor: Newton-Euler re-check of every returned stopping motion",
                note=OBS + "32 random instants when continuous, all sampled instants otherwise; tolerance 1e-6.",
                rule="one case = one random contact phase, state, duration, sampling and limits; non-trivial = success, the motion "
                     "then re-checked; distinct by state, duration and sampling"),
    "C05": dict(legs=[leg("checks_verdict", "C05", 9000, 120000)],
                technique="runtime monitor: success flag compared with an independent LP margin, at feasibility boundaries found by bisection",
                note=OBS + "Compared only where the best reference margin exceeds 1e-5 (1e-4 with GLPK).",
                rule="one case = one random problem and one quantity of it (kinematic row, safety margin, acceleration limit, state, "
                     "momentum) turned until the reference verdict flips; the verdict is compared on both sides; distinct by problem"),
    "C06": dict(legs=[leg("checks_verdict", "C06", 60000, 150000)],
                technique="runtime monitor: constructive search for a cheaper feasible motion from each returned plan (KKT by NNLS)",
                note=OBS + "Improvement tolerance 1e-9 relative; QP solver, inequality representation and zero-step.",
                rule="one case = one random problem; non-trivial = success and strictly convex cost; distinct by problem"),
    "C09": dict(legs=[leg("checks_expr", "C09", 120000, 1000000)],
                technique="runtime monitor: every symbolic expression evaluated and compared with the Hermite curve",
                note=OBS + "Tolerance 1e-8 relative (1e-5 for the velocity cost, whose coefficients are decimal).",
                rule="one case = one option set, boundary state, duration and values of the unknowns; all are non-trivial; "
                     "distinct by option set, duration and state"),
    "C10": dict(legs=[leg("checks_ee", "C10", 60000, 200000)],
                technique="runtime monitor: oracle on every end-effector plan (Hermite family, clearance, KKT search for a cheaper motion)",
                note=OBS + "Boundary values to 1e-10 relative, optimality to 1e-8.",
                rule="one case = one option set, boundary state, duration, weight and reference path; non-trivial = success, the plan "
                     "then re-checked; distinct by these data"),
    "C11": dict(legs=[
        leg("checks_memory", "C11", 2400, 100000, "asan"),
        leg("checks_plan", "C01", 1600, 30000, "asan", only_crash=True),
        leg("checks_zero", "C04", 2400, 50000, "asan", only_crash=True),
        leg("checks_solver", "C07", 3000, 60000, "asan", only_crash=True),
        leg("checks_solver", "C08", 1600, 40000, "asan", only_crash=True),
        leg("checks_expr", "C09", 4000, 100000, "asan", only_crash=True),
        leg("checks_refuse", "C13", 2400, 40000, "asan", only_crash=True),
        leg("checks_arith", "C14", 4000, 100000, "asan", only_crash=True),
        leg("checks_arith", "C19", 4000, 100000, "asan", only_crash=True),
        leg("checks_result", "C15", 400, 16000, "asan", only_crash=True),
        leg("checks_memory", "C11", 480, 9600, "vg", hang=600),
        leg("checks_verdict", "C05", 300, 6000, "asan", only_crash=True, thorough_only=True),
        leg("checks_ee", "C10", 800, 20000, "asan", only_crash=True, thorough_only=True),
    ],
                technique="AddressSanitizer, UndefinedBehaviorSanitizer, library and Eigen assertions, valgrind memcheck over all workloads",
                note="Held on the executions counted in the evidence file. The cone library and GLPK are not instrumented "
                     "(memcheck sees them). Functional alarms of the workloads are left to their own properties.",
                rule="one case = one case of the named workload, run under the sanitizers; distinct by workload data"),
    "C12": dict(legs=[
        leg("checks_pure", "C12", 2400, 60000),
        leg("checks_pure", "C12T", 400, 10000, shards=2),
        leg("checks_pure", "C12T", 160, 3000, "tsan", shards=2),
    ],
                technique="runtime monitor: bit-exact replay in random histories, in pristine processes and under threads; ThreadSanitizer",
                note="Held on the executions and interleavings counted in the evidence file. GLPK and the cone library are not "
                     "instrumented by ThreadSanitizer.",
                rule="one case = one random history of 3 to 7 requests (each repeated, and solved alone in a process without "
                     "history), or one set of threads; distinct by order and data, for threads also by the observed overlaps"),
    "C13": dict(legs=[leg("checks_refuse", "C13", 24000, 400000)],
                technique="runtime monitor: outcome (error or answer) of every option bit pattern and of malformed requests",
                note=OBS + "All 8192 patterns of the 13 option bits in every mode, random ones beyond.",
                rule="one case = one option bit pattern in all modes and expressions, or one malformed or well-formed request; "
                     "distinct by pattern or by request kind, value and problem"),
    "C14": dict(legs=[leg("checks_arith", "C14", 80000, 3000000)],
                technique="runtime monitor: every returned instant checked against its phase",
                note=OBS + "Steps of at most half the shortest phase; instants compared to rounding, end and start exactly.",
                rule="one case = one list of durations and one sampling; all are non-trivial; distinct by these data"),
    "C15": dict(legs=[leg("checks_result", "C15", 12000, 200000)],
                technique="runtime monitor: every field of each result recomputed from the trajectory and the problem",
                note=OBS + "With contact forces the cost is only bounded, since it includes the tiny weight of the forces.",
                rule="one case = one request to one planner; all are non-trivial (failures are checked too); distinct by problem data"),
    "C16": dict(legs=[
        leg("py", "C16", 2400, 60000),
        leg("py", "C16", 480, 12000, "asan"),
    ],
                technique="runtime monitor: each request solved through the Python module and through C++, bit-exact; AddressSanitizer",
                note="Held on the executions counted in the evidence file. The installed Python binding of the cone library "
                     "cannot be loaded beside the module (another Boost), so a companion module stands in for it.",
                rule="one case = one to three requests built by a random sequence of module calls, or eight invalid requests; "
                     "distinct by the answers compared, or by the requests refused"),
    "C19": dict(legs=[leg("checks_arith", "C19", 80000, 3000000)],
                technique="runtime monitor: defining identities evaluated on every returned object",
                note=OBS + "Entries up to e^20 in magnitude.",
                rule="one case = one system to normalise, one set of expressions, one basis or one pair of options; distinct by draw"),
    "C17": dict(legs=[leg("checks_verdict", "C17", 36000, 150000)],
                technique="runtime monitor: metamorphic pairs of equivalent or ordered problems",
                note=OBS + "Pairs whose margin is under 1e-5 (1e-4 LP, 1e-3 force) are skipped.",
                rule="one case = one random problem and one re-description; non-trivial = both solved and compared"),
    "C18": dict(legs=[leg("checks_verdict", "C18", 40000, 150000)],
                technique="runtime monitor: differential execution of equivalent formulations",
                note=OBS + "Verdicts compared where the reference margin is clear.",
                rule="one case = one random problem solved in two formulations; distinct by problem and pair"),
    "C07": dict(legs=[leg("checks_solver", "C07", 150000, 3000000)],
                technique="runtime monitor: KKT and LP-feasibility oracle on every solver answer",
                note=OBS + "Tolerances as in the harness; numerically unclear problems are counted as skipped.",
                rule="one case = one random strictly convex QP solved by the dense, the sparse and a reused solver object, or a "
                     "sequence of differently sized ones through one object; "
                     "all are non-trivial; distinct by data"),
    "C08": dict(legs=[leg("checks_solver", "C08", 40000, 1000000)],
                technique="runtime monitor: primal-dual certificates for every answer of the solving entry points",
                note=OBS + "Tolerances as in the harness; numerically unclear problems are counted as skipped.",
                rule="one case = one random LP or QP with a bound pattern, rows scaled or not, through one of the entry points; distinct by data"),
}
NOT_APPLICABLE = [
    {"property": "C%02d" % i, "reason": "check not built yet"} for i in range(1, 20) if "C%02d" % i not in CHECKS]
