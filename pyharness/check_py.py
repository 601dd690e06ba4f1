"""Python interface monitor (C16).  Same command line as the C++ monitors.

Every request is built and solved through the module under test, in a random
order of assignments, readings, copies and deletions, and solved again from
plain data through the C++ interface (monhelp.solveRef)."""
import argparse, gc, hashlib, json, os, sys, random

ap = argparse.ArgumentParser()
for o in ("check", "marker", "out"):
    ap.add_argument("--" + o)
for o in ("seed", "shard", "nshards", "cases", "case", "hang"):
    ap.add_argument("--" + o, type=int)
ap.add_argument("--thorough", action="store_true")
ap.add_argument("--moddir", required=True)
A = ap.parse_args()
sys.path.insert(0, A.moddir)
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import ndcurves  # noqa: F401  registers the curve types
import hpp_bezier_com_traj as B
import monhelp as H

IP, IV, IA, EP, EV, EA, IJ, EJ = 1, 2, 4, 8, 16, 32, 64, 128
COM_SETS = [IP | IV | EP | EV, IP | IV | IA | EP | EV, IP | IV | IA | EP | EV | EA, IP | IV | EV, IP | IV | EP,
            IP | IV | IA | EP, IP | IV | IA | EP | EV | EA | IJ | EJ, IP | IV | IA | IJ | EP]
JERK = IP | IV | IA | EP | EV | EA | IJ | EJ
EE_SETS = [JERK, JERK | 0x200, JERK | 0x800]
COST = [None, B.ACCELERATION, B.DISTANCE_TRAVELED, None, B.TARGET_END_VELOCITY]


class Rec:
    def __init__(self):
        self.events, self.viol, self.distinct, self.samples, self.n = {}, [], set(), [], 0
        self.case, self.desc = -1, ""

    def ev(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def fail(self, key, msg):
        self.ev("violation:" + key)
        if sum(v["key"] == key for v in self.viol) < 3:
            self.viol.append({"case": self.case, "key": key, "msg": msg + " [" + self.desc + "]"})
        if A.case is not None:
            print("VIOL case %d %s: %s [%s]" % (self.case, key, msg, self.desc), file=sys.stderr)


R = Rec()


def same(a, b):
    a, b = np.asarray(a, float).reshape(-1), np.asarray(b, float).reshape(-1)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def vec(r, s=1.0):
    return np.array([r.gauss(0, s) for _ in range(3)])


# ---------------------------------------------------------------- problems
def contact(r, at):
    P, N = [], []
    for f in range(r.choice([1, 1, 2, 2, 2, 3])):
        o = np.array([at + r.uniform(-.1, .1), (-1) ** f * r.uniform(.06, .2), r.choice([0, 0, r.uniform(-.1, .15)])])
        w, h = r.uniform(.03, .12), r.uniform(.03, .08)
        t = r.choice([0, 0, .15])
        n = np.array([r.uniform(-t, t), r.uniform(-t, t), 1.0])
        n /= np.linalg.norm(n)
        for x in (-w, w):
            for y in (-h, h):
                z = 0 if n[2] == 1 else -(n[0] * x + n[1] * y) / n[2]
                P.append(o + [x, y, z])
                N.append(n)
    return dict(mass=r.choice([1.0, 54.0, r.uniform(10, 90)]), mu=r.uniform(.3, .9), P=np.array(P), N=np.array(N))


def rows(r, c, size):
    k = r.choice([4, 6, 6, 9])
    K = np.vstack([np.eye(3), -np.eye(3)])[:k] if k <= 6 else np.array([vec(r) for _ in range(k)])
    return np.ascontiguousarray(K), K @ c + np.array([size * r.uniform(.3, 1) for _ in range(len(K))]) * np.linalg.norm(K, axis=1)


def problem(r):
    kind = r.choice(["plan"] * 5 + ["zero"] * 3 + ["ee", "ee", "ee-constraints", "ee-velocity", "ee-distance", "ee-points"])
    d = dict(kind=kind, contacts=[])
    z = r.choice([.6, .8, 1.0])
    d["c0_"] = np.array([r.uniform(-.03, .03), r.uniform(-.03, .03), z])
    d["dc0_"] = vec(r, r.choice([.05, .2]))
    if kind == "zero":
        d["contacts"].append(contact(r, 0))
        d["l0_"] = vec(r, r.choice([0, .3]))
        d["ang"] = r.random() < .4
        d["T"], d["dt"] = r.uniform(.3, 1.5), r.choice([-1.0, -1.0, .05, .1])
        if r.random() < .6:
            c = d["contacts"][0]
            c["Kin"], c["kin"] = rows(r, d["c0_"] + d["dc0_"] * .2, .3)
        return d
    if kind == "plan":
        n = r.choice([1, 2, 2, 3])
        for i in range(n):
            c = contact(r, .12 * i)
            if i and r.random() < .4:  # shares its contacts with the previous one
                q = d["contacts"][-1]
                if len(q["P"]) + len(c["P"]) <= 12:  # the cone library is slow on many generators
                    c["P"], c["N"], c["mass"] = np.vstack([q["P"], c["P"]]), np.vstack([q["N"], c["N"]]), q["mass"]
            c["mass"] = d["contacts"][0]["mass"] if i else c["mass"]
            if r.random() < .6:
                c["Kin"], c["kin"] = rows(r, np.array([.1 * i, 0, z]), .4)
            if r.random() < .1:
                c["Ang"], c["angv"] = rows(r, np.zeros(3), 1)
            d["contacts"].append(c)
        d["c1_"] = d["c0_"] + np.array([.08 * n, r.uniform(-.03, .03), 0])
        for k in ("ddc0_", "ddc1_", "l0_"):
            if r.random() < .5:
                d[k] = vec(r, .2)
        d.pop("l0_", None)
        d["flag"] = r.choice(COM_SETS)
        if d["flag"] & EV == 0 or r.random() < .4:
            d["dc1_"] = vec(r, .1)
        if r.random() < .7:
            d["cost"] = r.choice([1, 1, 2, 4])
        if r.random() < .4:
            d["limitAcc"] = r.random() < .6
            d["maxAcc"] = r.uniform(2, 12)
        if r.random() < .3:
            d["reduce_h"] = r.choice([0.0, r.uniform(0, .02)])
        if r.random() < .4:
            d["ang"] = r.random() < .7
        d["Ts"] = np.array([r.uniform(.3, .9) for _ in range(n)])
        d["dt"] = r.choice([-1.0, -1.0, .05, .1])
        if d["dt"] < 0 and r.random() < .4:
            d["rep"] = r.choice([int(B.DOUBLE_DESCRIPTION), int(B.FORCE), int(B.FORCE)])
        if r.random() < .5:
            d["solver"] = r.choice([1, 1, 2])
        return d
    for k in ("c1_", "dc1_", "ddc0_", "ddc1_"):
        if r.random() < .8:
            d[k] = vec(r, .5)
    d["flag"] = r.choice(EE_SETS if kind != "ee-points" else EE_SETS + COM_SETS[:3])
    d["T"] = r.uniform(.3, 2)
    if kind == "ee-distance":
        d["n"] = r.choice([2, 5, 20])
        d["pts"] = np.array([vec(r) for _ in range(d["n"])]).T.copy()
    return d


REPS = {int(B.DOUBLE_DESCRIPTION): B.DOUBLE_DESCRIPTION, int(B.FORCE): B.FORCE}
SOLVERS = {1: B.SOLVER_QUADPROG, 2: B.SOLVER_GLPK}


def forms(r, v):
    """the same vector, handed over in the shapes numpy users have"""
    k = r.randrange(5)
    if k == 0:
        return v.copy()
    if k == 1:
        return v.reshape(-1, 1).copy()
    if k == 2:  # a strided view
        w = np.full(2 * len(v), 7e77)
        w[::2] = v
        return w[::2]
    if k == 3:  # a column of a C-ordered matrix
        w = np.full((len(v), 3), 7e77)
        w[:, 1] = v
        return w[:, 1]
    w = v.copy()
    w.setflags(write=False)
    return w


def mforms(r, m):
    k = r.randrange(3)
    return m.copy() if k == 0 else np.asfortranarray(m) if k == 1 else np.vstack([m, m])[:len(m)]


def churn(r):
    """reuse freed memory, so that what dangles shows"""
    gc.collect()
    keep = [B.ProblemData() for _ in range(r.randrange(3))]
    keep += [H.Equilibrium("noise", 1e-3, 4) for _ in range(r.randrange(3))]
    keep += [np.full(r.choice([3, 6, 24, 40]), -7e77) for _ in range(20)]
    return keep


def equilibrium(r, c):
    e = H.Equilibrium("m", c["mass"], 4)
    H.setContacts(e, c["P"], c["N"], c["mu"])
    return e


def contactData(r, c):
    how = r.randrange(4)
    if how == 0:
        k = B.ContactData(H.Equilibrium("m", c["mass"], 4))
        H.setContacts(k.contactPhase_, c["P"], c["N"], c["mu"])
    elif how == 1:
        k = B.ContactData(equilibrium(r, c))
    elif how == 2:  # replaced later
        k = B.ContactData(H.Equilibrium("other", 3.0, 4))
        k.contactPhase_ = equilibrium(r, c)
    else:
        k = B.ContactData(None)
        k.contactPhase_ = equilibrium(r, c)
    if r.random() < .3:
        R.ev("reads")
        ph = k.contactPhase_
        if r.random() < .5:
            del ph
    if "Kin" in c:
        if r.random() < .3:
            k.setKinematicConstraints(np.eye(3) * 5, np.ones(3))
        k.setKinematicConstraints(mforms(r, c["Kin"]), forms(r, c["kin"]))
        a, b = k.Kin_
        R.ev("round-trips")
        if not (same(a, c["Kin"]) and same(b, c["kin"])):
            R.fail("round-trip:Kin_", "kinematic constraints read back differ")
    if "Ang" in c:
        k.setAngularConstraints(mforms(r, c["Ang"]), forms(r, c["angv"]))
        a, b = k.Ang_
        R.ev("round-trips")
        if not (same(a, c["Ang"]) and same(b, c["angv"])):
            R.fail("round-trip:Ang_", "angular constraints read back differ")
    return k


VFIELDS = ["c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_"]


def build(r, d):
    """ProblemData for d, by a random sequence of module calls"""
    p = B.ProblemData()
    steps = []

    def setv(k, v):
        def f():
            w = forms(r, v)
            setattr(p, k, w)
            if w.flags.writeable:
                w[...] = -9e99  # the problem must have its own copy
        return f

    for k in VFIELDS:
        if k in d:
            if r.random() < .2:
                setattr(p, k, vec(r, 9))  # overwritten below
            steps.append(setv(k, d[k]))
    if "ang" in d:
        steps.append(lambda: setattr(p, "useAngularMomentum_", d["ang"]))
    if "cost" in d:
        steps.append(lambda: setattr(p, "costFunction_", COST[d["cost"]]))
    if "rep" in d:
        steps.append(lambda: setattr(p, "GIWCrepresentation_", REPS[d["rep"]]))
    cf = [(a, k) for a, k in (("flag_", "flag"), ("constrainAcceleration_", "limitAcc"), ("maxAcceleration_", "maxAcc"),
                              ("reduce_h_", "reduce_h")) if k in d]
    if r.random() < .5:
        for a, k in cf:
            steps.append(lambda a=a, k=k: setattr(p.constraints_, a, d[k]))
    elif cf:
        def whole():
            c = B.Constraints()
            for a, k in cf:
                setattr(c, a, d[k])
            p.constraints_ = c
            c.flag_, c.maxAcceleration_, c.reduce_h_ = 0, -1.0, 77.0  # a copy was stored
        steps.append(whole)
    r.shuffle(steps)
    noise = []
    pend = list(d["contacts"])
    if r.random() < .2:
        for c in pend:
            p.addContact(contactData(r, c))
        p.clearContacts()
        R.ev("clear-contacts")
    # contacts keep their order, interleaved with the rest
    while steps or pend:
        if pend and (not steps or r.random() < .4):
            k = contactData(r, pend.pop(0))
            p.addContact(k)
            if "Kin" in d["contacts"][0] and r.random() < .2:
                k.setKinematicConstraints(np.eye(3), -np.ones(3))  # a copy was added
            del k
            if r.random() < .5:
                noise = churn(r)
        else:
            steps.pop()()
    # every field reads back
    back = [(k, d[k], getattr(p, k)) for k in VFIELDS if k in d]
    for k, want, got in back:
        R.ev("round-trips")
        if not same(want, got):
            R.fail("round-trip:" + k, "%s was set to %r and reads %r" % (k, want, got))
        got[...] = 5e55
    for k, want, got in back:
        if not same(want, getattr(p, k)):
            R.fail("alias:" + k, "writing to the array read from %s changed the problem" % k)
    con = p.constraints_
    for got, k in ((p.useAngularMomentum_, "ang"), (con.constrainAcceleration_, "limitAcc"), (con.maxAcceleration_, "maxAcc"),
                   (con.reduce_h_, "reduce_h"), (int(con.flag_), "flag"), (int(p.costFunction_), "cost"), (int(p.GIWCrepresentation_), "rep")):
        if k in d:
            R.ev("round-trips")
            if got != d[k]:
                R.fail("round-trip:" + k, "%s was set to %r and reads %r" % (k, d[k], got))
    # never assigned: same defaults as a fresh problem, whatever the others are
    q = B.ProblemData()
    if "ang" not in d and p.useAngularMomentum_:
        R.fail("default:useAngularMomentum_", "useAngularMomentum_ was never set and reads true")
    e = B.ResultData()
    if e.success is not False or e.cost != -1:
        R.fail("default:ResultData", "a fresh ResultData has success %r and cost %r" % (e.success, e.cost))
    for k in VFIELDS:
        if k not in d and not (same(getattr(p, k), np.zeros(3))):
            R.fail("default:" + k, "%s was never set and reads %r" % (k, getattr(p, k)))
    for k, a in (("flag", "flag_"), ("limitAcc", "constrainAcceleration_"), ("maxAcc", "maxAcceleration_"), ("reduce_h", "reduce_h_")):
        if k not in d and getattr(con, a) != getattr(q.constraints_, a):
            R.fail("default:" + a, "%s was never set and reads %r" % (a, getattr(con, a)))
    return p


def solve(r, d, p):
    k = d["kind"]
    if k == "zero":
        c = d["contacts"][0]
        e = equilibrium(r, c)
        a = [e, forms(r, d["c0_"]), forms(r, d["dc0_"]), forms(r, d["l0_"]), d["ang"], d["T"], d["dt"]]
        if "Kin" in c:
            a += [mforms(r, c["Kin"]), forms(r, c["kin"])]
        return B.zeroStepCapturability(*a)
    if k == "plan":
        a = [p, forms(r, d["Ts"]), d["dt"]]
        if "solver" in d:
            a.append(SOLVERS[d["solver"]])
        return B.computeCOMTraj(*a)
    if k == "ee-distance":
        return B.computeEndEffectorDistanceCost(p, d["T"], d["n"], mforms(r, d["pts"]) if r.random() < .7 else np.asfortranarray(d["pts"]))
    f = {"ee": B.computeEndEffector, "ee-constraints": B.computeEndEffectorConstraints, "ee-velocity": B.computeEndEffectorVelocityCost,
         "ee-points": B.computeEndEffectorConstantWaypoints}[k]
    return f(p, d["T"])


def digest(d, res, ref):
    """compare an answer of the module with the C++ answer"""
    k = d["kind"]
    if k == "ee-points":
        if np.shape(res) != ref["A"].shape or not same(res, ref["A"]):
            R.fail("differs:" + k, "fixed control points differ")
        return
    if k in ("ee-constraints", "ee-velocity", "ee-distance"):
        if np.shape(res.A) != ref["A"].shape or not same(res.A, ref["A"]) or not same(res.b, ref["b"]):
            R.fail("differs:" + k, "matrix and vector differ")
        return
    if res.success != ref["success"]:
        return R.fail("verdict:" + k, "success %s through Python, %s through C++" % (res.success, ref["success"]))
    R.ev("solved" if res.success else "refused-by-constraints")
    if not same([res.cost], [ref["cost"]]):
        R.fail("cost:" + k, "cost %r through Python, %r through C++" % (res.cost, ref["cost"]))
    if ref["x"].size:
        if not same(res.x, ref["x"]):
            R.fail("x:" + k, "x %r through Python, %r through C++" % (res.x, ref["x"]))
    else:
        try:
            res.x
            R.fail("x-of-failure", "the solution of a failed request could be read")
        except RuntimeError:
            R.ev("exceptions")
    for f, q in (("c_of_t", "c"), ("dL_of_t", "L")):
        c = getattr(res, f)
        if not same([c.min(), c.max()], [ref[q + "min"], ref[q + "max"]]):
            R.fail(f + ":range", "%s is defined on [%g,%g] instead of [%g,%g]" % (f, c.min(), c.max(), ref[q + "min"], ref[q + "max"]))
        w = np.array([c(c.min() + (c.max() - c.min()) * s if s < 1 else c.max()) for s in (0, .31, .77, 1)])
        if np.size(c.waypoints()) != ref[q].size or not same(c.waypoints(), ref[q]):
            R.fail(f + ":points", "the control points of %s differ" % f)
        if not same(w, ref[q + "v"].T):
            R.fail(f + ":values", "the values of %s differ" % f)


def requests(r):
    held = []
    names = []
    seen = []  # what was compared, to count distinct cases
    for _ in range(r.randrange(1, 4)):
        d = problem(r)
        names.append(d["kind"])
        R.desc = " then ".join(names)
        ref = H.solveRef(d)
        p = build(r, d) if d["kind"] != "zero" else None
        R.ev("call:" + d["kind"])
        for rep in range(r.choice([1, 1, 2])):
            try:
                res = solve(r, d, p)
            except RuntimeError as e:
                R.ev("exceptions")
                if "exc" not in ref or str(e) != ref["exc"]:
                    R.fail("exception:" + d["kind"], "Python raises %r, C++ %s" % (e, ref.get("exc", "answers")))
                break
            if "exc" in ref:
                R.fail("missing-exception:" + d["kind"], "C++ raises %s, Python answers" % ref["exc"])
                break
            digest(d, res, ref)
            R.ev("answers-compared")
            held.append((d, res, ref))
            seen.append(d["kind"].encode() + b"".join(np.asarray(ref[q]).tobytes() for q in ("x", "c", "A", "b") if q in ref))
        if p is not None and r.random() < .5:  # a part outlives the whole
            con = p.constraints_
            del p
            noise = churn(r)
            want = d.get("maxAcc", B.Constraints().maxAcceleration_)
            R.ev("parts-outliving-wholes")
            if con.maxAcceleration_ != want or int(con.flag_) != d.get("flag", int(B.Constraints().flag_)):
                R.fail("dangling:constraints_", "constraints read after the problem was dropped changed")
            con.maxAcceleration_ = 1.5
            del noise, con
        p = None
    # results outlive their problems
    noise = churn(r)
    curves = []
    for d, res, ref in held:
        digest(d, res, ref)
        R.ev("results-outliving-inputs")
        if d["kind"] in ("plan", "zero", "ee"):
            curves.append((res.c_of_t, ref))
    held = [x[2] for x in held]
    res = None
    noise = churn(r)
    for c, ref in curves:
        if not same(c.waypoints(), ref["c"]):
            R.fail("dangling:c_of_t", "a curve changed when its result was dropped")
    del noise
    if seen:
        R.distinct.add(hashlib.sha1(b"".join(seen)).hexdigest()[:16])
    if R.case < 8:
        R.samples.append(R.desc)


# ---------------------------------------------------------------- refusals
def goodPlan(r):
    while True:
        d = problem(r)
        if d["kind"] == "plan":
            return d


def refusals(r):
    """each must raise an exception: no answer, no crash, problem unchanged"""
    d = goodPlan(r)
    p = build(r, d)
    Ts, dt = d["Ts"], d["dt"]
    c = d["contacts"][0]
    e = equilibrium(r, c)
    v = vec(r)
    k = contactData(r, c)
    z = [e, d["c0_"], d["dc0_"], np.zeros(3), False, .7, -1.0]
    ee = B.ProblemData()
    ee.constraints_.flag_ = r.choice(EE_SETS)
    bad3 = r.choice([np.zeros(2), np.zeros(4), np.zeros((2, 2)), np.zeros(0), "abc", None, [1, 2, 3], 5.0])
    f = r.choice(VFIELDS)
    n = len(c["Kin"]) if "Kin" in c else 3
    K, kv = (c["Kin"], c["kin"]) if "Kin" in c else (np.eye(3), np.ones(3))

    def zk(K, b):
        return lambda: B.zeroStepCapturability(*(z + [K, b]))

    def other():
        q = B.ProblemData()
        q.constraints_.flag_ = d["flag"]
        return q

    def badflag():
        p.constraints_.flag_ = r.choice([0, IP, IV, EP | EV, IP | EV, IP | IV | IA | EA, 0x1000, JERK | 0x400, JERK | 0x100])
        return B.computeCOMTraj(p, Ts, dt)

    def badcost():
        p.costFunction_ = B.UNKNOWN_COST
        return B.computeCOMTraj(p, Ts, dt)

    def nophase():
        p.addContact(B.ContactData(None))
        return B.computeCOMTraj(p, np.append(Ts, .4), dt)

    def emptyphase():  # with contact forces, a phase without any has a meaning
        p.GIWCrepresentation_ = B.DOUBLE_DESCRIPTION
        p.addContact(B.ContactData(H.Equilibrium("none", 5.0, 4)))
        return B.computeCOMTraj(p, np.append(Ts, .4), dt)

    def cleared():
        p.clearContacts()
        return B.computeCOMTraj(p, Ts, dt)

    res = B.ResultDataCOMTraj()
    tests = {
        "too-many-durations": lambda: B.computeCOMTraj(p, np.append(Ts, .5), dt),
        "too-few-durations": lambda: B.computeCOMTraj(p, Ts[:-1], dt),
        "no-contact": lambda: B.computeCOMTraj(other(), Ts, dt),
        "no-contact-no-duration": lambda: B.computeCOMTraj(other(), np.zeros(0), dt),
        "contacts-cleared": cleared,
        "flag": badflag,
        "cost": badcost,
        "contact-without-phase": nophase,
        "phase-without-contact": emptyphase,
        "solver-type": lambda: B.computeCOMTraj(p, Ts, dt, "glpk"),
        "problem-type": lambda: B.computeCOMTraj(k, Ts, dt),
        "problem-none": lambda: B.computeCOMTraj(None, Ts, dt),
        "durations-type": lambda: B.computeCOMTraj(p, "0.4", dt),
        "argument-count": lambda: B.computeCOMTraj(p, Ts),
        "vector-field": lambda: setattr(p, f, bad3),
        "flag-type": lambda: setattr(p.constraints_, "flag_", "INIT_POS"),
        "acc-type": lambda: setattr(p.constraints_, "maxAcceleration_", "big"),
        "cost-type": lambda: setattr(p, "costFunction_", "ACCELERATION"),
        "representation-type": lambda: setattr(p, "GIWCrepresentation_", None),
        "constraints-type": lambda: setattr(p, "constraints_", None),
        "contact-type": lambda: p.addContact(None),
        "contact-type2": lambda: p.addContact(e),
        "contact-constructor": lambda: B.ContactData(),
        "contact-constructor2": lambda: B.ContactData(p),
        "unset-phase": lambda: B.ContactData(None).contactPhase_,
        "unset-kin": lambda: B.ContactData(e).Kin_,
        "unset-ang": lambda: B.ContactData(e).Ang_,
        "phase-type": lambda: setattr(k, "contactPhase_", p),
        "kin-rows": lambda: k.setKinematicConstraints(K, np.ones(n + r.choice([-1, 1, 5]))),
        "ang-rows": lambda: k.setAngularConstraints(K, np.ones(n + r.choice([-1, 1, 5]))),
        "kin-columns": lambda: k.setKinematicConstraints(np.ones((n, r.choice([2, 4]))), np.ones(n)),
        "kin-readonly": lambda: setattr(k, "Kin_", (K, kv)),
        "zero-kin-rows": zk(K, np.ones((n + r.choice([-1, 1, 40]), 1))),
        "zero-kin-columns": zk(np.ones((n, r.choice([1, 2, 4, 9]))), np.ones((n, 1))),
        "zero-kin-row-vector": zk(np.ones((3, 3)), np.ones((1, 3))),
        "zero-kin-matrix": zk(K, np.ones((n, 2))),
        "zero-kin-missing": lambda: B.zeroStepCapturability(*(z + [K])),
        "zero-none": lambda: B.zeroStepCapturability(*([None] + z[1:])),
        "zero-no-contacts": lambda: B.zeroStepCapturability(*([H.Equilibrium("none", 5.0, 4)] + z[1:])),
        "zero-type": lambda: B.zeroStepCapturability(*([p] + z[1:])),
        "zero-vector": lambda: B.zeroStepCapturability(*([e, np.zeros(4)] + z[2:])),
        "result-x": lambda: res.x,
        "resultdata-x": lambda: B.ResultData().x,
        "result-readonly": lambda: setattr(res, "success", True),
        "result-cost-readonly": lambda: setattr(res, "cost", 1.0),
        "matrixvector-constructor": lambda: B.MatrixVector(),
        "ee-flag": lambda: B.computeEndEffector(p, .7) if d["flag"] not in EE_SETS else B.computeEndEffector(None, .7),
        "ee-type": lambda: B.computeEndEffector(None, .7),
        "ee-constraints-type": lambda: B.computeEndEffectorConstraints(e, .7),
        "ee-distance-count": lambda: B.computeEndEffectorDistanceCost(ee, .7, 5 + r.choice([-3, -1, 1, 500]), np.ones((3, 5))),
        "ee-distance-negative": lambda: B.computeEndEffectorDistanceCost(ee, .7, -1, np.ones((3, 5))),
        "ee-distance-none": lambda: B.computeEndEffectorDistanceCost(ee, .7, 0, np.ones((3, 0))),
        "ee-distance-shape": lambda: B.computeEndEffectorDistanceCost(ee, .7, 5, np.ones((4, 5))),
    }
    names = r.sample(sorted(tests), 8)
    R.desc = "refusal of " + ", ".join(names)
    mutating = ("flag", "cost", "contact-without-phase", "phase-without-contact", "contacts-cleared")
    names.sort(key=lambda x: x in mutating)
    ref = H.solveRef(d)
    for name in names:
        try:
            got = tests[name]()
        except Exception as x:
            R.ev("exceptions")
            R.ev("refused:" + name)
        else:
            R.fail("accepted:" + name, "the request %s was answered (%s) instead of raising an exception" % (name, getattr(got, "success", got)))
        if name in mutating:
            break
        # the refusal left the problem as it was
        if r.random() < .3:
            try:
                out = B.computeCOMTraj(p, Ts, dt, SOLVERS[d.get("solver", 1)])
            except RuntimeError as x:
                if str(x) != ref.get("exc"):
                    R.fail("after-refusal", "after %s the problem raises %r" % (name, x))
            else:
                if "exc" in ref:
                    R.fail("after-refusal", "after %s an unsupported problem was answered" % name)
                else:
                    R.ev("solved-after-refusal")
                    digest(d, out, ref)
    R.distinct.add(hashlib.sha1(repr((sorted(names), d["c0_"].tolist())).encode()).hexdigest()[:16])


def main():
    mf = open(A.marker, "w") if A.marker else None
    ids = [A.case] if A.case is not None else range(A.shard or 0, A.cases, A.nshards or 1)
    saved = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # the module reports some refusals on stdout
    for i in ids:
        if mf:
            mf.seek(0)
            mf.write("%-12d\n" % i)
            mf.flush()
        R.case, R.desc = i, ""
        R.n += 1
        r = random.Random("%s-%d-%d" % (A.check, A.seed or 1, i))
        H.watchdog(A.hang or 0)
        try:
            requests(r) if i % 3 else refusals(r)
        except Exception as e:
            import traceback
            R.fail("unexpected-exception", "%r at %s" % (e, traceback.format_exc().strip().split("\n")[-3:-1]))
        H.watchdog(0)
    os.dup2(saved, 1)
    out = json.dumps({"evaluations": R.n, "events": R.events, "maxima": {}, "distinct": sorted(R.distinct), "samples": R.samples[:3],
                      "violations": R.viol})
    if A.out:
        open(A.out, "w").write(out)
    else:
        print(out)
    sys.stdout.flush()
    os._exit(1 if R.viol else 0)


main()
