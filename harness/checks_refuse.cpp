// Refusal of unsupported requests (C13): every option bit pattern, unknown
// cost and solver values, contradictory or incomplete contact data.
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>

#include "zgen.hpp"
using namespace gen;
using namespace mon;

namespace {
struct MonPath {
  V3 a, b;
  point3_t operator()(double u) const { return (1 - u) * a + u * b; }
};
enum Outcome { OK_PLAN, OK_NOPLAN, REFUSED, ODD };
const char* outName(Outcome o) { return o == OK_PLAN ? "a plan" : o == OK_NOPLAN ? "an unsuccessful answer" : o == REFUSED ? "an error" : "a non-standard exception"; }
template <class F>
Outcome attempt(F f, ResultDataCOMTraj* out = nullptr) {
  try {
    ResultDataCOMTraj r = f();
    if (out) *out = r;
    return r.success_ ? OK_PLAN : OK_NOPLAN;
  } catch (const std::exception&) {
    return REFUSED;
  } catch (...) {
    return ODD;
  }
}
template <class F>
Outcome attemptVoid(F f) {
  return attempt([&] {
    f();
    return ResultDataCOMTraj();
  });
}
// a few problems that have a plan in every mode, kept for the whole run
struct Pool {
  std::vector<Plan> plans;
  std::vector<ResultDataCOMTraj> ref;
  Pool() {
    Rng r(20240917);
    PlanOpts po;
    po.maxPhases = 3;
    po.effort = 0.3;
    po.origin = false;
    po.allCosts = false;
    int perMode[4] = {0, 0, 0, 0};
    for (int tries = 0; tries < 4000 && plans.size() < 28; ++tries) {
      po.mode = tries % 4;
      if (perMode[po.mode] >= 7) continue;
      Plan p;
      if (!makePlan(r, p, po)) continue;
      p.pd.constraints_.maxAcceleration_ = 60;
      p.pd.constraints_.reduce_h_ = 0;
      ResultDataCOMTraj res = gen::run(p);
      if (!res.success_) continue;
      perMode[po.mode]++;
      plans.push_back(std::move(p));
      ref.push_back(res);
    }
  }
};
Pool& pool() {
  static Pool* p = new Pool;
  return *p;
}
bool same(const ResultDataCOMTraj& a, const ResultDataCOMTraj& b) {
  if (a.success_ != b.success_ || a.x.size() != b.x.size()) return false;
  for (int i = 0; i < a.x.size(); ++i)
    if (a.x[i] != b.x[i]) return false;
  return !a.success_ || (a.cost_ == b.cost_ && a.c_of_t_(0.3 * a.c_of_t_.max()) == b.c_of_t_(0.3 * b.c_of_t_.max()));
}
// any planner entry point on the problem data of p, in mode m
ResultDataCOMTraj call(const Plan& p, const ProblemData& d, const Vec& Ts, int m, int solver) {
  const solvers::SolverType s = static_cast<solvers::SolverType>(solver);
  if (m == FIXED) return computeCOMTrajFixedSize(d, Ts, p.ppp);
  if (m == STEP) return computeCOMTraj(d, Ts, std::max(1e-3, p.dt), s);
  return computeCOMTraj(d, Ts, -1, s);
}
bool isCom(int f) {
  for (auto& o : optSets())
    if (o.flag == f) return true;
  return false;
}
bool isJerk(int f) {
  for (auto& o : jerkSets())
    if (o.flag == f) return true;
  return false;
}

struct T13 {
  Ctx& c;
  Rng& r;
  T13(Ctx& c) : c(c), r(c.rng) {}
  void want(Outcome got, bool refuse, const std::string& what) {
    if (refuse) {
      c.ev("must-refuse");
      if (got != REFUSED) c.fail("answered:" + what.substr(0, what.find(' ')), what + " gave " + outName(got) + " instead of an error");
    } else {
      c.ev("must-accept");
      if (got == REFUSED || got == ODD) c.fail("refused:" + what.substr(0, what.find(' ')), what + " gave " + outName(got));
    }
  }
};

void flags(T13& t, int f) {
  Ctx& c = t.c;
  Rng& r = t.r;
  Pool& P = pool();
  c.caseDesc = MON_STR("flags 0x" << std::hex << f);
  const bool com = isCom(f), jerk = isJerk(f);
  c.ev(com || jerk ? "supported-flag-value" : "unsupported-flag-value");
  const std::string hex = MON_STR("0x" << std::hex << f);
  for (int m = 0; m < 4; ++m) {
    // a plan of that mode
    int k = -1;
    for (int tr = 0; tr < 60 && k < 0; ++tr) {
      int q = r.below((int)P.plans.size());
      if (P.plans[q].mode == m) k = q;
    }
    if (k < 0) continue;
    const Plan& p = P.plans[k];
    ProblemData d(p.pd);
    d.constraints_.flag_ = F(f);
    d.representation_ = m == CONT_FORCE ? FORCE : DOUBLE_DESCRIPTION;
    d.costFunction_ = r.chance(0.5) ? ACCELERATION : DISTANCE_TRAVELED;
    if (!(f & END_VEL) && r.chance(0.3)) d.costFunction_ = TARGET_END_VELOCITY;
    if ((f & END_VEL) && !(f & END_POS)) d.dc1_.setZero();
    const int solver = m != FIXED && r.chance(0.3) ? 2 : 1;
    Outcome o = attempt([&] { return call(p, d, p.Ts, m, solver); });
    t.want(o, !com, MON_STR("planner-flags " << hex << " in mode " << modeName(m)));
    if (com) c.ev(std::string("accepted-in-mode:") + modeName(m));
  }
  // end effector
  const Plan& p = P.plans[r.below((int)P.plans.size())];
  ProblemData d(p.pd);
  d.constraints_.flag_ = F(f);
  const double T = r.uni(0.4, 1.5);
  MonPath path{d.c0_, d.c1_};
  Outcome o = attempt([&] { return solveEndEffector(d, path, T, r.uni(0, 1), r.chance(0.5)); });
  t.want(o, !jerk, MON_STR("end-effector-flags " << hex));
  if (jerk && o == OK_NOPLAN) c.fail("end-effector-no-plan", "an end-effector problem that always has a plan was declared infeasible");
  // expressions
  if ((f & END_VEL) && !(f & END_POS)) d.dc1_.setZero();
  std::vector<point_t> pi(24, point_t(V3(0.1, -0.2, 0.3)));
  if (com || jerk) {
    try {
      pi = computeConstantWaypoints(d, T);
    } catch (const std::exception&) {  // reported below
    }
  }
  const bool five = f & FIVE_FREE_VAR;  // lacks some expressions and says so
  struct Expr {
    const char* name;
    bool com, jerk, part;
    std::function<void()> fn;
  };
  const double u = r.uni();
  const Expr ex[] = {
      {"computeConstantWaypoints", true, true, false, [&] { computeConstantWaypoints(d, T); }},
      {"computeConstantWaypointsSymbolic", true, true, false, [&] { computeConstantWaypointsSymbolic(d, T); }},
      {"evaluateCurveAtTime", true, false, false, [&] { evaluateCurveAtTime(d, pi, u); }},
      {"evaluateAccelerationCurveAtTime", true, false, false, [&] { evaluateAccelerationCurveAtTime(d, pi, T, u); }},
      {"computeWwaypoints", true, false, false, [&] { computeWwaypoints(d, T); }},
      {"evaluateCurveWaypointAtTime", false, true, false, [&] { evaluateCurveWaypointAtTime(d, pi, u); }},
      {"evaluateVelocityCurveWaypointAtTime", false, true, five, [&] { evaluateVelocityCurveWaypointAtTime(d, T, pi, u); }},
      {"evaluateAccelerationCurveWaypointAtTime", false, true, five, [&] { evaluateAccelerationCurveWaypointAtTime(d, T, pi, u); }},
      {"evaluateJerkCurveWaypointAtTime", false, true, five || (f & THREE_FREE_VAR), [&] { evaluateJerkCurveWaypointAtTime(d, T, pi, u); }},
      {"computeVelocityWaypoints", false, true, five, [&] { computeVelocityWaypoints(d, T, pi); }},
      {"computeAccelerationWaypoints", false, true, five, [&] { computeAccelerationWaypoints(d, T, pi); }},
      {"computeJerkWaypoints", false, true, five, [&] { computeJerkWaypoints(d, T, pi); }},
      {"computeVelocityCost", false, true, false, [&] { computeVelocityCost(d, T, pi); }},
  };
  for (auto& e : ex) {
    if (e.part && jerk) continue;
    // an expression that a set does not provide is refused or right (C09)
    if ((com && !e.com && !jerk) || (jerk && !e.jerk && !com)) continue;
    t.want(attemptVoid(e.fn), !com && !jerk, MON_STR(e.name << " of flags " << hex));
  }
  c.nontrivial(mon::hashMix(77, (uint64_t)(unsigned)f));
}

void requests(T13& t) {
  Ctx& c = t.c;
  Rng& r = t.r;
  Pool& P = pool();
  const int k = r.below((int)P.plans.size());
  const Plan& p = P.plans[k];
  c.caseDesc = p.desc();
  ProblemData d(p.pd);
  Vec Ts = p.Ts;
  int solver = p.mode != FIXED && r.chance(0.3) ? 2 : 1;
  const int n = (int)Ts.size();
  bool refuse = true;
  std::string what;
  const int kind = r.below(10);
  int m = p.mode;
  Plan q;
  q.mode = p.mode, q.ppp = p.ppp, q.dt = p.dt;
  std::unique_ptr<centroidal_dynamics::Equilibrium> fresh;
  switch (kind) {
    case 0: {
      int v = r.chance(0.5) ? r.below(40) : r.chance(0.5) ? -r.below(40) : (int)r.next();
      if (v == 1 || v == 2 || v == 4) v = 8;
      d.costFunction_ = static_cast<CostFunction>(v);
      what = MON_STR("cost-value " << v);
      break;
    }
    case 1: {
      if (m == FIXED) {  // that entry point always uses the QP solver
        m = STEP;
        q.dt = Ts.minCoeff() / 3;
      }
      int v = r.chance(0.5) ? r.below(20) : r.chance(0.5) ? -r.below(20) : (int)r.next();
      if (v == 1 || v == 2) v = 0;
      solver = v;
      what = MON_STR("solver-value " << v << " in mode " << modeName(m));
      break;
    }
    case 2: {
      int nn = r.chance(0.3) ? 0 : r.below(8);
      if (nn == n) nn = n + 1;
      Ts = Vec::Constant(nn, 0.6);
      what = MON_STR("durations " << nn << " for " << n << " phases");
      break;
    }
    case 3: {  // other number of phases than durations
      int nn = r.below(7);
      if (nn == n) nn = 0;
      d.contacts_.clear();
      for (int i = 0; i < nn; ++i) d.contacts_.push_back(p.pd.contacts_[i % n]);
      what = MON_STR("phases " << nn << " for " << n << " durations");
      break;
    }
    case 4: {
      const int i = r.below(n);
      if (r.chance(0.5)) {
        d.contacts_[i].contactPhase_ = 0;
        what = MON_STR("undefined-phase " << i);
      } else {
        d.contacts_[i] = ContactData();
        what = MON_STR("default-phase " << i);
      }
      break;
    }
    case 5: {
      if (m == CONT_FORCE) m = CONT, d.representation_ = DOUBLE_DESCRIPTION;
      fresh.reset(new centroidal_dynamics::Equilibrium("mon", 50, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false));
      d.contacts_[r.below(n)].contactPhase_ = fresh.get();
      if (r.chance(0.5)) {
        centroidal_dynamics::MatrixX3 Pm = p.sc.ph[0].pts, Nm = p.sc.ph[0].nrm;
        fresh->setNewContacts(Pm, Nm, p.sc.ph[0].mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_LP);
      }
      what = MON_STR("no-polytope in mode " << modeName(m));
      break;
    }
    case 6:
      m = FIXED;
      d.representation_ = DOUBLE_DESCRIPTION;
      q.ppp = 0;
      what = "no-point per phase";
      break;
    case 7: {
      d.costFunction_ = TARGET_END_VELOCITY;
      if (!(d.constraints_.flag_ & END_VEL)) refuse = false;
      what = refuse ? "contradictory-cost" : "end-velocity-cost";
      break;
    }
    case 8: {  // a stop is asked for, with another velocity than zero
      d.constraints_.flag_ = optSets()[1].flag;
      d.dc1_ = r.chance(0.5) ? vec(r, 1) : V3(0, 0, r.uni(-1e-3, 1e-3));
      what = MON_STR("moving-stop " << d.dc1_.transpose());
      break;
    }
    default: {
      what = "good-problem again";
      refuse = false;
      ResultDataCOMTraj again;
      if (attempt([&] { return gen::run(p); }, &again) == OK_PLAN && !same(again, P.ref[k])) c.fail("changed-after-refusals", "a problem solved before the refused requests now gives another plan");
      break;
    }
  }
  c.caseDesc += " | " + what;
  t.want(attempt([&] { return call(q, d, Ts, m, solver); }), refuse, what);
  c.ev("request:" + what.substr(0, what.find(' ')));
  // the same defect through the cost generator, where it can be named alone
  if (kind == 0 || kind == 7) {
    MatrixXX H = MatrixXX::Zero(3, 3);
    VectorX g = VectorX::Zero(3);
    t.want(attemptVoid([&] { cost::genCostFunction(d, Ts, Ts.sum(), computeDiscretizedTimeFixed(Ts, 3), H, g); }), refuse, "genCostFunction " + what);
  }
  if (kind == 1) {
    Mat A = Mat::Identity(3, 3);
    Vec b = Vec::Ones(3), z = Vec::Zero(3), none = Vec(0);
    t.want(attemptVoid([&] { solvers::solve(A, b, Mat(0, 3), Vec(0), Mat(Mat::Identity(3, 3)), z, z, none, none, static_cast<solvers::SolverType>(solver)); }), true, "solve-solver-value " + what);
  }
  // zero-step entry point
  {
    ProblemData z(P.plans[r.below((int)P.plans.size())].pd);
    z.representation_ = DOUBLE_DESCRIPTION;
    z.useAngularMomentum_ = r.chance(0.5);
    z.dc1_.setZero();
    const int nc = r.below(4), nt = r.below(4);
    ContactData good = z.contacts_[0];
    z.contacts_.clear();
    for (int i = 0; i < nc; ++i) z.contacts_.push_back(good);
    bool bad = nc != 1 || nt != 1;
    std::string w = MON_STR("zero-step-counts " << nc << " phases " << nt << " durations");
    if (nc && r.chance(0.3)) {
      bad = true;
      z.contacts_[0].contactPhase_ = 0;
      w = "zero-step-undefined-phase";
    } else if (nc && r.chance(0.3)) {
      bad = true;
      fresh.reset(new centroidal_dynamics::Equilibrium("mon", 50, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false));
      z.contacts_[0].contactPhase_ = fresh.get();
      w = "zero-step-no-polytope";
    }
    const double dt = r.chance(0.5) ? -1 : 0.05;
    t.want(attempt([&] { return solve0step(z, std::vector<double>(nt, 0.8), dt); }), bad, w);
  }
  // mismatched affine expressions cannot be combined
  c.nontrivial(mon::hashMix(mon::hashStr(what), k));
}

void C13(Ctx& c) {
  T13 t(c);
  if (pool().plans.size() < 20) {
    c.fail("no-pool", "could not find enough problems with a plan");
    return;
  }
  const long nb = 8192;
  if (c.caseId < nb) {
    flags(t, (int)c.caseId);
    return;
  }
  if (c.rng.chance(0.3)) {
    int f = c.rng.chance(0.6) ? (c.rng.chance(0.7) ? optSets()[c.rng.below(8)].flag : jerkSets()[c.rng.below(3)].flag) : c.rng.chance(0.5) ? (int)c.rng.next() : (optSets()[c.rng.below(8)].flag | (1 << c.rng.range(13, 31)));
    flags(t, f);
    return;
  }
  requests(t);
}
Reg r13("C13", C13, 20000, 200000);
}  // namespace
