// The result record (C15): every field against the motion it describes.
#include <hpp/bezier-com-traj/solve_end_effector.hh>

#include "zgen.hpp"
using namespace gen;
using namespace mon;
using ora::Curve;

namespace {
struct MonPath {
  V3 a, b, w;
  point3_t operator()(double u) const { return (1 - u) * a + u * b + w * std::sin(3.141592653589793 * u); }
};
// a failure is the default record: nothing filled
void failed(Ctx& c, const ResultDataCOMTraj& r) {
  c.ev("failures-checked");
  if (r.x.size() != 0) c.fail("failure-x", MON_STR("a failed request carries a solution of size " << r.x.size()));
  if (r.cost_ != -1) c.fail("failure-cost", MON_STR("a failed request carries the cost " << r.cost_));
  if (!r.dc1_.isZero(0) || !r.ddc1_.isZero(0)) c.fail("failure-terminal", "a failed request carries a terminal velocity or acceleration");
  for (const bezier_t* b : {&r.c_of_t_, &r.dL_of_t_}) {
    if (b->dim() != 3) {
      c.fail("failure-curve", "the curve of a failed request is not in dimension 3");
      continue;
    }
    for (int k = 0; k <= 4; ++k) {
      double t = b->min() + (b->max() - b->min()) * k / 4;
      if (!(*b)(t).isZero(0)) c.fail("failure-curve", MON_STR("the curve of a failed request is not zero at " << t));
    }
  }
}
double magnitude(const bezier_t& b) {
  double m = 1;
  for (auto& w : b.waypoints()) m = std::max(m, w.norm());
  return m;
}
// fields common to all planners; y = unknowns, k = the documented curve
void motion(Ctx& c, const ResultDataCOMTraj& r, const Curve& k, double T, int nx) {
  if (r.x.size() != nx) {
    c.fail("x-size", MON_STR("solution of size " << r.x.size() << " instead of " << nx));
    return;
  }
  if (!r.x.allFinite()) c.fail("x-finite", "the solution is not finite");
  const bezier_t& b = r.c_of_t_;
  const double M = magnitude(b), D = std::max(1., k.degree() / T);
  if (b.min() != 0 || std::fabs(b.max() - T) > 1e-12 * T || b.dim() != 3) {
    c.fail("duration", MON_STR("the trajectory is defined on [" << b.min() << "," << b.max() << "]"));
    return;
  }
  const Vec y = r.x.head(3 * k.P[0].a.size());
  for (int s = 0; s <= 8; ++s) {
    const double t = s == 8 ? b.max() : T * s / 8;
    c.le("trajectory", (V3(b(t)) - ora::apply(k.at(std::min(t, T)), y)).norm(), 1e-8 * M, MON_STR("trajectory at " << t << " against the reported solution"));
  }
  // finite differences of the returned curve, next to its end
  const V3 v1 = b.derivate(b.max(), 1), a1 = b.derivate(b.max(), 2);
  const Curve d = k.derivative(1), dd = k.derivative(2);
  c.le("terminal-velocity", (V3(r.dc1_) - ora::apply(d.at(T), y)).norm(), 1e-8 * M * D, "reported terminal velocity against the motion");
  c.le("terminal-acceleration", (V3(r.ddc1_) - ora::apply(dd.at(T), y)).norm(), 1e-8 * M * D * D, "reported terminal acceleration against the motion");
  c.le("terminal-velocity", (V3(r.dc1_) - v1).norm(), 1e-8 * M * D, "reported terminal velocity against the curve");
  c.le("terminal-acceleration", (V3(r.ddc1_) - a1).norm(), 1e-8 * M * D * D, "reported terminal acceleration against the curve");
  const bezier_t& L = r.dL_of_t_;
  if (L.min() != 0 || std::fabs(L.max() - T) > 1e-12 * T || L.dim() != 3) c.fail("duration-dL", MON_STR("the angular momentum curve is defined on [" << L.min() << "," << L.max() << "]"));
}
void zeroL(Ctx& c, const ResultDataCOMTraj& r) {
  for (int s = 0; s <= 4; ++s) {
    double t = r.dL_of_t_.min() + (r.dL_of_t_.max() - r.dL_of_t_.min()) * s / 4;
    if (!r.dL_of_t_(t).isZero(0)) c.fail("dL", "the angular momentum changes, although the problem does not use it");
  }
}

void planner(Ctx& c, const PlanOpts& po) {
  Plan p;
  if (!nextPlan(c, p, po)) return;
  // fields the planner does not use must not leak into the answer
  p.pd.useAngularMomentum_ = c.rng.chance(0.2);
  p.pd.l0_ = c.rng.chance(0.3) ? vec(c.rng, 4) : V3::Zero().eval();
  ResultDataCOMTraj r = gen::run(p);
  c.ev(std::string(r.success_ ? "success:" : "failure:") + modeName(p.mode));
  c.nontrivial(p.hash());
  if (!r.success_) {
    failed(c, r);
    return;
  }
  const Curve k = curveOf(p.pd, p.opt, p.T());
  motion(c, r, k, p.T(), 3);
  zeroL(c, r);
  if (c.caseFailed) return;
  const Quad q = refCost(p);
  const V3 x = r.x.head(3);
  const bool lp = p.solver == solvers::SOLVER_GLPK;
  const double lin = q.g.dot(x), quad = 0.5 * x.dot(q.H * x) + lin, want = lp ? lin : quad;
  const double scale = 1 + q.H.norm() * (1 + x.squaredNorm()) + q.g.norm() * (1 + x.norm());
  if (p.mode == CONT_FORCE && !lp) {
    // includes the (tiny) weight of the contact forces
    c.le("cost-force-low", want - r.cost_, 1e-7 * scale, "motion cost above the reported cost");
    const double f = p.sc.mass * (9.81 + 400.);
    c.le("cost-force-high", r.cost_ - want, 0.5e-6 * f * f * 9 * (p.Ts.size() + 1) * 15 + 1e-7 * scale, "reported cost above motion and force cost");
  } else
    c.le("cost", std::fabs(r.cost_ - want), 1e-9 * scale, MON_STR("reported cost " << r.cost_ << " against " << want));
  if (c.caseId < 40) c.sample(c.caseDesc);
}
void zero(Ctx& c, const ZOpts& zo) {
  ZPlan z;
  if (!nextZ(c, z, zo)) return;
  ResultDataCOMTraj r = z.solve();
  c.ev(std::string(r.success_ ? "success:" : "failure:") + (z.dim() == 6 ? "zero-ang" : "zero"));
  c.nontrivial(z.hash());
  if (!r.success_) {
    failed(c, r);
    return;
  }
  motion(c, r, ora::stopCurve(z.pd.c0_, z.pd.dc0_, z.T), z.T, z.dim());
  if (c.caseFailed) return;
  const V3 x = r.x.head(3);
  if (z.dim() == 3) {
    zeroL(c, r);
    c.le("cost-zero", std::fabs(r.cost_ - (z.pd.c0_ - x).norm()), 1e-9 * (1 + x.norm()), "reported cost against the distance covered");
    c.le("cost-zero", std::fabs(r.cost_ - (V3(r.c_of_t_(r.c_of_t_.max())) - V3(r.c_of_t_(0.))).norm()), 1e-8 * (1 + x.norm()), "reported cost against the ends of the trajectory");
    return;
  }
  const V3 xL = r.x.tail(3), l0 = z.pd.l0_;
  const double M = 1 + (xL.norm() + l0.norm()) / z.T;
  for (int s = 0; s <= 8; ++s) {
    const double t = z.T * s / 8;
    const ora::AffPt a = angRate(z, t);
    const V3 want = a.a[0] * xL + a.s;
    c.le("dL", (V3(r.dL_of_t_(std::min(t, r.dL_of_t_.max()))) - want).norm(), 1e-9 * M, MON_STR("angular momentum rate at " << t));
  }
  // integral of the squared rate over normalised time (what the cost stands for)
  double I = 0;
  const double gx[5] = {0.5 - 0.5 * 0.906179845938664, 0.5 - 0.5 * 0.538469310105683, 0.5, 0.5 + 0.5 * 0.538469310105683, 0.5 + 0.5 * 0.906179845938664};
  const double gw[5] = {0.236926885056189 / 2, 0.478628670499366 / 2, 0.568888888888889 / 2, 0.478628670499366 / 2, 0.236926885056189 / 2};
  for (int k = 0; k < 5; ++k) I += gw[k] * V3(r.dL_of_t_(gx[k] * r.dL_of_t_.max())).squaredNorm();
  I *= z.T * z.T;
  c.le("cost-ang", std::fabs(r.cost_ - I), 1e-7 * (1 + l0.squaredNorm() + xL.squaredNorm()), MON_STR("reported cost " << r.cost_ << " against the integrated angular momentum rate " << I));
}
void effector(Ctx& c) {
  Rng& r = c.rng;
  const OptSet& o = jerkSets()[r.below(3)];
  ProblemData d;
  d.constraints_ = Constraints(o.flag);
  d.c0_ = vec(r, 1), d.c1_ = vec(r, 1);
  for (point_t* q : {&d.dc0_, &d.dc1_, &d.ddc0_, &d.ddc1_, &d.j0_, &d.j1_}) *q = r.chance(0.3) ? V3::Zero().eval() : vec(r, 1);
  const double T = r.uni(0.3, 2);
  const double w = r.chance(0.2) ? 1 : r.chance(0.2) ? 0 : r.uni();
  if (r.chance(0.35)) {  // too far, or too fast: some of these have no plan
    const double far = std::pow(10., r.uni(1, 6));
    (r.chance(0.5) ? d.c1_ : r.chance(0.5) ? d.dc0_ : d.dc1_) += far * unit(r);
  }
  MonPath path{d.c0_, d.c1_, vec(r, 0.5)};
  c.caseDesc = MON_STR("end-effector " << o.name << " T=" << T << " weight=" << w << " c0=" << d.c0_.transpose());
  ResultDataCOMTraj res = solveEndEffector(d, path, T, w);
  c.nontrivial(hashD(hashD(hashStr(o.name), T), d.c0_[0]));
  c.ev(std::string(res.success_ ? "success:" : "failure:") + o.name);
  if (!res.success_) {
    failed(c, res);
    return;
  }
  const Curve k = curveOf(d, o, T);
  motion(c, res, k, T, 3 * o.nfree);
  zeroL(c, res);
  // the objective itself is the subject of C10
  const std::pair<MatrixXX, VectorX> Hg = computeEndEffectorCost(d, path, T, w, true, computeConstantWaypoints(d, T));
  const double want = 0.5 * res.x.dot(Hg.first * res.x) + Hg.second.dot(res.x);
  c.le("cost-effector", std::fabs(res.cost_ - want), 1e-9 * (1 + Hg.first.norm() * res.x.squaredNorm() + Hg.second.norm() * res.x.norm()), MON_STR("reported cost " << res.cost_ << " against " << want));
}
void C15(Ctx& c) {
  const int k = (int)(c.caseId % 10);
  if (k < 6) {
    PlanOpts po;
    po.maxPhases = 4;
    po.qpOnly = false;
    po.mode = k < 4 ? k : -1;
    po.effort = c.rng.chance(0.25) ? 6 : 1;
    planner(c, po);
  } else if (k < 9) {
    ZOpts zo;
    zo.effort = c.rng.chance(0.25) ? 3 : 1;
    zero(c, zo);
  } else
    effector(c);
}
Reg r15("C15", C15, 6000, 150000);
}  // namespace
