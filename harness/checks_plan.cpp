// Monitors of the centre-of-mass planner: boundary conditions (C01), sampled
// feasibility (C02), continuous feasibility (C03).
#include "zgen.hpp"
using namespace gen;
using namespace mon;

// ---------------------------------------------------------------- C01
static void boundary(Ctx& c, const Plan& p, const ResultDataCOMTraj& r) {
  const double T = p.T();
  const auto& f = p.opt.flag;
  const ProblemData& d = p.pd;
  c.le("span-start", std::fabs(r.c_of_t_.min()), 1e-12, "curve starts at");
  c.le("span-end", std::fabs(r.c_of_t_.max() - T), 1e-9 * (1 + T), "curve end off by");
  auto chk = [&](const char* k, double t, int der, const V3& want) {
    V3 got = der == 0 ? V3(r.c_of_t_(t)) : V3(r.c_of_t_.derivate(t, der));
    double sc = 1 + want.norm() + r.x.norm() * std::pow(p.opt.deg / T, der) * std::pow(2., der);
    c.le(k, (got - want).norm(), 1e-9 * sc, MON_STR(k << " got " << got.transpose() << " want " << want.transpose()));
    c.ev(std::string("checked:") + k);
  };
  const double t0 = r.c_of_t_.min(), t1 = r.c_of_t_.max();
  if (f & INIT_POS) chk("init-pos", t0, 0, d.c0_);
  if (f & INIT_VEL) chk("init-vel", t0, 1, d.dc0_);
  if (f & INIT_ACC) chk("init-acc", t0, 2, d.ddc0_);
  if (f & INIT_JERK) chk("init-jerk", t0, 3, d.j0_);
  if (f & END_JERK) chk("end-jerk", t1, 3, d.j1_);
  if (f & END_POS) chk("end-pos", t1, 0, d.c1_);
  if (f & END_VEL) chk("end-vel", t1, 1, d.dc1_);
  if (f & END_ACC) chk("end-acc", t1, 2, d.ddc1_);
  // the whole curve is the member of the family selected by the free point
  if (r.x.size() == 3) {
    ora::Curve k = curveOf(d, p.opt, T);
    double worst = 0, sc = 1 + r.x.norm();
    for (auto& q : k.P) sc += q.s.norm();
    for (int i = 0; i <= 10; ++i) worst = std::max(worst, (V3(r.c_of_t_(std::min(t1, t1 * i / 10.))) - ora::apply(k.at(T * i / 10.), r.x)).norm());
    c.le("family", worst, 1e-9 * sc, "trajectory is not the curve of its free point");
  } else
    c.fail("free-point", "solution has no 3 free coordinates");
}
static void C01(Ctx& c) {
  Plan p;
  PlanOpts po;
  po.mode = c.rng.below(4);
  po.qpOnly = false;
  po.effort = c.rng.chance(0.7) ? 0.5 : 1;
  po.maxPhases = po.mode == CONT_FORCE ? 2 : 3;
  if (po.mode == CONT_FORCE) po.allowNoKin = false;
  if (!nextPlan(c, p, po)) return;
  if (p.mode == CONT_FORCE) p.solver = solvers::SOLVER_GLPK;
  ResultDataCOMTraj r = run(p);
  c.ev(std::string(r.success_ ? "success:" : "failure:") + modeName(p.mode));
  if (!r.success_) return;
  c.ev(std::string("planned:") + p.opt.name);
  c.nontrivial(p.hash());
  c.sample(p.desc());
  boundary(c, p, r);
}
static Reg r01("C01", C01, 2400, 40000);

// ---------------------------------------------------------------- C02
// physical re-check of one instant from the returned curve itself
static void instantCheck(Ctx& c, const Plan& p, const ResultDataCOMTraj& r, double t, int ph, double reduce, double tolS, double tolK, bool force, const char* pre) {
  const double t1 = r.c_of_t_.max();
  double tt = std::min(std::max(t, 0.), t1);
  V3 pos = r.c_of_t_(tt), acc = r.c_of_t_.derivate(tt, 2), g = p.sc.g();
  Vec w(6);
  w.head(3) = acc - g;
  w.tail(3) = pos.cross(acc) + g.cross(pos);
  double sw = 1 + w.norm();
  Vec v = p.sc.Hn[ph] * w - p.sc.h[ph];
  std::string at = MON_STR("t=" << tt << " phase " << ph);
  c.le(std::string(pre) + "stability", v.maxCoeff() + reduce, tolS * sw, "contact wrench leaves the cone at " + at);
  const PhaseDesc& d = p.sc.ph[ph];
  for (int i = 0; i < d.K.rows(); ++i)
    if (!c.le(std::string(pre) + "kinematic", d.K.row(i).dot(pos) - d.k[i], tolK * (1 + d.K.row(i).norm()), "kinematic row violated at " + at)) break;
  c.ev("instants-checked");
  if (force) {
    // independent of the polytope: non-negative combination of generators
    Mat G = -Mat(p.sc.eq[ph]->m_G_centr);
    Vec W = p.sc.mass * w;
    double res = ora::nnls(G, W);
    // a wrench that every face admits but no forces produce: the cone library lost a face
    if (p.mode != CONT_FORCE && v.maxCoeff() <= 0 && res > 1e-3 * (1 + W.norm())) c.ev("cone-library-lost-a-face");
    else c.le(std::string(pre) + "forces", res, 1e-3 * (1 + W.norm()), "no contact forces produce the wrench at " + at);
    c.ev("force-decompositions");
  }
}
// GLPK accepts violations of 1e-7 of the rows it is given, which are divided by
// the weight of the free point in the acceleration: large for short motions.
static double lpTol(const Plan& p) { return 2e-5 + 3e-7 * p.opt.deg * p.opt.deg / (p.T() * p.T()); }
static void C02(Ctx& c) {
  Plan p;
  PlanOpts po;
  po.mode = c.rng.below(2);
  po.qpOnly = false;
  po.effort = c.rng.chance(0.6) ? 0.6 : 1.2;
  po.maxPhases = 4;
  if (!nextPlan(c, p, po)) return;
  ResultDataCOMTraj r = run(p);
  c.ev(std::string(r.success_ ? "success:" : "failure:") + modeName(p.mode));
  if (!r.success_) return;
  c.nontrivial(p.hash());
  c.sample(p.desc());
  c.ev("phases:" + std::to_string(p.Ts.size()));
  std::vector<Instant> con;
  std::vector<double> smp;
  instants(p, con, smp);
  bool f = c.rng.chance(0.1);
  const double tol = p.solver == solvers::SOLVER_GLPK ? lpTol(p) : 1e-6;
  for (auto& k : con) {
    instantCheck(c, p, r, k.t, k.phase, refReduce(p), tol, tol, f && c.rng.chance(0.2), "");
    if (c.caseFailed) return;
  }
  if (p.pd.constraints_.constraintAcceleration_) {
    c.ev("acceleration-limited");
    for (double t : smp) {
      V3 a = r.c_of_t_.derivate(std::min(t, r.c_of_t_.max()), 2);
      if (!c.le("acceleration", a.cwiseAbs().maxCoeff() - p.pd.constraints_.maxAcceleration_, 1e-6 * (1 + a.norm()), MON_STR("acceleration limit exceeded at " << t))) return;
    }
  }
}
static Reg r02("C02", C02, 1600, 30000);

// ---------------------------------------------------------------- C03
// The QP solver stops when the violations add up to less than
// rows * eps * 100 * cond, its estimate of the rounding error, where cond is
// trace(H) * trace(L^-1). The forces weigh 1e-6 each, so cond is large.
static double qpAccuracy(const Plan& p) {
  double m = 0, rows = 0;
  const int wdeg = p.opt.stop ? 4 : p.opt.deg == 8 ? 14 : 2 * p.opt.deg - 3;
  for (size_t i = 0; i < p.sc.ph.size(); ++i) {
    m += (wdeg + 1) * p.sc.eq[i]->m_G_centr.cols();
    rows += p.sc.ph[i].K.rows() * (p.opt.deg + 1) + 6 * (p.opt.deg - 1);
  }
  Quad q = refCost(p);
  double c1 = q.H.trace() + 1e-6 * m, c2 = 1e3 * m;
  for (int i = 0; i < 3; ++i) c2 += 1 / std::sqrt(q.H(i, i));
  return (rows + m + 3) * 2.3e-16 * c1 * c2 * 100;
}
static void C03(Ctx& c) {
  Plan p;
  PlanOpts po;
  po.mode = c.rng.chance(0.6) ? CONT : CONT_FORCE;
  po.qpOnly = false;
  po.effort = c.rng.chance(0.7) ? 0.5 : 1;
  po.maxPhases = po.mode == CONT ? 4 : 3;
  po.allowNoKin = po.mode == CONT;
  if (!nextPlan(c, p, po)) return;
  bool qpForce = false;
  if (p.mode == CONT_FORCE) {
    qpForce = c.rng.chance(0.15);
    p.solver = qpForce ? solvers::SOLVER_QUADPROG : solvers::SOLVER_GLPK;
  }
  ResultDataCOMTraj r = run(p);
  std::string kind = std::string(modeName(p.mode)) + (p.solver == solvers::SOLVER_GLPK ? "-lp" : "-qp");
  c.ev(std::string(r.success_ ? "success:" : "failure:") + kind);
  if (!r.success_) return;
  c.nontrivial(p.hash());
  c.sample(p.desc());
  c.ev("phases:" + std::to_string(p.Ts.size()));
  double t0 = 0;
  double tolS = p.mode == CONT ? (p.solver == solvers::SOLVER_GLPK ? lpTol(p) : 1e-6) : qpForce ? 1e-3 : lpTol(p), tolK = qpForce ? std::max(1e-4, qpAccuracy(p)) : p.solver == solvers::SOLVER_GLPK ? 2e-5 : 1e-6;
  for (int i = 0; i < p.Ts.size(); ++i) {
    double t1 = t0 + p.Ts[i];
    const int N = 24;
    for (int k = 0; k <= N; ++k) {
      double u = k == 0 || k == N ? k / (double)N : (k + c.rng.uni(-0.4, 0.4)) / N;
      instantCheck(c, p, r, t0 + u * (t1 - t0), i, refReduce(p), tolS, tolK, p.mode == CONT_FORCE && k % 8 == 0, p.mode == CONT ? "" : "force-");
      if (c.caseFailed) return;
      if (p.pd.constraints_.constraintAcceleration_) {
        V3 a = r.c_of_t_.derivate(std::min(t0 + u * (t1 - t0), r.c_of_t_.max()), 2);
        if (!c.le("acceleration", a.cwiseAbs().maxCoeff() - p.pd.constraints_.maxAcceleration_, (qpForce ? 1e-3 : 1e-6) * (1 + a.norm()), MON_STR("acceleration limit exceeded in phase " << i))) return;
      }
    }
    t0 = t1;
  }
}
static Reg r03("C03", C03, 1200, 20000);
