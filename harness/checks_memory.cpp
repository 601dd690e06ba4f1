// Memory workload (C11), to be run under sanitizers and memcheck: sizes far
// from those of the tests, degenerate and empty data, object life cycles.
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/solver/glpk-wrapper.hpp>

#include <cstring>
#include <new>

#include "zgen.hpp"
using namespace gen;
using namespace mon;
typedef tsid::solvers::EiquadprogFast QP;

namespace {
volatile double g_sink;
// branching on every value makes memcheck report those never written
void use(double v) { g_sink = v > 0 ? 1 : v < 0 ? -1 : 0; }
void use(const Mat& m) {
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) use(m(i, j));
}
void use(const bezier_t& b) {
  for (auto& w : b.waypoints()) use(Mat(w));
  use(b.min());
  use(b.max());
}
void use(const ContactData& k, bool deep) {
  use(Mat(k.kin_));
  use(Mat(k.ang_));
  if (k.kin_.size()) use(Mat(k.Kin_));
  if (k.ang_.size()) use(Mat(k.Ang_));
  if (deep && k.contactPhase_) {
    use(k.contactPhase_->m_mass);
    use(Mat(k.contactPhase_->m_G_centr));
  }
}
void use(const ProblemData& d, bool deep = true) {
  for (const point_t* p : {&d.c0_, &d.dc0_, &d.ddc0_, &d.j0_, &d.c1_, &d.dc1_, &d.ddc1_, &d.j1_, &d.l0_}) use(Mat(*p));
  use(d.useAngularMomentum_ ? 1 : 0);
  use((int)d.costFunction_);
  use((int)d.representation_);
  use((int)d.constraints_.flag_);
  use(d.constraints_.constraintAcceleration_ ? 1 : 0);
  use(d.constraints_.maxAcceleration_);
  use(d.constraints_.reduce_h_);
  for (auto& k : d.contacts_) use(k, deep);
}
void use(const ResultDataCOMTraj& r) {
  use(r.success_ ? 1 : 0);
  use(r.cost_);
  use(Mat(r.x));
  use(r.c_of_t_);
  use(r.dL_of_t_);
  use(Mat(r.dc1_));
  use(Mat(r.ddc1_));
}
Mat rnd(Rng& r, int n, int m) {
  Mat M(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) M(i, j) = r.gauss();
  return M;
}

// An object constructed in memory of any contents has the same value: a field
// left out by a constructor shows the contents.  The barriers keep the compiler
// from knowing them.
template <class Make, class Read>
void freshFields(Ctx& c, const char* what, size_t size, Make make, Read read) {
  std::vector<double> first;
  for (int fill : {0x00, 0xa5, 0xff, 0x41}) {
    void* mem = ::operator new(size + 64);
    std::memset(mem, fill, size + 64);
    __asm__ volatile("" : "+r"(mem) : : "memory");
    void* o = make(mem);
    __asm__ volatile("" : "+r"(o) : : "memory");
    std::vector<double> v = read(o);
    ::operator delete(mem);
    if (first.empty()) first = v;
    else
      for (size_t i = 0; i < v.size(); ++i)
        if (std::memcmp(&v[i], &first[i], sizeof(double)))
          c.fail("uninitialised-field", MON_STR(what << ": field " << i << " depends on the memory it is constructed in: " << first[i] << ", " << v[i]));
  }
  c.ev(std::string("constructed:") + what);
}
void put(std::vector<double>& v, const Constraints& k) { v.insert(v.end(), {(double)(int)k.flag_, (double)*(const unsigned char*)&k.constraintAcceleration_, k.maxAcceleration_, k.reduce_h_}); }
void put(std::vector<double>& v, const ContactData& k) {
  v.insert(v.end(), {(double)(size_t)k.contactPhase_, (double)k.kin_.size(), (double)k.ang_.size(), (double)k.Kin_.rows(), (double)k.Ang_.rows()});
  if (k.Kin_.size() < 100 && k.Ang_.size() < 100) v.insert(v.end(), {k.Kin_.norm(), k.Ang_.norm()});
}
void put(std::vector<double>& v, const ProblemData& d) {
  for (const point_t* p : {&d.c0_, &d.dc0_, &d.ddc0_, &d.j0_, &d.c1_, &d.dc1_, &d.ddc1_, &d.j1_, &d.l0_}) v.insert(v.end(), {(*p)[0], (*p)[1], (*p)[2]});
  v.insert(v.end(), {(double)*(const unsigned char*)&d.useAngularMomentum_, (double)(int)d.costFunction_, (double)(int)d.representation_, (double)d.contacts_.size()});
  put(v, d.constraints_);
  for (auto& k : d.contacts_) put(v, k);
}
void put(std::vector<double>& v, const ResultData& r) { v.insert(v.end(), {(double)*(const unsigned char*)&r.success_, r.cost_, (double)r.x.size()}); }
void put(std::vector<double>& v, const ResultDataCOMTraj& r) {
  put(v, (const ResultData&)r);
  for (const bezier_t* b : {&r.c_of_t_, &r.dL_of_t_}) {
    v.insert(v.end(), {b->min(), b->max(), (double)b->waypoints().size()});
    for (auto& w : b->waypoints()) v.insert(v.end(), {w[0], w[1], w[2]});
  }
  for (const point_t* p : {&r.dc1_, &r.ddc1_}) v.insert(v.end(), {(*p)[0], (*p)[1], (*p)[2]});
}
template <class T>
std::vector<double> fields(void* o) {
  std::vector<double> v;
  put(v, *(T*)o);
  ((T*)o)->~T();
  return v;
}
void constructors(Ctx& c) {
  const ConstraintFlag flag = F(c.rng.below(256));
  freshFields(c, "Constraints()", sizeof(Constraints), [](void* m) { return (void*)new (m) Constraints(); }, fields<Constraints>);
  freshFields(c, "Constraints(flag)", sizeof(Constraints), [&](void* m) { return (void*)new (m) Constraints(flag); }, fields<Constraints>);
  freshFields(c, "ContactData()", sizeof(ContactData), [](void* m) { return (void*)new (m) ContactData(); }, fields<ContactData>);
  freshFields(c, "ContactData(phase)", sizeof(ContactData), [](void* m) { return (void*)new (m) ContactData((centroidal_dynamics::Equilibrium*)0); }, fields<ContactData>);
  const ContactData k;
  freshFields(c, "ContactData(other)", sizeof(ContactData), [&](void* m) { return (void*)new (m) ContactData(k); }, fields<ContactData>);
  freshFields(c, "ProblemData()", sizeof(ProblemData), [](void* m) { return (void*)new (m) ProblemData(); }, fields<ProblemData>);
  ProblemData d;
  d.contacts_.resize(2);
  freshFields(c, "ProblemData(other)", sizeof(ProblemData), [&](void* m) { return (void*)new (m) ProblemData(d); }, fields<ProblemData>);
  freshFields(c, "ResultData()", sizeof(ResultData), [](void* m) { return (void*)new (m) ResultData(); }, fields<ResultData>);
  const Vec x = Vec::Ones(c.rng.range(0, 9));
  freshFields(c, "ResultData(success, cost, x)", sizeof(ResultData), [&](void* m) { return (void*)new (m) ResultData(true, 2.5, x); }, fields<ResultData>);
  const ResultData q(true, 2.5, x);
  freshFields(c, "ResultData(other)", sizeof(ResultData), [&](void* m) { return (void*)new (m) ResultData(q); }, fields<ResultData>);
  freshFields(c, "ResultDataCOMTraj()", sizeof(ResultDataCOMTraj), [](void* m) { return (void*)new (m) ResultDataCOMTraj(); }, fields<ResultDataCOMTraj>);
}

void lives(Ctx& c) {
  Rng& r = c.rng;
  c.caseDesc = "object life cycles";
  constructors(c);
  ProblemData d;
  use(d);
  ProblemData e(d), f;
  f = e;
  use(f);
  Constraints k0, k1(F(r.below(256)));
  use(k0.maxAcceleration_ + k1.maxAcceleration_ + k1.reduce_h_);
  use((k1.constraintAcceleration_ ? 1 : 0) + (k0.constraintAcceleration_ ? 1 : 0) + (int)k0.flag_);
  ContactData empty, copied(empty), grown;
  use(copied, true);
  grown = copied;
  use(grown, true);
  d.contacts_.resize(r.range(1, 4));
  ProblemData g(d);
  use(g);
  ResultDataCOMTraj a, b(a);
  use(b);
  ResultData q;
  use(q.cost_);
  use(q.success_ ? 1 : 0);
  use(Mat(q.x));
  ResultData q2(true, 2.5, Vec::Ones(r.range(0, 9))), q3(q2);
  q = q3;
  q = q;
  use(Mat(q.x));
  use(q.cost_);
  Plan p;
  PlanOpts po;
  po.maxPhases = 3;
  if (!nextPlan(c, p, po)) return;
  // growing and reassigning the contact list, copies of copies
  std::unique_ptr<ProblemData> o(new ProblemData(p.pd));
  ProblemData w;
  w = *o;
  for (int i = 0; i < 3; ++i) w.contacts_.push_back(w.contacts_[r.below((int)w.contacts_.size())]);
  w.contacts_.erase(w.contacts_.begin() + r.below((int)w.contacts_.size()));
  use(w);
  w.contacts_.resize(p.Ts.size(), p.pd.contacts_.back());
  ResultDataCOMTraj r1 = p.mode == FIXED ? computeCOMTrajFixedSize(*o, p.Ts, p.ppp) : computeCOMTraj(*o, p.Ts, p.mode == STEP ? p.dt : -1, p.solver);
  o.reset();
  use(r1);
  a = r1;
  r1 = ResultDataCOMTraj();
  use(a);
  if (a.success_) {
    bezier_t cc(a.c_of_t_);
    a = b;
    use(cc);
    for (int i = 0; i <= 4; ++i) use(Mat(cc(cc.max() * i / 4)));
    use(Mat(cc.derivate(cc.max(), 2)));
  }
  c.ev("life-cycles");
}
void bigPlans(Ctx& c) {
  Rng& r = c.rng;
  PlanOpts po;
  const bool many = r.chance(0.4);
  po.maxPhases = many ? 12 : 3;
  po.qpOnly = false;
  po.mode = r.below(4);
  if (po.mode == CONT_FORCE) po.maxPhases = 4;
  Plan p;
  if (!nextPlan(c, p, po)) return;
  if (p.mode == FIXED) p.ppp = r.chance(0.5) ? r.range(1, 4) : r.range(10, 60);
  if (p.mode == STEP) p.dt = p.Ts.minCoeff() / (r.chance(0.5) ? 2. : r.uni(2, 40));
  for (auto& k : p.pd.contacts_) {
    if (r.chance(0.25)) {  // no kinematic rows, whatever the matrix size
      k.kin_.resize(0);
      if (r.chance(0.5)) k.Kin_.resize(0, 3);
    } else if (r.chance(0.2)) {  // many, with redundant and zero rows
      int m = r.range(20, 120), n0 = (int)k.kin_.size();
      if (!n0) continue;
      Mat K(m, 3);
      Vec v(m);
      for (int i = 0; i < m; ++i) {
        int j = r.below(n0);
        K.row(i) = k.Kin_.row(j);
        v[i] = k.kin_[j] + (r.chance(0.5) ? 0 : r.uni(0, 1));
        if (r.chance(0.1)) K.row(i).setZero(), v[i] = r.uni(0, 1);
      }
      k.Kin_ = K;
      k.kin_ = v;
    }
    if (r.chance(0.3)) k.Ang_ = Mat::Ones(4, 3), k.ang_ = Vec::Ones(4);  // unused by this planner
  }
  c.caseDesc = p.desc();
  ResultDataCOMTraj res = gen::run(p);
  use(res);
  c.ev(res.success_ ? "plan-success" : "plan-failure");
  c.ev("phases", p.Ts.size());
  c.mx("phases-max", p.Ts.size());
}
void bigZero(Ctx& c) {
  Rng& r = c.rng;
  ZPlan z;
  if (!nextZ(c, z, ZOpts())) return;
  switch (r.below(4)) {
    case 0: z.dt = z.T / r.range(1, 3); break;
    case 1: z.dt = z.T / r.uni(50, 300); break;
    case 2: z.dt = z.T; break;
    default: break;
  }
  ContactData& k = z.pd.contacts_[0];
  if (r.chance(0.3)) {
    k.kin_.resize(0);
    if (r.chance(0.5)) k.Kin_.resize(0, 3);
  }
  if (r.chance(0.3)) {
    k.ang_.resize(0);
    if (r.chance(0.5)) k.Ang_.resize(0, 3);
  }
  if (r.chance(0.2)) {
    int m = r.range(20, 100);
    k.Kin_ = rnd(r, m, 3);
    k.kin_ = k.Kin_ * z.pd.c0_ + Vec::Ones(m);
  }
  c.caseDesc = z.desc();
  use(z.solve());
  bool fail;
  const std::vector<waypoint6_t> none;
  std::vector<waypoint6_t> w(r.range(1, 30), initwp<waypoint6_t>()), l(w.size(), initwp<waypoint6_t>());
  std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(k, w, l, r.chance(0.5), fail);
  use(Ab.first);
  use(Mat(Ab.second));
  c.ev("zero-step");
}
void bigSolve(Ctx& c) {
  Rng& r = c.rng;
  const bool big = r.chance(0.3);
  const int n = big ? r.range(10, 60) : r.range(1, 8), mi = r.chance(0.15) ? 0 : big ? r.range(50, 500) : r.range(1, 30), me = r.chance(0.5) ? 0 : r.range(1, n);
  Vec x0 = rnd(r, n, 1);
  Mat A = rnd(r, mi, n), D = rnd(r, me, n);
  if (r.chance(0.3) && me > 1) D.row(me - 1) = D.row(0);
  if (r.chance(0.3) && mi > 1) A.bottomRows(mi / 2) = A.topRows(mi / 2);
  if (r.chance(0.2) && mi) A.row(r.below(mi)).setZero();
  if (r.chance(0.15) && mi) A.setZero();
  Vec b = A * x0, d = D * x0;
  if (r.chance(0.6)) b.array() += r.uni(0, 1);
  if (r.chance(0.15)) b = rnd(r, mi, 1);
  Vec lo(0), hi(0);
  if (r.chance(0.4)) lo = x0.array() - r.uni(0, 2);
  if (r.chance(0.4)) hi = x0.array() + r.uni(0, 2);
  for (int i = 0; i < lo.size(); ++i)
    if (r.chance(0.2)) lo[i] = solvers::UNBOUNDED_DOWN;
  for (int i = 0; i < hi.size(); ++i)
    if (r.chance(0.2)) hi[i] = solvers::UNBOUNDED_UP;
  Mat M = rnd(r, n, n), H = M * M.transpose() / n + 0.1 * Mat::Identity(n, n);
  Vec g = rnd(r, n, 1);
  c.caseDesc = MON_STR("solve n=" << n << " ineq=" << mi << " eq=" << me << " lo=" << lo.size() << " hi=" << hi.size());
  const auto s = r.chance(0.5) ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  ResultData q = bezier_com_traj::solve(std::make_pair(MatrixXX(A), VectorX(b)), std::make_pair(MatrixXX(D), VectorX(d)), std::make_pair(MatrixXX(H), VectorX(g)), lo, hi, VectorX(x0), s);
  use(Mat(q.x));
  use(q.success_ ? 1 : 0);
  if (q.success_) use(q.cost_);
  q = bezier_com_traj::solve(std::make_pair(MatrixXX(A), VectorX(b)), std::make_pair(MatrixXX(H), VectorX(g)), VectorX(x0), s);
  use(Mat(q.x));
  {
    Vec x = x0;
    double cost = 0;
    Vec gl = r.chance(0.3) ? Vec::Zero(n).eval() : g;
    const int st = solvers::solveglpk(gl, D, d, A, b, lo, hi, x, cost);
    use(st);
    if (st == GLP_OPT) use(Mat(x)), use(cost);
  }
  // one solver object through problems of changing sizes
  QP qp;
  Rng rr(r.next());
  const int kk = r.range(2, 5);
  for (int k = 0; k < kk; ++k) {
    const int nn = rr.range(1, 20), ne = rr.chance(0.4) ? 0 : rr.range(0, nn), ni = rr.range(0, 60);
    Mat W = rnd(rr, nn, nn), HH = W * W.transpose() + Mat::Identity(nn, nn), CE = rnd(rr, ne, nn), CI = rnd(rr, ni, nn);
    Vec xx = rnd(rr, nn, 1), gg = rnd(rr, nn, 1), e0 = -CE * xx, i0 = -CI * xx + Vec::Constant(ni, rr.chance(0.5) ? 0. : 0.3);
    if (rr.chance(0.7)) qp.reset(nn, ne, ni);
    Vec x = Vec::Zero(nn);
    QP qr;
    QP& u = rr.chance(0.7) ? qp : qr;
    const auto st = u.solve_quadprog(HH, gg, CE, e0, CI, i0, x);
    use((int)st);
    use(Mat(x));
    use(u.getObjValue());
    use(u.getIteratios());
    if (u.getActiveSetSize() <= u.getLagrangeMultipliers().size()) use(Mat(u.getLagrangeMultipliers().head(std::max(0, u.getActiveSetSize()))));
    Eigen::VectorXi act = u.getActiveSet();
    for (int i = 0; i < u.getActiveSetSize() && i < act.size(); ++i) use(act[i]);
    Eigen::SparseMatrix<double> S = HH.sparseView();
    x.setZero();
    use((int)u.solve_quadprog_sparse(S, gg, CE, e0, CI, i0, x));
    use(Mat(x));
  }
  c.ev("solves", 4 + 2 * kk);
  c.mx("variables-max", n);
  c.mx("inequalities-max", mi);
}
void small(Ctx& c) {
  Rng& r = c.rng;
  c.caseDesc = "helpers on empty and single rows";
  {
    const int n = r.below(4), m = r.range(1, 5);
    Mat A = r.chance(0.5) ? Mat::Zero(n, m).eval() : rnd(r, n, m);
    Vec b = r.chance(0.5) ? Vec::Zero(n).eval() : Vec(rnd(r, n, 1).cwiseAbs());
    use(Normalize(A, b));
    use(A);
  }
  const int deg = r.range(0, 8), k = r.range(1, 5);
  for (auto& p : ComputeBersteinPolynoms(deg)) use(p(r.uni()));
  std::vector<waypoint6_t> w(deg + 1, initwp<waypoint6_t>());
  for (auto& s : ComputeDiscretizedWaypoints(w, ComputeBersteinPolynoms(deg), k)) use(Mat(s.second));
  Vec Ts = Vec::Constant(r.range(1, 6), 0.7);
  for (auto& t : computeDiscretizedTimeFixed(Ts, r.range(1, 9))) use(t.first + t.second);
  for (auto& t : computeDiscretizedTime(Ts, r.uni(0.01, 0.35))) use(t.first + t.second);
  use(Mat(skew(V3(1, 2, 3))));
  waypoint_t e, z = initwp(r.below(3), r.below(3)), y(e);
  use((e == y) + (z == z) + (int)z.size());
  // every expression of every option set, minimal inputs
  ProblemData d;
  d.constraints_.flag_ = r.chance(0.5) ? optSets()[r.below(8)].flag : jerkSets()[r.below(3)].flag;
  centroidal_dynamics::Equilibrium eq("mon", 50, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false);
  d.contacts_.push_back(ContactData(&eq));
  const double T = r.uni(0.2, 3), u = r.chance(0.2) ? 1 : r.uni();
  auto tryIt = [&](const std::function<void()>& f) {
    try {
      f();
      c.ev("expressions");
    } catch (const std::exception&) {
      c.ev("expressions-refused");
    }
  };
  std::vector<point_t> pi;
  tryIt([&] { pi = computeConstantWaypoints(d, T); });
  for (auto& p : pi) use(Mat(p));
  tryIt([&] { computeConstantWaypointsSymbolic(d, T); });
  tryIt([&] { auto q = evaluateCurveAtTime(d, pi, u); use(Mat(q.second)); use(q.first); });
  tryIt([&] { auto q = evaluateAccelerationCurveAtTime(d, pi, T, u); use(Mat(q.second)); use(q.first); });
  tryIt([&] { auto q = computeFinalVelocityPoint(d, T); use(Mat(q.second)); use(q.first); });
  tryIt([&] { for (auto& q : computeWwaypoints(d, T)) use(Mat(q.first)), use(Mat(q.second)); });
  tryIt([&] { auto q = evaluateCurveWaypointAtTime(d, pi, u); use(q.first); use(Mat(q.second)); });
  tryIt([&] { auto q = evaluateVelocityCurveWaypointAtTime(d, T, pi, u); use(q.first); use(Mat(q.second)); });
  tryIt([&] { auto q = evaluateAccelerationCurveWaypointAtTime(d, T, pi, u); use(q.first); use(Mat(q.second)); });
  tryIt([&] { auto q = evaluateJerkCurveWaypointAtTime(d, T, pi, u); use(q.first); use(Mat(q.second)); });
  for (int given = 0; given < 2; ++given) {
    const std::vector<point_t> pp = given ? pi : std::vector<point_t>();
    tryIt([&] { for (auto& q : computeVelocityWaypoints(d, T, pp)) use(q.first), use(Mat(q.second)); });
    tryIt([&] { for (auto& q : computeAccelerationWaypoints(d, T, pp)) use(q.first), use(Mat(q.second)); });
    tryIt([&] { for (auto& q : computeJerkWaypoints(d, T, pp)) use(q.first), use(Mat(q.second)); });
    tryIt([&] { auto q = computeVelocityCost(d, T, pp); use(q.first); use(Mat(q.second)); });
  }
}
struct P0 {
  point3_t operator()(double u) const { return V3(u, 0, 0.1); }
};
void effector(Ctx& c) {
  Rng& r = c.rng;
  ProblemData d;
  const OptSet& o = jerkSets()[r.below(3)];
  d.constraints_.flag_ = o.flag;
  if (r.chance(0.8)) d.c1_ = vec(r, 1);
  if (r.chance(0.5)) d.dc0_ = vec(r, 1), d.j1_ = vec(r, 1);
  const double T = r.uni(0.3, 2);
  c.caseDesc = MON_STR("end effector " << o.name);
  use(solveEndEffector(d, P0(), T, r.chance(0.3) ? r.below(2) : r.uni(), r.chance(0.5)));
  std::vector<point_t> pi = computeConstantWaypoints(d, T);
  auto both = [&](const std::pair<MatrixXX, VectorX>& p) {
    use(p.first);
    use(Mat(p.second));
  };
  both(computeEndEffectorConstraints(d, T, pi));
  both(computeVelocityCost(d, T, pi));
  const int n = r.range(2, 40);
  both(computeDistanceCostFunction(n, d, T, P0()));
  MatrixXX H;
  VectorX g;
  try {
    computeVelCostFunctionDiscretized(n, d, T, H, g);
    use(H);
    computeAccelerationCostFunctionDiscretized(n, d, T, H, g);
    use(H);
    computeJerkCostFunctionDiscretized(n, d, T, H, g);
    use(H);
  } catch (const std::runtime_error&) {
    c.ev("expressions-refused");
  }
  c.ev("end-effector");
}
void C11(Ctx& c) {
  switch (c.caseId % 6) {
    case 0: lives(c); break;
    case 1: bigPlans(c); break;
    case 2: bigZero(c); break;
    case 3: bigSolve(c); break;
    case 4: small(c); break;
    default: effector(c);
  }
  c.nontrivial(hashMix((uint64_t)c.caseId % 6, c.rng.s));
}
Reg r11("C11", C11, 3000, 60000);
}  // namespace
