// End-effector planner (C10): boundary state, clearance, limits, tracking.
#include <hpp/bezier-com-traj/solve_end_effector.hh>

#include "zgen.hpp"
using namespace gen;
using namespace mon;
using ora::AffPt;
using ora::Curve;

namespace {
struct MonPath {
  std::function<V3(double)> f;
  point3_t operator()(double u) const { return f(u); }
};
std::function<V3(double)> drawPath(Rng& r, const V3& a, const V3& b, std::string& name) {
  switch (r.below(5)) {
    case 0:
      name = "straight";
      return [a, b](double u) { return V3((1 - u) * a + u * b); };
    case 1: {
      name = "via";
      V3 m = 0.5 * (a + b) + vec(r, 0.4);
      double k = r.uni(0.2, 0.8);
      return [a, b, m, k](double u) { return u < k ? V3(a + (m - a) * (u / k)) : V3(m + (b - m) * ((u - k) / (1 - k))); };
    }
    case 2: {
      name = "wave";
      V3 w = vec(r, 0.3);
      double f = r.uni(0.5, 3);
      return [a, b, w, f](double u) { return V3((1 - u) * a + u * b + w * std::sin(6.283185307179586 * f * u)); };
    }
    case 3: {
      name = "below";  // asks for less height than allowed
      double h = r.uni(0.1, 1.);
      return [a, b, h](double u) { return V3((1 - u) * a + u * b - V3(0, 0, 4 * h * u * (1 - u))); };
    }
    default: {
      name = "elsewhere";
      V3 s = vec(r, 2.), d = vec(r, 1.);
      return [s, d](double u) { return V3(s + u * d); };
    }
  }
}
// quadratic form of sum of |L_k y + s_k - t_k|^2
void addSq(Quad& q, const AffPt& p, const V3& target, double w = 1) {
  Mat L = ora::coefMat(p);
  q.H += w * L.transpose() * L;
  q.g += w * L.transpose() * (p.s - target);
}
Quad zeroQuad(int n) {
  Quad q;
  q.H = Mat::Zero(n, n);
  q.g = Vec::Zero(n);
  return q;
}
Quad velocityCost(const Curve& k) {
  const Curve d = k.derivative();
  const int n = d.degree(), m = 3 * (int)k.P[0].a.size();
  Quad q = zeroQuad(m);
  for (int i = 0; i <= n; ++i)
    for (int j = 0; j <= n; ++j) {
      double b = k.T * ora::binom(n, i) * ora::binom(n, j) / ora::binom(2 * n, i + j) / (2 * n + 1);
      Mat L = ora::coefMat(d.P[i]);
      q.H += b * L.transpose() * ora::coefMat(d.P[j]);
      q.g += b * L.transpose() * d.P[j].s;
    }
  q.H = 0.5 * (q.H + q.H.transpose()).eval();
  return q;
}
void limitRows(ora::Rows& R, const Curve& d, const V3& bound) {
  for (auto& p : d.P) {
    Mat L = ora::coefMat(p);
    if (L.norm() == 0) continue;
    R.add(L, bound - p.s);
    R.add(-L, bound + p.s);
  }
}
void zRows(ora::Rows& R, const ProblemData& d, int nf) {
  for (int i = 0; i < nf; ++i) {
    Eigen::RowVectorXd e = Eigen::RowVectorXd::Zero(3 * nf);
    e[3 * i + 2] = -1;
    R.add(e, -std::min(d.c0_[2], d.c1_[2]));
  }
}
void proportional(Ctx& c, const std::string& what, const Mat& H, const Vec& g, const Quad& q, double tol) {
  if (H.rows() != q.H.rows() || H.cols() != q.H.cols() || g.size() != q.g.size()) {
    c.fail("shape:" + what, what + " has the wrong size");
    return;
  }
  double f = q.H.cwiseProduct(H).sum() / std::max(1e-300, H.squaredNorm());
  if (!(f > 0)) {
    c.fail(what, what + " is not a positive multiple of the cost");
    return;
  }
  c.le(what + "-H", (q.H - f * H).norm(), tol * q.H.norm(), what + ": quadratic part");
  c.le(what + "-g", (q.g - f * g).norm(), tol * (q.g.norm() + q.H.norm()), what + ": linear part");
  c.ev("compared:" + what);
}

void C10(Ctx& c) {
  Rng& r = c.rng;
  OptSet o = jerkSets()[r.below(3)];
  ProblemData d;
  d.constraints_ = Constraints(o.flag);
  const int nf = o.nfree;
  const double T = r.chance(0.05) ? r.uni(3, 12) : r.chance(0.1) ? r.uni(0.02, 0.2) : r.uni(0.2, 3.);
  d.c0_ = vec(r, 1);
  d.c1_ = d.c0_ + vec(r, 0.8);
  if (r.chance(0.15)) d.c1_.z() = d.c0_.z();
  if (r.chance(0.15)) d.c0_.setZero();
  if (r.chance(0.1)) d.c1_.setZero();
  if (r.chance(0.05)) d.c1_ = d.c0_;
  const bool rest = r.chance(0.4);
  const double e = rest ? 0 : 1;
  d.dc0_ = e * vec(r, 0.5 / T), d.dc1_ = e * vec(r, 0.5 / T);
  d.ddc0_ = e * vec(r, 1. / T / T), d.ddc1_ = e * vec(r, 1. / T / T);
  d.j0_ = e * vec(r, 3. / T / T / T), d.j1_ = e * vec(r, 3. / T / T / T);
  if (r.chance(0.08)) {  // nearly, but not quite zero
    const V3 v = vec(r, std::pow(10., r.uni(-7, -2)));
    V3* q[] = {&d.c0_, &d.c1_, &d.dc0_, &d.dc1_, &d.ddc0_, &d.ddc1_, &d.j0_, &d.j1_};
    *q[r.below(8)] = v;
  }
  double w = r.chance(0.25) ? 0 : r.chance(0.3) ? 1 : r.uni(0, 1);
  MonPath path;
  std::string pn;
  path.f = drawPath(r, d.c0_, d.c1_, pn);
  c.caseDesc = MON_STR(o.name << " T=" << T << " weight=" << w << " path=" << pn << " c0=" << d.c0_.transpose() << " c1=" << d.c1_.transpose() << (rest ? " at rest" : ""));
  Curve k = curveOf(d, o, T);
  // reference constraints and cost
  ora::Rows R(3 * nf);
  limitRows(R, k.derivative(1), V3::Constant(10000));
  limitRows(R, k.derivative(2), V3::Constant(10000));
  limitRows(R, k.derivative(3), V3::Constant(10000));
  zRows(R, d, nf);
  R.fit();
  Quad vel = velocityCost(k), dst = zeroQuad(3 * nf);
  for (int i = 0; i < 50; ++i) addSq(dst, k.at(T * i / 49.), path.f(i / 49.));
  Quad q = zeroQuad(3 * nf);
  q.H = (1 - w) / vel.H.norm() * vel.H + w / dst.H.norm() * dst.H;
  q.g = (1 - w) / vel.H.norm() * vel.g + w / dst.H.norm() * dst.g;
  const bool useVel = r.chance(0.5);
  ResultDataCOMTraj res = r.chance(0.9) ? solveEndEffector<MonPath>(d, path, T, w, useVel) : solveEndEffector<MonPath>(gen::Copied(d, r.chance(0.5)).pd, path, T, w, useVel);
  c.ev(std::string(res.success_ ? "success:" : "failure:") + o.name);
  if (!res.success_) {
    ora::Margin m = ora::bestMargin(R, 1e4);
    if (m.known && m.margin > 1e-4) c.fail("refused", MON_STR("no plan although one with margin " << m.margin << " exists, free points " << m.x.transpose()));
    return;
  }
  uint64_t h = hashD(hashD(hashD(hashStr(o.name + pn), T), w), d.c0_.x() + 3 * d.c1_.y() + 7 * d.dc0_.z());
  c.nontrivial(h);
  c.sample(c.caseDesc);
  c.ev("path:" + pn);
  const double t1 = res.c_of_t_.max();
  c.le("span", std::fabs(res.c_of_t_.min()) + std::fabs(t1 - T), 1e-9 * (1 + T), "curve not defined on [0,T]");
  if (res.x.size() != 3 * nf) {
    c.fail("solution-size", "wrong number of free coordinates");
    return;
  }
  const double size = 1 + res.x.norm() + d.c0_.norm() + d.c1_.norm();
  auto at = [&](const char* n, double t, int der, const V3& want) {
    V3 got = der ? V3(res.c_of_t_.derivate(t, der)) : V3(res.c_of_t_(t));
    c.le(n, (got - want).norm(), 1e-10 * size * std::pow(2. * o.deg / T, der), MON_STR(n << " got " << got.transpose() << " want " << want.transpose()));
  };
  at("init-pos", 0, 0, d.c0_), at("init-vel", 0, 1, d.dc0_), at("init-acc", 0, 2, d.ddc0_), at("init-jerk", 0, 3, d.j0_);
  at("end-pos", t1, 0, d.c1_), at("end-vel", t1, 1, d.dc1_), at("end-acc", t1, 2, d.ddc1_), at("end-jerk", t1, 3, d.j1_);
  for (int i = 0; i <= 8; ++i) at("family", std::min(t1, T * i / 8), 0, ora::apply(k.at(T * i / 8), res.x));
  const double zmin = std::min(d.c0_.z(), d.c1_.z());
  int low = 0;
  for (int i = 0; i < nf; ++i) {
    c.le("clearance", zmin - res.x[3 * i + 2], 1e-7 * size, MON_STR("free point " << i << " below both ends"));
    low += res.x[3 * i + 2] < zmin + 1e-6;
  }
  c.ev(low ? "clearance-active" : "clearance-inactive");
  double worst = 0;
  for (int i = 0; i < R.n; ++i) worst = std::max(worst, (R.A.row(i).dot(res.x) - R.b[i]) / (1 + R.A.row(i).norm() + std::fabs(R.b[i])));
  c.le("limits", worst, 1e-8 * size, "velocity, acceleration or jerk control point over its limit");
  Better b = improve(q, R, res.x);
  double f = 0.5 * res.x.dot(q.H * res.x) + q.g.dot(res.x);
  c.le("optimality", b.gain, 1e-8 * size * size, MON_STR("a motion of the family costs less: " << b.x.transpose() << " instead of " << res.x.transpose() << " at " << f));
  // when no constraint is active the minimiser is known
  Vec xo = -q.H.ldlt().solve(q.g);
  bool inside = true;
  for (int i = 0; i < R.n && inside; ++i) inside = R.b[i] - R.A.row(i).dot(xo) > 1e-6 * (1 + R.A.row(i).norm());
  if (inside) {
    c.ev("unconstrained");
    Eigen::SelfAdjointEigenSolver<Mat> es(q.H);  // the velocity cost has decimal coefficients
    const double cond = es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff();
    c.le("minimiser", (xo - res.x).norm(), 1e-6 * (100 + cond) * size, MON_STR("returned " << res.x.transpose() << " instead of the minimiser " << xo.transpose()));
  } else
    c.ev("constrained");
  if (c.caseFailed) return;
  // the pieces the planner, and the Python module, are made of
  std::vector<point_t> pi = computeConstantWaypoints(d, T);
  if (r.chance(0.3)) {
    int np = r.range(2, 60);
    std::vector<point3_t> pts;
    Quad s = zeroQuad(3 * nf);
    bool well = np > nf + 8;
    for (int i = 0; i < np; ++i) {
      pts.push_back(vec(r, 2));
      addSq(s, k.at(T * i / (np - 1.)), pts.back());
    }
    if (well) {
      std::pair<MatrixXX, VectorX> hg = computeDistanceCostFunction((size_t)np, d, T, pts);
      proportional(c, "distance-cost", hg.first, hg.second, s, 1e-8);
    }
    std::pair<MatrixXX, VectorX> vc = computeVelocityCost(d, T, pi);
    proportional(c, "velocity-cost", vc.first, vc.second, vel, 1e-5);
    typedef void (*Fn)(int, const ProblemData&, double, MatrixXX&, VectorX&);
    const Fn fn[3] = {computeVelCostFunctionDiscretized, computeAccelerationCostFunctionDiscretized, computeJerkCostFunctionDiscretized};
    const char* nm[3] = {"sampled-velocity-cost", "sampled-acceleration-cost", "sampled-jerk-cost"};
    for (int j = 0; j < 3; ++j) {
      int n = r.range(nf + 10, 40);
      MatrixXX H;
      VectorX g;
      try {
        fn[j](n, d, T, H, g);
      } catch (const std::runtime_error&) {
        if (nf != 5) throw;
        c.ev(std::string("not-provided:") + nm[j]);
        continue;
      }
      Quad s = zeroQuad(3 * nf);
      Curve kd = k.derivative(j + 1);
      for (int i = 0; i < n; ++i) addSq(s, kd.at(T * i / (n - 1.)), V3::Zero());
      proportional(c, nm[j], H, g, s, 1e-8);
    }
    // limits as a system of inequalities: same side at random points
    V3 ba = vec(r, 1).cwiseAbs() * 20 + V3::Constant(1), bv = vec(r, 1).cwiseAbs() * 5 + V3::Constant(.5), bj = vec(r, 1).cwiseAbs() * 200 + V3::Constant(5);
    MatrixXX A;
    VectorX bb;
    ora::Rows L(3 * nf);
    auto cmp = [&](const std::string& what) {
      if (A.cols() != 3 * nf || A.rows() != bb.size()) {
        c.fail("shape:" + what, "constraint matrix of the wrong size");
        return;
      }
      for (int t = 0; t < 12; ++t) {
        Vec x(3 * nf);
        for (int i = 0; i < 3 * nf; ++i) x[i] = d.c0_[i % 3] + (d.c1_ - d.c0_)[i % 3] * r.uni() + r.gauss() * (t < 6 ? 0.05 : 0.5) + (i % 3 == 2 && t % 2 ? 0.3 : 0);
        double u = -1e300, v = -1e300;
        for (int i = 0; i < L.n; ++i) u = std::max(u, (L.A.row(i).dot(x) - L.b[i]) / (1e-9 + L.A.row(i).norm()));
        for (int i = 0; i < A.rows(); ++i)
          if (A.row(i).norm() > 1e-9 || bb[i] < 0) v = std::max(v, (A.row(i).dot(x) - bb[i]) / (1e-9 + A.row(i).norm()));
        if (std::fabs(u) < 1e-7 * (1 + x.norm())) continue;
        c.ev(u < 0 ? "points-inside" : "points-outside");
        if ((u < 0) != (v < 0)) {
          c.fail(what, MON_STR("a motion " << (u < 0 ? "within" : "beyond") << " the limits is " << (v < 0 ? "admitted" : "refused") << " by the constraint matrix"));
          return;
        }
      }
    };
    bool withJerk = r.chance(0.6);
    limitRows(L, k.derivative(1), bv);
    limitRows(L, k.derivative(2), ba);
    if (withJerk) limitRows(L, k.derivative(3), bj);
    zRows(L, d, nf);
    L.fit();
    std::vector<waypoint_t> wv = computeVelocityWaypoints(d, T, pi), wa = computeAccelerationWaypoints(d, T, pi), wj;
    if (withJerk) wj = computeJerkWaypoints(d, T, pi);
    if (withJerk) computeConstraintsMatrix(d, wa, wv, VectorX(ba), VectorX(bv), A, bb, wj, VectorX(bj));
    else computeConstraintsMatrix(d, wa, wv, VectorX(ba), VectorX(bv), A, bb);
    cmp("limit-matrix");
    std::pair<MatrixXX, VectorX> ab = computeEndEffectorConstraints(d, T, pi);
    A = ab.first, bb = ab.second, L = R;
    cmp("end-effector-constraints");
    // predefined starts and ends of a motion: zero jerk where it joins
    std::vector<point_t> pa = computeConstantWaypointsInitPredef(d, T), pb = computeConstantWaypointsGoalPredef(d, T);
    if (pa.size() != 5 || pb.size() != 5) {
      c.fail("predef-size", "predefined curves do not have five points");
      return;
    }
    bezier_t ca(pa.begin(), pa.end(), 0, T), cb(pb.begin(), pb.end(), 0, T);
    auto pd = [&](const char* n, const bezier_t& b, double t, int der, const V3& want) {
      V3 got = der ? V3(b.derivate(t, der)) : V3(b(t));
      c.le(std::string("predef-") + n, (got - want).norm(), 1e-10 * size * std::pow(8. / T, der), MON_STR("predefined curve, " << n << " got " << got.transpose() << " want " << want.transpose()));
    };
    pd("init", ca, 0, 0, d.c0_), pd("init-vel", ca, 0, 1, d.dc0_), pd("init-acc", ca, 0, 2, d.ddc0_), pd("init-jerk", ca, 0, 3, V3::Zero()), pd("init-end", ca, ca.max(), 0, d.c1_);
    pd("goal", cb, cb.max(), 0, d.c1_), pd("goal-vel", cb, cb.max(), 1, d.dc1_), pd("goal-acc", cb, cb.max(), 2, d.ddc1_), pd("goal-jerk", cb, cb.max(), 3, V3::Zero()), pd("goal-start", cb, 0, 0, d.c0_);
    c.ev("predefined-curves");
  }
}
Reg r10("C10", C10, 6000, 150000);
}  // namespace
