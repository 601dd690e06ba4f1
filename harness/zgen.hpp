// Zero-step (capturability) problems and their reference constraints.
#pragma once
#include "gen.hpp"
namespace gen {
struct ZPlan {
  Scene sc;
  ProblemData pd;
  double T = 1, dt = -1;
  int steps() const { return dt > 0 ? (int)(T / dt) : 0; }
  bool sampled() const { return steps() > 0; }
  int dim() const { return pd.useAngularMomentum_ ? 6 : 3; }
  std::string desc() const {
    std::ostringstream o;
    o.precision(6);
    o << "zero-step T=" << T << " dt=" << dt << " ang=" << pd.useAngularMomentum_ << " c0=" << pd.c0_.transpose() << " dc0=" << pd.dc0_.transpose() << " l0=" << pd.l0_.transpose()
      << " kin=" << pd.contacts_[0].kin_.size() << " anglim=" << pd.contacts_[0].ang_.size();
    return o.str();
  }
  uint64_t hash() const {
    uint64_t x = mon::hashD(mon::hashD(17, T), dt);
    for (int i = 0; i < 3; ++i) x = mon::hashD(mon::hashD(mon::hashD(x, pd.c0_[i]), pd.dc0_[i]), pd.l0_[i]);
    return mon::hashMix(x, dim());
  }
  ResultDataCOMTraj solve() const {
    const int k = hash() % 10;
    if (k < 2) return solve0step(Copied(pd, k).pd, std::vector<double>(1, T), dt);
    return solve0step(pd, std::vector<double>(1, T), dt);
  }
};
struct ZOpts {
  int ang = -1, sampled = -1;
  double effort = 1;
};
inline void bindZ(ZPlan& z) {
  Mat Ang = Mat(0, 3);
  Vec ang = Vec(0);
  if (!z.pd.contacts_.empty() && z.pd.contacts_[0].ang_.size()) Ang = z.pd.contacts_[0].Ang_, ang = z.pd.contacts_[0].ang_;
  bindContacts(z.pd, z.sc);
  z.pd.contacts_[0].Ang_ = Ang;
  z.pd.contacts_[0].ang_ = ang;
}
inline bool makeZ(Rng& r, ZPlan& z, const ZOpts& zo) {
  SceneOpts so;
  so.phases = 1;
  so.tilt = 0.35;
  so.maxFeet = 2;
  so.bigKin = r.chance(0.02);
  so.rare = 0.03;
  z.sc = makeScene(r, so);
  ProblemData& d = z.pd;
  z.T = r.chance(0.2) ? r.uni(1.5, 3.) : r.uni(0.2, 1.4);
  if (r.chance(0.04)) z.T = r.chance(0.5) ? r.uni(0.03, 0.2) : r.uni(3, 10);
  const V3 n = z.sc.ph[0].nominal;
  double e = zo.effort;
  d.c0_ = n + vec(r, 0.07 * e);
  d.dc0_ = r.chance(0.1) ? V3::Zero().eval() : vec(r, (r.chance(0.5) ? 0.25 : 0.7) * e);
  if (r.chance(0.5)) d.dc0_.z() *= 0.2;
  d.useAngularMomentum_ = zo.ang < 0 ? r.chance(0.5) : zo.ang;
  d.l0_ = r.chance(0.3) ? V3::Zero().eval() : vec(r, 8 * e);
  d.dc1_.setZero();
  d.c1_.setZero();
  bool smp = zo.sampled < 0 ? r.chance(0.5) : zo.sampled;
  z.dt = -1;
  if (smp) z.dt = r.chance(0.15) ? z.T / r.range(1, 12) : r.chance(0.05) ? z.T / std::exp(r.uni(3, 6.2)) : z.T / r.uni(1.02, 25.);
  else if (r.chance(0.15)) z.dt = r.chance(0.5) ? 0. : z.T * r.uni(1.01, 3.);  // not a sampling request: continuous
  if (r.chance(0.3)) {
    V3 s = r.chance(0.5) ? V3(-d.c0_) : vec(r, 3.);
    translate(z.sc, s);
    bool o = (d.c0_ + s).norm() < 1e-12;
    d.c0_ += s;
    if (o) d.c0_.setZero();
  }
  if (r.chance(0.06)) {  // nearly, but not quite zero
    const V3 v = vec(r, std::pow(10., r.uni(-7, -2)));
    const int w = r.below(3);
    if (w == 0) translate(z.sc, v - d.c0_), d.c0_ = v;
    if (w == 1) d.dc0_ = v;
    if (w == 2) d.l0_ = v;
  }
  if (r.chance(0.5)) {  // tight goal region, away from the initial position
    PhaseDesc& p = z.sc.ph[0];
    if (p.K.rows() && r.chance(0.5)) {
      V3 dir = unit(r);
      int m = (int)p.K.rows();
      p.K.conservativeResize(m + 1, 3);
      p.k.conservativeResize(m + 1);
      double s = std::exp(r.uni(-1, 1));
      p.K.row(m) = s * dir.transpose();
      p.k[m] = s * (dir.dot(d.c0_) + r.uni(-0.06, 0.05));
    }
  }
  if (!z.sc.build()) return false;
  bindContacts(d, z.sc);
  if (r.chance(0.5)) {
    int m = r.chance(0.5) ? 6 : r.range(1, 5);
    Mat A(m, 3);
    Vec a(m);
    for (int i = 0; i < m; ++i) {
      V3 u = V3::Zero();
      if (m == 6) u[i / 2] = i % 2 ? -1 : 1;
      else u = unit(r);
      double s = std::exp(r.uni(-1, 1));
      A.row(i) = s * u.transpose();
      a[i] = s * r.uni(m == 6 ? 0.1 : -1., 6.);
    }
    d.contacts_[0].Ang_ = A;
    d.contacts_[0].ang_ = a;
  }
  return true;
}
// dL(t) = L'(t), L with control points l0, xL, 0, 0; returns (coef, const)
inline ora::AffPt angRate(const ZPlan& z, double t) {
  ora::Curve L;
  L.T = z.T;
  Vec o = Vec::Ones(1), n = Vec::Zero(1);
  L.P = {{n, z.pd.l0_}, {o, V3::Zero()}, {n, V3::Zero()}, {n, V3::Zero()}};
  return L.at(t, 1);
}
enum { ANG = 4 };
inline ora::Rows refRowsZ(const ZPlan& z) {
  const int n = z.dim();
  ora::Rows R(n);
  ora::Curve c = ora::stopCurve(z.pd.c0_, z.pd.dc0_, z.T), dd = c.derivative(2);
  const V3 g = z.sc.g();
  const Mat& H = z.sc.Hn[0];
  const double m = z.sc.mass;
  auto full = [&](double t) {  // 6 x (n+1): required wrench / mass
    ora::AffW w = ora::wrench(c, dd, g, t);
    Mat q = Mat::Zero(6, n + 1);
    q.leftCols(3) = w.A;
    q.col(n) = w.b;
    q.col(n).head(3) -= g;
    if (n == 6) {
      ora::AffPt l = angRate(z, t);
      q.block(3, 3, 3, 3) = l.a[0] / m * Mat::Identity(3, 3);
      q.col(n).tail(3) += l.s / m;
    }
    return q;
  };
  std::vector<Mat> pts;
  if (z.sampled())
    for (int i = 0; i <= z.steps(); ++i) pts.push_back(full(z.T * i / z.steps()));
  else
    pts = ora::bernstein(4, 0, z.T, full);
  for (auto& q : pts) R.group(H * q.leftCols(n), -(H * q.col(n)), STAB);
  const auto& cd = z.pd.contacts_[0];
  for (int i = 0; i < cd.kin_.size(); ++i) {
    Eigen::RowVectorXd e = Eigen::RowVectorXd::Zero(n);
    e.head(3) = cd.Kin_.row(i);
    ++R.g;
    R.add(e, cd.kin_[i], KIN);
  }
  if (n == 6)
    for (int i = 0; i < cd.ang_.size(); ++i) {
      Eigen::RowVectorXd e = Eigen::RowVectorXd::Zero(n);
      e.tail(3) = cd.Ang_.row(i);
      ++R.g;
      R.add(e, cd.ang_[i], ANG);
    }
  R.fit();
  return R;
}
// 0.5 x'Hx + g'x: distance to c0, traded with the integral of |dL|^2
inline Quad refCostZ(const ZPlan& z) {
  Quad q;
  int n = z.dim();
  q.H = Mat::Zero(n, n);
  q.g = Vec::Zero(n);
  double w = n == 6 ? 1e-4 : 1.;
  q.H.topLeftCorner(3, 3) = w * Mat::Identity(3, 3);
  q.g.head(3) = -w * z.pd.c0_;
  if (n == 6) {
    // integral over the unit interval of |3(xL-l0)(1-u)^2 - 6 xL u(1-u)|^2, by
    // exact Gauss quadrature of the quartic; the documented cost is half of it
    const double gx[3] = {0.5 - std::sqrt(0.15), 0.5, 0.5 + std::sqrt(0.15)}, gw[3] = {5. / 18, 8. / 18, 5. / 18};
    double hh = 0, gg = 0;
    for (int k = 0; k < 3; ++k) {
      double u = gx[k], a = 3 * (1 - u) * (1 - u) - 6 * u * (1 - u), b = -3 * (1 - u) * (1 - u);
      hh += gw[k] * a * a;
      gg += gw[k] * a * b;
    }
    q.H.bottomRightCorner(3, 3) = hh * Mat::Identity(3, 3);
    q.g.tail(3) = gg * z.pd.l0_;
  }
  return q;
}
inline bool nextZ(Ctx& c, ZPlan& z, const ZOpts& zo) {
  for (int k = 0; k < 6; ++k) {
    z = ZPlan();
    if (makeZ(c.rng, z, zo)) {
      c.caseDesc = z.desc();
      return true;
    }
    c.ev("scene-refused-by-cone-library");
  }
  return false;
}
inline bool nextPlan(Ctx& c, Plan& p, const PlanOpts& po) {
  for (int k = 0; k < 6; ++k) {
    p = Plan();
    if (makePlan(c.rng, p, po)) {
      c.caseDesc = p.desc();
      return true;
    }
    c.ev("scene-refused-by-cone-library");
  }
  return false;
}
// Largest verified improvement of 0.5x'Hx+g'x over x0 within R x <= b.
struct Better {
  double gain = 0, residual = 0;
  Vec x;
};
inline Better improve(const Quad& q, const ora::Rows& R, const Vec& x0) {
  Better best;
  best.x = x0;
  // in coordinates z = sqrt(H) x, where the descent direction is well scaled
  Eigen::SelfAdjointEigenSolver<Mat> es(q.H);
  Mat Si = es.eigenvectors() * es.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
  auto f = [&](const Vec& x) { return 0.5 * x.dot(q.H * x) + q.g.dot(x); };
  const double f0 = f(x0);
  Vec x = x0;
  for (int outer = 0; outer < 6; ++outer) {
    double before = best.gain;
    for (double del : {1e-8, 1e-6, 1e-4, 1e-2}) {
      std::vector<int> act;
      for (int i = 0; i < R.n; ++i) {
        double n = R.A.row(i).norm();
        if (n > 1e-12 && (R.b[i] - R.A.row(i).dot(x)) / n < del) act.push_back(i);
      }
      Vec y = -Si * (q.H * x + q.g), res = y;
      if (!act.empty()) {
        Mat G(x.size(), act.size());
        for (size_t k = 0; k < act.size(); ++k) G.col(k) = (Si * R.A.row(act[k]).transpose()).normalized();
        Vec z;
        ora::nnls(G, y, &z);
        res = y - G * z;
      }
      if (outer == 0 && del == 1e-6) best.residual = res.norm();
      if (res.norm() < 1e-14) continue;
      Vec d = Si * res;
      double st = 1;  // exact minimiser along d since H becomes the identity
      for (int i = 0; i < R.n; ++i) {
        double n = R.A.row(i).norm();
        if (n < 1e-12) continue;
        double ad = R.A.row(i).dot(d) / n, sl = (R.b[i] - R.A.row(i).dot(x)) / n;
        if (ad > 1e-13 * d.norm()) st = std::min(st, std::max(0., sl) / ad);
      }
      Vec t = x + st * d;
      double gain = f0 - f(t);
      if (gain > best.gain) best.gain = gain, best.x = t;
    }
    if (best.gain <= before) break;
    x = best.x;
  }
  return best;
}
}  // namespace gen
