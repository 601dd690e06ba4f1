// Symbolic expressions against the Hermite curve they stand for (C09).
#include "gen.hpp"
using namespace gen;
using namespace mon;
using ora::AffPt;
using ora::Curve;

namespace {
struct E {
  Ctx& c;
  ProblemData pd;
  centroidal_dynamics::Equilibrium eq;
  OptSet o;
  double T = 1;
  Vec x;
  double size = 1;  // magnitude of the data
  E(Ctx& c) : c(c), eq("mon", 50, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false) {}
  void cmp(const std::string& what, const V3& got, const V3& want, int der, double tol = 1e-8) {
    double s = size * std::pow(o.deg / T, der) * std::pow(2., der) * (o.deg > 8 ? 30 : 1);
    c.le(what + ":" + o.name, (got - want).norm(), tol * s, MON_STR(what << " of " << o.name << " gives " << got.transpose() << " instead of " << want.transpose()));
    c.ev("compared:" + what);
  }
  // the five-point set lacks some expressions and says so by throwing
  template <class F>
  bool provided(F f, const std::string& what) {
    if (o.nfree != 5) {
      f();
      return true;
    }
    try {
      f();
    } catch (const std::runtime_error&) {
      c.ev("not-provided:" + what);
      return false;
    }
    return true;
  }
  V3 ap(const waypoint_t& w, const std::string& what) {
    if (w.first.rows() != 3 || w.first.cols() != x.size() || w.second.size() != 3) {
      c.fail("shape:" + what, MON_STR(what << " of " << o.name << " has the wrong size"));
      return V3::Zero();
    }
    return V3(w.first * x + w.second);
  }
};
V3 spice(Rng& r, double s) {
  int k = r.below(8);
  if (k == 0) return V3::Zero();
  V3 v = vec(r, s);
  if (k == 1) v[r.below(3)] = 0;
  if (k == 3 && r.chance(0.4)) v *= std::pow(10., r.uni(-7, -2));
  if (k == 2) {
    V3 u = V3::Zero();
    int i = r.below(3);
    u[i] = v[i];
    v = u;
  }
  return v;
}
// de Casteljau over symbolic control points
waypoint_t evalBez(std::vector<waypoint_t> q, double u) {
  for (size_t k = q.size() - 1; k > 0; --k)
    for (size_t i = 0; i < k; ++i) {
      q[i].first = (1 - u) * q[i].first + u * q[i + 1].first;
      q[i].second = (1 - u) * q[i].second + u * q[i + 1].second;
    }
  return q[0];
}

void C09(Ctx& c) {
  E e(c);
  Rng& r = c.rng;
  const int nCom = (int)optSets().size();
  const bool jerk = r.chance(0.4);
  e.o = jerk ? jerkSets()[r.below(3)] : optSets()[r.below(nCom)];
  const bool com = !jerk || e.o.deg == 8;     // has scalar expressions and a wrench
  const bool jset = jerk || e.o.deg == 8;     // has waypoint expressions
  ProblemData& d = e.pd;
  e.T = r.chance(0.2) ? 1. : std::exp(r.uni(std::log(0.2), std::log(4.)));
  d.constraints_ = Constraints(e.o.flag);
  d.c0_ = spice(r, 2), d.c1_ = spice(r, 2);
  d.dc0_ = spice(r, 1), d.dc1_ = e.o.stop ? V3::Zero().eval() : spice(r, 1);
  d.ddc0_ = spice(r, 3), d.ddc1_ = spice(r, 3);
  d.j0_ = spice(r, 8), d.j1_ = spice(r, 8);
  int deg = e.o.deg;
  if (r.chance(0.2)) {  // a control point exactly at the origin
    if (r.chance(0.5)) d.dc0_ = -d.c0_ * deg / e.T;
    else if (!e.o.stop) d.dc1_ = d.c1_ * deg / e.T;
  }
  if (r.chance(0.15)) d.c1_ = d.c0_;
  d.contacts_.reserve(1);
  d.contacts_.emplace_back(&e.eq);
  const V3 g = e.eq.m_gravity;
  const int nf = e.o.nfree;
  Curve k = curveOf(d, e.o, e.T);
  auto drawX = [&] {
    e.x = Vec(3 * nf);
    for (int i = 0; i < 3 * nf; ++i) e.x[i] = r.uni(-2, 2);
    if (r.chance(0.1)) e.x.setZero();
    if (r.chance(0.1)) e.x.head(3) = d.c0_;
    e.size = 1 + e.x.norm();
    for (auto& p : k.P) e.size += p.s.norm();
  };
  c.caseDesc = MON_STR(e.o.name << " T=" << e.T << " c0=" << d.c0_.transpose() << " dc0=" << d.dc0_.transpose() << " ddc0=" << d.ddc0_.transpose() << " c1=" << d.c1_.transpose() << " dc1=" << d.dc1_.transpose());
  c.nontrivial(hashD(hashD(hashStr(e.o.name), e.T), d.c0_.x() + 3 * d.c1_.y() + 7 * d.dc0_.z()));
  c.sample(c.caseDesc);
  c.ev(std::string("set:") + e.o.name);
  // number of unknowns
  if (dimVar(d) != 3 * nf) c.fail("dimVar", MON_STR("dimVar is " << dimVar(d)));
  // constant control points
  std::vector<point_t> pi = computeConstantWaypoints(d, e.T);
  bezier_wp_t::t_point_t sy = computeConstantWaypointsSymbolic(d, e.T);
  if (pi.size() != k.P.size() || sy.size() != k.P.size()) {
    c.fail("count", MON_STR("number of control points: " << pi.size() << ", " << sy.size() << ", expected " << k.P.size()));
    return;
  }
  drawX();
  for (size_t i = 0; i < pi.size(); ++i) {
    if (k.P[i].a.norm() == 0) e.cmp("constant-waypoint", pi[i], k.P[i].s, 0);
    e.cmp("symbolic-waypoint", e.ap(sy[i], "symbolic-waypoint"), ora::apply(k.P[i], e.x), 0);
  }
  if (c.caseFailed) return;
  std::vector<waypoint_t> W;
  if (com) {
    for (auto& w : computeWwaypoints(d, e.T)) W.push_back(w);
    if (W.empty() || W[0].first.rows() != 6 || W[0].first.cols() != 3) {
      c.fail("shape:wrench", "wrench control points have the wrong size");
      return;
    }
  }
  const double ts[] = {0., 1., 0.5, r.uni(), r.uni(), r.uni(0, 0.1), r.uni(0.9, 1)};
  Curve k1 = k.derivative(1), k2 = k.derivative(2), k3 = k.derivative(3);
  const bool three = k.degree() >= 3;
  for (double u : ts) {
    drawX();
    const double t = u * e.T;
    V3 c0 = ora::apply(k.at(t), e.x), v0 = ora::apply(k1.at(t), e.x), a0 = ora::apply(k2.at(t), e.x), j0 = three ? ora::apply(k3.at(t), e.x) : V3::Zero();
    if (com) {
      coefs_t q = evaluateCurveAtTime(d, pi, u);
      e.cmp("curve-coefs", q.first * V3(e.x) + q.second, c0, 0);
      q = evaluateAccelerationCurveAtTime(d, pi, e.T, u);
      e.cmp("acceleration-coefs", q.first * V3(e.x) + q.second, a0, 2);
      waypoint_t w = evalBez(W, u);
      Vec got = w.first * e.x + w.second, want(6);
      want << a0, c0.cross(a0) + g.cross(c0);
      double s = e.size * std::pow(deg / e.T, 2) * 4;
      c.le(std::string("wrench-linear:") + e.o.name, (got.head(3) - want.head(3)).norm(), 1e-8 * s, MON_STR("linear part of the wrench curve of " << e.o.name << " at " << u));
      c.le(std::string("wrench-angular:") + e.o.name, (got.tail(3) - want.tail(3)).norm(), 1e-8 * (s * e.size + 10 * e.size), MON_STR("angular part of the wrench curve of " << e.o.name << " at " << u));
      c.ev("compared:wrench");
    }
    if (jset) {
      e.cmp("curve-at", e.ap(evaluateCurveWaypointAtTime(d, pi, u), "curve-at"), c0, 0);
      typedef waypoint_t (*At)(const ProblemData&, const double, const std::vector<point_t>&, double);
      const At at[3] = {[](const ProblemData& d, const double T, const std::vector<point_t>& p, double u) { return evaluateVelocityCurveWaypointAtTime(d, T, p, u); },
                        [](const ProblemData& d, const double T, const std::vector<point_t>& p, double u) { return evaluateAccelerationCurveWaypointAtTime(d, T, p, u); },
                        [](const ProblemData& d, const double T, const std::vector<point_t>& p, double u) { return evaluateJerkCurveWaypointAtTime(d, T, p, u); }};
      const char* an[3] = {"velocity-at", "acceleration-at", "jerk-at"};
      const V3 want[3] = {v0, a0, j0};
      for (int i = 0; i < 3; ++i) {
        waypoint_t w;
        if (!e.provided([&] { w = at[i](d, e.T, pi, u); }, an[i])) continue;
        e.cmp(an[i], e.ap(w, an[i]), want[i], i + 1);
      }
    }
    if (c.caseFailed) return;
  }
  if (com && e.o.deg != 8) {
    coefs_t q = computeFinalVelocityPoint(d, e.T);
    e.cmp("final-velocity", q.first * V3(e.x) + q.second, ora::apply(k1.at(e.T), e.x), 1);
  }
  if (!jset) return;
  typedef std::vector<waypoint_t> (*Fn)(const ProblemData&, const double, std::vector<bezier_t::point_t>);
  const Fn fn[3] = {computeVelocityWaypoints, computeAccelerationWaypoints, computeJerkWaypoints};
  const char* nm[3] = {"velocity-waypoint", "acceleration-waypoint", "jerk-waypoint"};
  for (int i = 0; i < 3; ++i) {
    Curve dk = k.derivative(i + 1);
    for (int given = 0; given < 2; ++given) {
      std::vector<waypoint_t> w;
      if (!e.provided([&] { w = fn[i](d, e.T, given ? pi : std::vector<bezier_t::point_t>()); }, nm[i])) continue;
      if (w.size() != dk.P.size()) {
        c.fail(std::string("count:") + nm[i], MON_STR(nm[i] << ": " << w.size() << " control points instead of " << dk.P.size()));
        continue;
      }
      for (size_t j = 0; j < w.size(); ++j) e.cmp(nm[i], e.ap(w[j], nm[i]), ora::apply(dk.P[j], e.x), i + 1);
    }
  }
  // velocity cost: x'Hx/2 + g'x proportional to the integral of |c'|^2
  std::pair<MatrixXX, VectorX> vc;
  const bool given = r.chance(0.5);
  if (!e.provided([&] { vc = computeVelocityCost(d, e.T, given ? pi : std::vector<bezier_t::point_t>()); }, "velocity-cost")) return;
  int n1 = k1.degree(), m = 3 * nf;
  Mat Q = Mat::Zero(m, m);
  Vec q = Vec::Zero(m);
  double qs = 0;
  for (int i = 0; i <= n1; ++i)
    for (int j = 0; j <= n1; ++j) {
      double b = e.T * ora::binom(n1, i) * ora::binom(n1, j) / ora::binom(2 * n1, i + j) / (2 * n1 + 1);
      Q += b * ora::coefMat(k1.P[i]).transpose() * ora::coefMat(k1.P[j]);
      Vec a = b * ora::coefMat(k1.P[i]).transpose() * k1.P[j].s;
      q += a;
      qs += a.norm();
    }
  // the cost is only meaningful up to a positive factor
  if (vc.first.rows() != m || vc.second.size() != m) {
    c.fail("shape:velocity-cost", "velocity cost has the wrong size");
    return;
  }
  double f = (Q.cwiseProduct(vc.first)).sum() / vc.first.squaredNorm();
  c.le(std::string("velocity-cost-H:") + e.o.name, (Q - f * vc.first).norm(), 1e-5 * Q.norm(), MON_STR("quadratic part of the velocity cost of " << e.o.name));
  c.le(std::string("velocity-cost-g:") + e.o.name, (q - f * vc.second).norm(), 1e-5 * (qs + 1e-6 * Q.norm()), MON_STR("linear part of the velocity cost of " << e.o.name));
  c.ev("compared:velocity-cost");
}
Reg r09("C09", C09, 40000, 1000000);
}  // namespace
