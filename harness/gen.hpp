// Generators: contact scenes, planning problems, and the reference constraint
// systems built from them with oracle.hpp.
#pragma once
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <memory>

#include "oracle.hpp"

namespace gen {
using namespace bezier_com_traj;
using ora::Mat;
using ora::V3;
using ora::Vec;
using mon::Ctx;
using mon::Rng;

struct OptSet {
  const char* name;
  ConstraintFlag flag;
  int n0, n1, deg, nfree;
  bool stop;
};
inline ConstraintFlag F(int v) { return static_cast<ConstraintFlag>(v); }
inline const std::vector<OptSet>& optSets() {
  static const std::vector<OptSet> v = {
      {"c0_dc0_c1", F(INIT_POS | INIT_VEL | END_POS), 2, 1, 3, 1, false},
      {"c0_dc0_dc1", F(INIT_POS | INIT_VEL | END_VEL), 2, 0, 3, 1, true},
      {"c0_dc0_dc1_c1", F(INIT_POS | INIT_VEL | END_VEL | END_POS), 2, 2, 4, 1, false},
      {"c0_dc0_ddc0", F(INIT_POS | INIT_VEL | INIT_ACC), 3, 0, 3, 1, false},
      {"c0_dc0_ddc0_c1", F(INIT_POS | INIT_VEL | INIT_ACC | END_POS), 3, 1, 4, 1, false},
      {"c0_dc0_ddc0_dc1_c1", F(INIT_POS | INIT_VEL | INIT_ACC | END_VEL | END_POS), 3, 2, 5, 1, false},
      {"c0_dc0_ddc0_ddc1_dc1_c1", F(INIT_POS | INIT_VEL | INIT_ACC | END_ACC | END_VEL | END_POS), 3, 3, 6, 1, false},
      {"c0_dc0_ddc0_j0_j1_ddc1_dc1_c1", F(INIT_POS | INIT_VEL | INIT_ACC | END_ACC | END_VEL | END_POS | INIT_JERK | END_JERK), 4, 4, 8, 1, false},
  };
  return v;
}
inline const std::vector<OptSet>& jerkSets() {
  const int all = INIT_POS | INIT_VEL | INIT_ACC | END_ACC | END_VEL | END_POS | INIT_JERK | END_JERK;
  static const std::vector<OptSet> v = {
      {"j0_j1", F(all), 4, 4, 8, 1, false},
      {"j0_x3_j1", F(all | THREE_FREE_VAR), 4, 4, 10, 3, false},
      {"j0_x5_j1", F(all | FIVE_FREE_VAR), 4, 4, 12, 5, false},
  };
  return v;
}

inline V3 vec(Rng& r, double s) { return V3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
inline V3 unit(Rng& r) {
  V3 v;
  do v = V3(r.gauss(), r.gauss(), r.gauss());
  while (v.norm() < 1e-3);
  return v.normalized();
}

// The real curve of a problem, as the oracle sees it.
inline ora::Curve curveOf(const ProblemData& p, const OptSet& o, double T) {
  if (o.stop) return ora::stopCurve(p.c0_, p.dc0_, T);
  std::vector<V3> i{p.c0_, p.dc0_, p.ddc0_, p.j0_}, f{p.c1_, p.dc1_, p.ddc1_, p.j1_};
  i.resize(o.n0);
  f.resize(o.n1);
  return ora::hermite(i, f, o.deg, T);
}

struct PhaseDesc {
  Mat pts, nrm;  // N x 3
  double mu = 0.5;
  Mat K;  // kin rows
  Vec k;
  V3 nominal;
};

struct Scene {
  std::vector<PhaseDesc> ph;
  double mass = 50;
  std::vector<std::unique_ptr<centroidal_dynamics::Equilibrium>> eq;
  std::vector<Mat> Hn;  // unit rows: Hn (w - [g;0]) <= h
  std::vector<Vec> h;
  V3 g() const { return eq[0]->m_gravity; }
  // contact polytopes from the contacts; false when the cone library refuses
  bool build() {
    eq.clear();
    Hn.clear();
    h.clear();
    for (auto& p : ph) {
      eq.emplace_back(new centroidal_dynamics::Equilibrium("mon", mass, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false));
      centroidal_dynamics::MatrixX3 P = p.pts, N = p.nrm;
      if (!eq.back()->setNewContacts(P, N, p.mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP)) return false;
      centroidal_dynamics::MatrixXX Hr;
      centroidal_dynamics::VectorX hr;
      if (eq.back()->getPolytopeInequalities(Hr, hr) != centroidal_dynamics::LP_STATUS_OPTIMAL) return false;
      if (Hr.rows() == 0 || !Hr.allFinite() || !hr.allFinite() || hr.cwiseAbs().maxCoeff() > 1e-9) return false;
      Mat H = -Mat(Hr);
      for (int i = 0; i < H.rows(); ++i) {
        if (H.row(i).norm() < 1e-9) return false;
        H.row(i).normalize();
      }
      // the cone library is outside the scope: keep only faces its own
      // generators confirm
      Mat W = -Mat(eq.back()->m_G_centr);  // wrenches the contacts can produce
      double worst = -1e9;
      for (int i = 0; i < H.rows(); ++i)
        for (int j = 0; j < W.cols(); ++j) worst = std::max(worst, H.row(i).dot(W.col(j)) / W.col(j).norm());
      // generators of m_G_centr are the negatives: accept whichever sign
      if (worst > 1e-4) return false;
      Hn.push_back(H);
      h.push_back(hr);
    }
    return true;
  }
};

inline Mat rot(const V3& axis, double ang) { return Eigen::AngleAxisd(ang, axis.normalized()).toRotationMatrix(); }

// A rectangular foot (4 contact points) at `c` with normal n.
inline void addFoot(PhaseDesc& p, const V3& c, const V3& n, double yaw, double lx, double ly, int npts) {
  V3 z = n.normalized();
  V3 x = V3(std::cos(yaw), std::sin(yaw), 0);
  if (std::fabs(x.dot(z)) > 0.95) x = V3(0, 0, 1);
  x = (x - x.dot(z) * z).normalized();
  V3 y = z.cross(x);
  int m = (int)p.pts.rows();
  p.pts.conservativeResize(m + npts, 3);
  p.nrm.conservativeResize(m + npts, 3);
  const double sx[4] = {1, 1, -1, -1}, sy[4] = {1, -1, -1, 1};
  for (int i = 0; i < npts; ++i) {
    p.pts.row(m + i) = (c + sx[i] * lx * x + sy[i] * ly * y).transpose();
    p.nrm.row(m + i) = z.transpose();
  }
}

// Kinematic polytope around a nominal position.  Row scales vary on purpose.
inline void addKin(PhaseDesc& p, Rng& r, const V3& nom, double half, int extra, bool scaled) {
  int n = 6 + extra;
  p.K = Mat::Zero(n, 3);
  p.k = Vec::Zero(n);
  for (int i = 0; i < 6; ++i) {
    V3 d = V3::Zero();
    d[i / 2] = i % 2 ? -1 : 1;
    p.K.row(i) = d.transpose();
    p.k[i] = d.dot(nom) + half * r.uni(0.6, 1.2);
  }
  for (int i = 6; i < n; ++i) {
    V3 d = unit(r);
    double room = half * r.uni(0.4, 1.1);
    if (r.chance(0.25)) {  // parallel or opposite to an earlier row, tighter or looser
      d = (r.chance(0.7) ? 1. : -1.) * p.K.row(r.chance(0.6) ? i - 1 : r.below(i)).transpose();
      if (r.chance(0.15)) room = half * r.uni(0.02, 0.3);
    }
    p.K.row(i) = d.transpose();
    p.k[i] = d.dot(nom) + room;
    if (r.chance(0.02)) {  // a row that says nothing
      p.K.row(i).setZero();
      p.k[i] = r.chance(0.5) ? 0. : r.uni(0, 2);
    }
  }
  if (scaled)
    for (int i = 0; i < n; ++i) {
      double s = std::exp(r.uni(-1.5, 1.5));
      p.K.row(i) *= s;
      p.k[i] *= s;
    }
}

struct SceneOpts {
  int phases = 1;
  double tilt = 0.3;
  bool allowNoKin = true;
  int maxFeet = 2;
  bool bigKin = false;  // a polytope of many rows in one phase
  double rare = 0;      // chance of an unusual mass, friction, or a hand contact
};

// A walking-like sequence: feet placed along x, phases drop/add a foot.
inline Scene makeScene(Rng& r, const SceneOpts& so) {
  Scene s;
  s.mass = r.uni(15, 95);
  double mu = r.uni(0.3, 0.9);
  if (r.chance(so.rare)) s.mass = std::exp(r.uni(std::log(0.3), std::log(900.)));
  if (r.chance(so.rare)) mu = std::exp(r.uni(std::log(0.12), std::log(2.)));
  const bool hand = so.maxFeet > 1 && r.chance(so.rare);
  const V3 wall = V3(r.uni(-0.3, 0.3), r.chance(0.5) ? 1 : -1, r.uni(-0.2, 0.4)).normalized();
  double width = r.uni(0.08, 0.14), step = r.uni(0.1, 0.35);
  struct Foot {
    V3 c, n;
    double yaw, lx, ly;
    int npts;
  };
  auto mkFoot = [&](double x, double y) {
    Foot f;
    f.c = V3(x, y, r.chance(0.4) ? 0. : r.uni(-0.1, 0.15));
    f.n = V3(0, 0, 1);
    if (r.chance(so.tilt)) f.n = (V3(0, 0, 1) + vec(r, 0.35)).normalized();
    f.yaw = r.uni(-0.3, 0.3);
    f.lx = r.uni(0.06, 0.13);
    f.ly = r.uni(0.04, 0.08);
    f.npts = r.chance(0.12) ? 3 : 4;
    return f;
  };
  std::vector<Foot> feet;  // currently in contact
  double x = 0;
  int side = 1;
  feet.push_back(mkFoot(0, width));
  if (so.maxFeet > 1 && r.chance(0.75)) feet.push_back(mkFoot(0, -width));
  bool noKin = so.allowNoKin && r.chance(0.12);
  for (int i = 0; i < so.phases; ++i) {
    if (i > 0) {
      if (feet.size() >= 2 && (r.chance(0.6) || (int)feet.size() >= so.maxFeet)) {
        feet.erase(feet.begin());
      } else if (r.chance(0.12)) {  // instantaneous swap: same size, other foot
        x += step * 0.4;
        side = -side;
        feet.back() = mkFoot(x, side * width * 0.5);
      } else {
        x += step;
        side = -side;
        feet.push_back(mkFoot(x, side * width));
      }
    }
    PhaseDesc p;
    p.mu = mu;
    p.pts.resize(0, 3);
    p.nrm.resize(0, 3);
    V3 mean = V3::Zero();
    for (auto& f : feet) {
      addFoot(p, f.c, f.n, f.yaw, f.lx, f.ly, f.npts);
      mean += f.c;
    }
    mean /= feet.size();
    if (hand && r.chance(0.6)) addFoot(p, mean + V3(0, 0, r.uni(0.7, 1.2)) - 0.5 * wall, wall, 0, 0.04, 0.03, r.chance(0.5) ? 1 : 3);
    p.nominal = mean + V3(0, 0, r.uni(0.6, 0.95));
    if (noKin || (so.allowNoKin && r.chance(0.05))) {
      p.K = Mat::Zero(0, 3);
      p.k = Vec::Zero(0);
    } else
      addKin(p, r, p.nominal, r.uni(0.2, 0.5), so.bigKin && r.chance(0.6) ? r.range(20, 150) : r.below(6), r.chance(0.5));
    s.ph.push_back(p);
  }
  return s;
}

inline void translate(Scene& s, const V3& d) {
  for (auto& p : s.ph) {
    p.pts.rowwise() += d.transpose();
    p.k += p.K * d;
    p.nominal += d;
  }
}

enum Mode { FIXED, STEP, CONT, CONT_FORCE };
inline const char* modeName(int m) {
  static const char* n[] = {"fixed", "step", "cont", "force"};
  return n[m];
}

struct Plan {
  Scene sc;
  ProblemData pd;
  OptSet opt = optSets()[2];
  Vec Ts;
  Mode mode = FIXED;
  int ppp = 3;
  double dt = -1;
  solvers::SolverType solver = solvers::SOLVER_QUADPROG;
  double T() const { return Ts.sum(); }
  std::string desc() const {
    std::ostringstream o;
    o.precision(5);
    o << opt.name << " " << modeName(mode) << " phases=" << Ts.size() << " Ts=" << Ts.transpose() << " solver=" << (solver == solvers::SOLVER_QUADPROG ? "qp" : "lp")
      << " cost=" << (int)pd.costFunction_ << " ppp=" << ppp << " dt=" << dt << " c0=" << pd.c0_.transpose() << " c1=" << pd.c1_.transpose();
    return o.str();
  }
  uint64_t hash() const {
    uint64_t x = mon::hashStr(opt.name) + mode;
    for (int i = 0; i < Ts.size(); ++i) x = mon::hashD(x, Ts[i]);
    for (int i = 0; i < 3; ++i) x = mon::hashD(mon::hashD(x, pd.c0_[i]), pd.c1_[i]);
    return x;
  }
};

// fills contacts_ from the scene (the Equilibrium objects stay owned by it)
inline void bindContacts(ProblemData& pd, Scene& sc) {
  pd.contacts_.clear();
  pd.contacts_.reserve(sc.ph.size());
  for (size_t i = 0; i < sc.ph.size(); ++i) {
    pd.contacts_.emplace_back(sc.eq[i].get());
    pd.contacts_.back().Kin_ = sc.ph[i].K;
    pd.contacts_.back().kin_ = sc.ph[i].k;
  }
}

// A copy of problem data is the same problem: the monitors solve some requests
// through a copy. The wrench descriptions which the copy created go with it.
struct Copied {
  ProblemData pd;
  const ProblemData& of;
  Copied(const ProblemData& o, bool assigned) : pd(assigned ? ProblemData() : o), of(o) {
    if (!assigned) return;
    pd.c0_ = V3(9, 9, 9), pd.dc0_ = V3(1, 2, 3), pd.constraints_.maxAcceleration_ = 0.5, pd.constraints_.reduce_h_ = 3;
    pd = o;
  }
  ~Copied() {
    for (size_t i = 0; i < pd.contacts_.size(); ++i)
      if (i < of.contacts_.size() && pd.contacts_[i].contactPhase_ != of.contacts_[i].contactPhase_) delete pd.contacts_[i].contactPhase_;
  }
};

inline ResultDataCOMTraj run(const Plan& p, const ProblemData& pd) {
  if (p.mode == FIXED) return computeCOMTrajFixedSize(pd, p.Ts, p.ppp);
  if (p.mode == STEP) return computeCOMTraj(pd, p.Ts, p.dt, p.solver);
  return computeCOMTraj(pd, p.Ts, -1, p.solver);
}
inline ResultDataCOMTraj run(const Plan& p) {
  const int k = p.hash() % 10;
  if (k < 2) return run(p, Copied(p.pd, k).pd);
  return run(p, p.pd);
}

struct PlanOpts {
  int maxPhases = 3;
  int mode = -1;      // -1 any
  int opt = -1;       // -1 any
  bool origin = true; // sometimes move a boundary position to the origin
  double effort = 1;  // scales boundary velocities/accelerations
  bool qpOnly = true;
  bool allowNoKin = true;
  bool allCosts = true;
  bool rare = true;  // now and then many phases, many rows, uneven durations, dense sampling
};

inline bool makePlan(Rng& r, Plan& p, const PlanOpts& po) {
  p.opt = po.opt >= 0 ? optSets()[po.opt] : optSets()[r.below((int)optSets().size())];
  p.mode = (Mode)(po.mode >= 0 ? po.mode : r.below(3));
  SceneOpts so;
  so.phases = r.range(1, po.maxPhases);
  if (po.rare && po.maxPhases > 2 && p.mode != CONT_FORCE && r.chance(0.02)) so.phases = r.range(po.maxPhases + 1, 9);
  so.allowNoKin = po.allowNoKin;
  so.bigKin = po.rare && r.chance(0.02);
  so.rare = po.rare ? 0.03 : 0;
  if (p.mode == CONT_FORCE) so.tilt = 0.2;
  p.sc = makeScene(r, so);
  p.Ts.resize(so.phases);
  for (int i = 0; i < so.phases; ++i) p.Ts[i] = r.uni(0.25, 1.1);
  const bool uneven = po.rare && r.chance(0.06);  // short next to long phases
  if (uneven)
    for (int i = 0; i < so.phases; ++i) p.Ts[i] = std::exp(r.uni(std::log(0.06), std::log(3.)));
  double T = p.Ts.sum();
  ProblemData& d = p.pd;
  const V3 n0 = p.sc.ph.front().nominal, n1 = p.sc.ph.back().nominal;
  double e = po.effort * (r.chance(0.15) ? 3. : 1.);
  d.c0_ = n0 + vec(r, 0.05 * e);
  if (p.opt.stop) {
    d.c1_ = n1 + vec(r, 0.05 * e);
    d.dc0_ = vec(r, 0.35 * e);
    d.dc1_.setZero();
  } else {
    d.c1_ = n1 + vec(r, 0.05 * e);
    V3 mean = (d.c1_ - d.c0_) / T;
    d.dc0_ = (r.chance(0.3) ? V3::Zero().eval() : (0.7 * mean + vec(r, 0.12 * e)).eval());
    d.dc1_ = (r.chance(0.3) ? V3::Zero().eval() : (0.7 * mean + vec(r, 0.12 * e)).eval());
  }
  d.ddc0_ = r.chance(0.3) ? V3::Zero().eval() : vec(r, 0.4 * e);
  d.ddc1_ = r.chance(0.3) ? V3::Zero().eval() : vec(r, 0.4 * e);
  d.j0_ = vec(r, 2);
  d.j1_ = vec(r, 2);
  d.l0_ = V3::Zero();
  if (po.origin && r.chance(0.35)) {
    // put a position, or the first interior control point, exactly at the origin
    int w = r.below(5);
    V3 s = -d.c0_;
    if (w == 1) s = -d.c1_;
    if (w == 3) s = vec(r, 3.);
    translate(p.sc, s);
    d.c0_ += s;
    d.c1_ += s;
    if (w == 0) d.c0_.setZero();
    if (w == 1) d.c1_.setZero();
    if (w == 2) {  // second control point at the origin as well as c0
      d.c0_.setZero();
      d.dc0_.setZero();
    }
    if (w == 4) d.c0_[r.below(3)] = 0;
  }
  if (po.origin && r.chance(0.08)) {  // nearly, but not quite zero
    const double m = std::pow(10., r.uni(-7, -2));
    switch (r.below(6)) {
      case 0: case 1: {
        const bool first = r.chance(0.5);
        const V3 v = vec(r, m), s = v - (first ? d.c0_ : d.c1_);
        translate(p.sc, s);
        d.c0_ += s, d.c1_ += s;
        (first ? d.c0_ : d.c1_) = v;
        break;
      }
      case 2: d.dc0_ = vec(r, m); break;
      case 3: if (!p.opt.stop) d.dc1_ = vec(r, m); break;
      case 4: d.ddc0_ = vec(r, m); break;
      default: d.ddc1_ = vec(r, m);
    }
  }
  d.constraints_ = Constraints(p.opt.flag);
  d.constraints_.reduce_h_ = r.chance(0.3) ? 0. : r.chance(0.5) ? 1e-3 : r.uni(0.001, 0.08);
  d.constraints_.constraintAcceleration_ = r.chance(0.35);
  d.constraints_.maxAcceleration_ = r.chance(0.5) ? 10. : r.uni(0.8, 6.);
  d.representation_ = p.mode == CONT_FORCE ? FORCE : DOUBLE_DESCRIPTION;
  int nc = po.allCosts ? r.below(3) : r.below(2);
  d.costFunction_ = nc == 0 ? ACCELERATION : nc == 1 ? DISTANCE_TRAVELED : TARGET_END_VELOCITY;
  if (d.costFunction_ == TARGET_END_VELOCITY && (p.opt.flag & END_VEL)) d.costFunction_ = r.chance(0.5) ? ACCELERATION : DISTANCE_TRAVELED;
  p.ppp = r.range(1, 9);
  double mn = p.Ts.minCoeff();
  p.dt = r.chance(0.3) && mn > 0.1 ? 0.05 : mn / r.uni(2.05, 9.);
  if (po.rare && r.chance(0.02)) p.ppp = r.range(10, r.chance(0.15) ? 150 : 40), p.dt = mn / r.uni(9., 40.);
  if (po.rare && r.chance(0.04)) d.constraints_.maxAcceleration_ = std::exp(r.uni(std::log(0.05), std::log(200.)));
  if (p.Ts.sum() / p.dt > 300) p.dt = std::min(mn / 2.05, p.Ts.sum() / 300);
  p.solver = solvers::SOLVER_QUADPROG;
  if (!po.qpOnly && p.mode != FIXED && r.chance(0.4)) p.solver = solvers::SOLVER_GLPK;
  if (!p.sc.build()) return false;
  bindContacts(d, p.sc);
  return true;
}

// ---- the instants at which the sampled formulations impose constraints
struct Instant {
  double t;
  int phase;
};
// (constraint instants incl. both phases at switches; cost/acceleration samples)
inline void instants(const Plan& p, std::vector<Instant>& con, std::vector<double>& samples) {
  con.clear();
  samples.clear();
  double start = 0, T = p.T();
  int n = (int)p.Ts.size();
  if (p.mode == STEP) {
    double end = 0;
    for (int i = 0; i < n; ++i) {
      double t = end;
      end += p.Ts[i];
      for (; t < end; t += p.dt) {
        con.push_back({t, i});
        samples.push_back(t);
      }
      con.push_back({end, i});
      samples.push_back(end);
    }
    return;
  }
  int k = p.mode == FIXED ? p.ppp : 7;
  samples.push_back(0);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j <= k; ++j) {
      double t = start + p.Ts[i] * j / k;
      if (i == n - 1 && j == k) t = T;
      con.push_back({t, i});
      if (j > 0) samples.push_back(t);
    }
    start += p.Ts[i];
  }
}

enum Tag { STAB = 1, KIN = 2, ACC = 3 };

// reference constraint rows on the free point x (tag = Tag)
inline ora::Rows refRows(const Plan& p, double reduceH, bool withAcc) {
  ora::Rows R(3);
  const double T = p.T();
  ora::Curve c = curveOf(p.pd, p.opt, T), dd = c.derivative(2);
  const V3 g = p.sc.g();
  Vec g6 = Vec::Zero(6);
  g6.head(3) = g;
  auto stab = [&](int ph, const Mat& wA, const Vec& wb) {
    const Mat& H = p.sc.Hn[ph];
    Vec rhs = p.sc.h[ph] - H * (wb - g6);
    rhs.array() -= reduceH;
    R.group(H * wA, rhs, STAB);
  };
  if (p.mode == FIXED || p.mode == STEP) {
    std::vector<Instant> con;
    std::vector<double> smp;
    instants(p, con, smp);
    for (auto& k : con) {
      ora::AffW w = ora::wrench(c, dd, g, k.t);
      stab(k.phase, w.A, w.b);
      const PhaseDesc& ph = p.sc.ph[k.phase];
      ora::AffPt q = c.at(k.t);
      if (ph.K.rows()) R.group(q.a[0] * ph.K, ph.k - ph.K * q.s, KIN);
    }
    if (withAcc)
      for (double t : smp) {
        ora::AffPt q = dd.at(t);
        ++R.g;
        for (int i = 0; i < 3; ++i) {
          Eigen::RowVectorXd e = Eigen::RowVectorXd::Zero(3);
          e[i] = q.a[0];
          R.add(e, p.pd.constraints_.maxAcceleration_ - q.s[i], ACC);
          R.add(-e, p.pd.constraints_.maxAcceleration_ + q.s[i], ACC);
        }
      }
    R.fit();
    return R;
  }
  // continuous: conditions on the control points of each phase's piece
  int wdeg = p.opt.stop ? 4 : p.opt.deg == 8 ? 14 : 2 * p.opt.deg - 3;  // as the library represents the wrench curve
  double t0 = 0;
  for (int i = 0; i < p.Ts.size(); ++i) {
    double t1 = t0 + p.Ts[i];
    auto packC = [&](const ora::AffPt& q) {
      Mat m(3, 2);
      m.col(0).setConstant(q.a[0]);
      m.col(1) = q.s;
      return m;
    };
    const PhaseDesc& ph = p.sc.ph[i];
    for (auto& m : ora::bernstein(c.degree(), t0, t1, [&](double t) { return packC(c.at(t)); }))
      if (ph.K.rows()) R.group(m(0, 0) * ph.K, ph.k - ph.K * m.col(1), KIN);
    for (auto& m : ora::bernstein(wdeg, t0, t1, [&](double t) {
           ora::AffW w = ora::wrench(c, dd, g, t);
           Mat q(6, 4);
           q.leftCols(3) = w.A;
           q.col(3) = w.b;
           return q;
         }))
      stab(i, m.leftCols(3), m.col(3));
    if (withAcc)
      for (auto& m : ora::bernstein(dd.degree(), t0, t1, [&](double t) { return packC(dd.at(t)); }))
        for (int j = 0; j < 3; ++j) {
          if (j == 0) ++R.g;
          Eigen::RowVectorXd e = Eigen::RowVectorXd::Zero(3);
          e[j] = m(0, 0);
          R.add(e, p.pd.constraints_.maxAcceleration_ - m(j, 1), ACC);
          R.add(-e, p.pd.constraints_.maxAcceleration_ + m(j, 1), ACC);
        }
    t0 = t1;
  }
  R.fit();
  return R;
}
inline bool refAcc(const Plan& p) { return p.mode >= CONT || p.pd.constraints_.constraintAcceleration_; }
inline double refReduce(const Plan& p) { return p.mode == CONT_FORCE ? 0. : std::max(0., p.pd.constraints_.reduce_h_); }

// reference cost 0.5 x'Hx + g'x + const
struct Quad {
  Mat H = Mat::Zero(3, 3);
  Vec g = Vec::Zero(3);
};
inline Quad refCost(const Plan& p) {
  Quad q;
  const double T = p.T();
  ora::Curve c = curveOf(p.pd, p.opt, T);
  if (p.pd.costFunction_ == ACCELERATION) {
    std::vector<Instant> con;
    std::vector<double> smp;
    instants(p, con, smp);
    ora::Curve dd = c.derivative(2);
    for (double t : smp) {
      ora::AffPt a = dd.at(t);
      q.H += a.a[0] * a.a[0] * Mat::Identity(3, 3);
      q.g += a.a[0] * a.s;
    }
  } else if (p.pd.costFunction_ == DISTANCE_TRAVELED) {
    q.H = Mat::Identity(3, 3);
    q.g = -0.5 * (p.pd.c0_ + p.pd.c1_);
  } else {
    ora::AffPt v = c.derivative(1).at(T);
    q.H = v.a[0] * v.a[0] * Mat::Identity(3, 3);
    q.g = v.a[0] * (v.s - p.pd.dc1_);
  }
  return q;
}

inline double viol(const ora::Rows& R, const Vec& x, int tag, double* tolRatio = nullptr) {
  double w = 0;
  for (int i = 0; i < R.n; ++i)
    if (tag == 0 || R.tag[i] == tag) {
      double v = R.A.row(i).dot(x) - R.b[i];
      w = std::max(w, v / (1 + R.A.row(i).norm()));
    }
  if (tolRatio) *tolRatio = w;
  return w;
}
}  // namespace gen
