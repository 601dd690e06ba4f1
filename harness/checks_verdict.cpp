// Verdict (C05), optimality (C06), invariance (C17) and agreement of
// formulations (C18) of the planner and of the zero-step query.
#include "zgen.hpp"
using namespace gen;
using namespace mon;
using ora::Rows;

// A problem of either kind behind one face.
struct Prob {
  bool zero = false;
  Plan p;
  ZPlan z;
  Rows rows() const { return zero ? refRowsZ(z) : refRows(p, refReduce(p), refAcc(p)); }
  ResultDataCOMTraj solve() const { return zero ? z.solve() : run(p); }
  Quad cost() const { return zero ? refCostZ(z) : refCost(p); }
  std::string desc() const { return zero ? z.desc() : p.desc(); }
  uint64_t hash() const { return zero ? z.hash() : p.hash(); }
  std::string kind() const { return zero ? std::string("zero") + (z.sampled() ? "-sampled" : "-cont") + (z.dim() == 6 ? "-ang" : "") : std::string(modeName(p.mode)) + (p.solver == solvers::SOLVER_GLPK ? "-lp" : "-qp"); }
  Scene& scene() { return zero ? z.sc : p.sc; }
  ProblemData& pd() { return zero ? z.pd : p.pd; }
  void rebind() {
    if (zero) bindZ(z);
    else bindContacts(p.pd, p.sc);
  }
};
// makes an equivalent problem with its own contact objects
static bool clone(Prob& q, Prob& o) {
  o.zero = q.zero;
  o.p.opt = q.p.opt, o.p.Ts = q.p.Ts, o.p.mode = q.p.mode, o.p.ppp = q.p.ppp, o.p.dt = q.p.dt, o.p.solver = q.p.solver;
  o.z.T = q.z.T, o.z.dt = q.z.dt;
  o.scene().ph = q.scene().ph;
  o.scene().mass = q.scene().mass;
  ProblemData &a = q.pd(), &b = o.pd();
  b.c0_ = a.c0_, b.c1_ = a.c1_, b.dc0_ = a.dc0_, b.dc1_ = a.dc1_, b.ddc0_ = a.ddc0_, b.ddc1_ = a.ddc1_, b.j0_ = a.j0_, b.j1_ = a.j1_, b.l0_ = a.l0_;
  b.useAngularMomentum_ = a.useAngularMomentum_;
  b.constraints_ = a.constraints_;
  b.representation_ = a.representation_;
  b.costFunction_ = a.costFunction_;
  return true;
}
static bool finish(Prob& q, Prob& o) {
  if (!o.scene().build()) return false;
  bindContacts(o.pd(), o.scene());
  if (o.zero && q.z.pd.contacts_[0].ang_.size()) {
    o.z.pd.contacts_[0].Ang_ = q.z.pd.contacts_[0].Ang_;
    o.z.pd.contacts_[0].ang_ = q.z.pd.contacts_[0].ang_;
  }
  return true;
}

static bool draw(Ctx& c, Prob& q, double zeroShare, PlanOpts po, double effort) {
  q.zero = c.rng.chance(zeroShare);
  po.effort = effort;
  if (q.zero) {
    ZOpts zo;
    zo.effort = effort;
    return nextZ(c, q.z, zo);
  }
  return nextPlan(c, q.p, po);
}

// the LP back end minimises the linear part of the cost only
static bool unbounded(const Prob& q) {
  Rows R = q.rows();
  ora::LpResult l = ora::lp(q.cost().g, R.A, R.b, Vec(), Vec());
  return l.status != 1 || l.x.cwiseAbs().maxCoeff() > 1e4;
}
// ---------------------------------------------------------------- C05
// One scalar of the problem that can be turned from feasible to infeasible.
struct Knob {
  std::string name;
  double lo, hi;
  std::function<void(double)> set;
};
static Knob pickKnob(Ctx& c, Prob& q) {
  Rng& r = c.rng;
  Knob k;
  ProblemData& d = q.pd();
  for (;;) {
    int w = r.below(6);
    if (w == 0) {  // an extra kinematic row in one phase
      int i = r.below((int)q.scene().ph.size());
      PhaseDesc& ph = q.scene().ph[i];
      V3 u = unit(r);
      int np = (int)q.scene().ph.size();
      if (np > 1 && r.chance(0.5)) {  // along the motion: binding where the phase starts or ends
        V3 v = i + 1 < np && (i == 0 || r.chance(0.7)) ? (q.scene().ph[i + 1].nominal - ph.nominal).eval() : (ph.nominal - q.scene().ph[i - 1].nominal).eval();
        if (v.norm() > 1e-3) u = (v.normalized() + vec(r, 0.3)).normalized() * (r.chance(0.7) ? 1 : -1);
      }
      int m = (int)ph.K.rows();
      ph.K.conservativeResize(m + 1, 3);
      ph.k.conservativeResize(m + 1);
      ph.K.row(m) = u.transpose();
      double base = u.dot(ph.nominal);
      ph.k[m] = base + 0.5;
      k.name = "kinematic-row";
      k.lo = base - 1.5, k.hi = base + 0.8;
      int ii = i, mm = m;
      k.set = [&q, ii, mm](double v) {
        q.scene().ph[ii].k[mm] = v;
        q.rebind();
      };
      return k;
    }
    if (w == 1 && !q.zero) {
      k.name = "safety-margin";
      k.lo = 3, k.hi = 0;
      k.set = [&d](double v) { d.constraints_.reduce_h_ = v; };
      return k;
    }
    if (w == 2 && !q.zero) {
      k.name = "max-acceleration";
      k.lo = 0.02, k.hi = 12;
      d.constraints_.constraintAcceleration_ = true;
      k.set = [&d](double v) { d.constraints_.maxAcceleration_ = v; };
      return k;
    }
    if (w == 3) {
      V3 v0 = d.dc0_, u = vec(r, 2.);
      k.name = "initial-velocity";
      k.lo = 1.5, k.hi = 0;
      k.set = [&d, v0, u](double v) { d.dc0_ = v0 + v * u; };
      return k;
    }
    if (w == 4 && !q.zero) {
      V3 a0 = d.ddc0_, a1 = d.ddc1_, p1 = d.c1_, u = vec(r, 6.), v = vec(r, 6.), s = vec(r, 1.);
      k.name = "final-state";
      k.lo = 1.5, k.hi = 0;
      k.set = [=, &d](double t) {
        d.ddc0_ = a0 + t * u;
        d.ddc1_ = a1 + t * v;
        d.c1_ = p1 + t * s;
      };
      return k;
    }
    if (w == 5 && q.zero && q.z.dim() == 6) {
      if (r.chance(0.5) && q.z.pd.contacts_[0].ang_.size()) {
        int j = r.below((int)q.z.pd.contacts_[0].ang_.size());
        double n = q.z.pd.contacts_[0].Ang_.row(j).norm();
        k.name = "angular-row";
        k.lo = -40 * n, k.hi = 40 * n;
        k.set = [&q, j](double v) { q.z.pd.contacts_[0].ang_[j] = v; };
      } else {
        V3 l = d.l0_, u = vec(r, 100.);
        k.name = "angular-momentum";
        k.lo = 1.5, k.hi = 0;
        k.set = [&d, l, u](double v) { d.l0_ = l + v * u; };
      }
      return k;
    }
  }
}
static int compareVerdict(Ctx& c, const Prob& q, const ora::Margin& m, double thr, const char* what) {
  if (!m.known || std::fabs(m.margin) < thr) {
    c.ev("skipped-near-boundary");
    return -1;
  }
  ResultDataCOMTraj r = q.solve();
  bool feas = m.margin > 0;
  c.ev(std::string(feas ? "feasible:" : "infeasible:") + what + ":" + q.kind());
  if (feas && !r.success_ && !q.zero && q.p.solver == solvers::SOLVER_GLPK && unbounded(q)) {
    c.ev("skipped-unbounded-lp");
    return -1;
  }
  if (r.success_ != feas) c.fail(feas ? "false-negative" : "false-positive", MON_STR("reference margin " << m.margin << " but success=" << r.success_ << " (" << what << ", " << q.kind() << ")"));
  return r.success_;
}
// Rows the library must not impose although they look alike: the rows of a
// neighbouring phase, accelerations between the samples.
static void foreignRows(Ctx& c, const Prob& q, Rows& F, std::string& what) {
  const Plan& p = q.p;
  Rng& r = c.rng;
  ora::Curve k = curveOf(p.pd, p.opt, p.T()), dd = k.derivative(2);
  const V3 g = p.sc.g();
  std::vector<Instant> con;
  std::vector<double> smp;
  instants(p, con, smp);
  int kind = r.below(4);
  if (kind == 3) {
    what = "acceleration-off-samples";
    int i = r.below((int)smp.size() - 1);
    ora::AffPt a = dd.at(0.5 * (smp[i] + smp[i + 1]));
    for (int j = 0; j < 3; ++j)
      for (int s = -1; s < 2; s += 2) {
        Eigen::RowVectorXd e = Eigen::RowVectorXd::Zero(3);
        e[j] = s * a.a[0];
        F.add(e, p.pd.constraints_.maxAcceleration_ - s * a.s[j], ACC);
      }
    return;
  }
  if (p.Ts.size() < 2) return;
  // an instant strictly inside a phase, judged with the rows of a neighbour
  std::vector<size_t> in;
  for (size_t i = 0; i < con.size(); ++i) {
    double a = 0, b = 0;
    for (int j = 0; j <= con[i].phase; ++j) a = b, b += p.Ts[j];
    if (con[i].t > a + 1e-9 && con[i].t < b - 1e-9) in.push_back(i);
    else if ((con[i].phase == 0 && con[i].t < 1e-9) || (con[i].phase == p.Ts.size() - 1 && con[i].t > p.T() - 1e-9)) in.push_back(i);
  }
  if (in.empty()) return;
  const Instant& I = con[in[r.below((int)in.size())]];
  int o = I.phase == 0 ? 1 : I.phase == p.Ts.size() - 1 ? I.phase - 1 : I.phase + (r.chance(0.5) ? 1 : -1);
  ora::AffPt pt = k.at(I.t);
  const PhaseDesc& ph = p.sc.ph[o];
  if (kind < 2) {
    what = "kinematics-of-neighbour";
    if (ph.K.rows()) F.add(pt.a[0] * ph.K, ph.k - ph.K * pt.s, KIN);
  } else {
    what = "stability-of-neighbour";
    ora::AffW w = ora::wrench(k, dd, g, I.t);
    Vec g6 = Vec::Zero(6);
    g6.head(3) = g;
    const Mat& H = p.sc.Hn[o];
    F.add(H * w.A, p.sc.h[o] - H * (w.b - g6), STAB);
  }
}
// Problems in which one group of rows (one instant or control point of one
// kind), or one row, decides alone; and problems that a group of rows that
// must not be imposed would make infeasible.
static void C05group(Ctx& c) {
  Prob q;
  PlanOpts po;
  po.mode = c.rng.below(3);
  po.qpOnly = false;
  po.maxPhases = 4;
  po.allowNoKin = false;
  Rng& r = c.rng;
  if (!draw(c, q, 0.25, po, r.chance(0.7) ? 0.5 : 1)) return;
  const double thr = !q.zero && q.p.solver == solvers::SOLVER_GLPK ? 1e-4 : 1e-5;
  bool any = false;
  for (int tries = 0; tries < 4; ++tries) {
    Knob k = pickKnob(c, q);
    auto rowsAt = [&](double v) {
      k.set(v);
      return q.rows();
    };
    Rows Rl = rowsAt(k.lo), R = rowsAt(k.hi);
    if (Rl.n != R.n || (Rl.A - R.A).norm() > 1e-9 * (1 + R.A.norm())) continue;
    Vec db = (Rl.b - R.b) / (k.lo - k.hi);
    R.b -= k.hi * db;  // now b + t db
    ora::Extreme e = extreme(R, db, k.hi, k.lo);
    if (!e.known) {
      k.set(k.hi);
      break;  // not feasible to begin with
    }
    // (a) leave one deciding group out
    if (!e.active.empty() && e.t != k.lo) {
      int row = e.active[r.below((int)e.active.size())];
      bool single = r.chance(0.3);
      ora::Extreme w = extreme(R, db, k.hi, k.lo, single ? -1 : R.grp[row], single ? row : -1);
      double f = r.uni(0.3, 0.7);
      if (w.known && std::fabs(w.t - e.t) > 1e-6) {
        double lim = e.t + (w.t - e.t) * std::min(f, 0.2 * std::fabs(k.hi - k.lo) / std::fabs(w.t - e.t));
        k.set(lim);
        c.caseDesc = q.desc() + MON_STR(" " << k.name << "=" << lim << " decided by one " << (single ? "row" : "group") << " of kind " << R.tag[row]);
        Rows full = q.rows();
        ora::Margin m = ora::bestMargin(full);
        if (m.known && m.margin < -3 * thr) {
          int v = compareVerdict(c, q, m, thr, "one-group");
          if (v >= 0) any = true;
          int last = *std::max_element(R.grp.begin(), R.grp.end());
          c.ev(MON_STR("decided-by:" << (single ? "row:" : "group:") << R.tag[row] << ":third-" << std::min(2, 3 * R.grp[row] / (last + 1))));
        }
      }
    }
    if (c.caseFailed) return;
    // (b) a group that must not count
    if (!q.zero && q.p.mode != CONT) {
      std::string what;
      Rows F(3);
      k.set(k.hi);
      int seed = (int)(r.next() >> 33);
      auto foreign = [&](double v) {
        k.set(v);
        Rng keep = c.rng;
        c.rng = Rng(seed);
        Rows f(3);
        foreignRows(c, q, f, what);
        c.rng = keep;
        f.fit();
        return f;
      };
      Rows fh = foreign(k.hi), fl = foreign(k.lo);
      if (fh.n && fh.n == fl.n) {
        Rows U = R;
        Vec du(R.n + fh.n);
        du << db, (fl.b - fh.b) / (k.lo - k.hi);
        U.g = 1 << 20;
        for (int i = 0; i < fh.n; ++i) U.add(Eigen::RowVectorXd(fh.A.row(i)), fh.b[i] - k.hi * du[R.n + i], fh.tag[i]);
        U.fit();
        ora::Extreme w = extreme(U, du, k.hi, k.lo);
        double stop = w.known ? w.t : k.hi;
        if (std::fabs(stop - e.t) > 1e-6) {
          double t = e.t + (stop - e.t) * r.uni(0.2, 0.7);
          k.set(t);
          c.caseDesc = q.desc() + MON_STR(" " << k.name << "=" << t << " feasible only without " << what);
          ora::Margin m = ora::bestMargin(q.rows());
          if (m.known && m.margin > 3 * thr) {
            if (compareVerdict(c, q, m, thr, "foreign-group") >= 0) any = true;
            c.ev("without:" + what);
          }
        }
      }
      if (c.caseFailed) return;
    }
    k.set(k.hi);
  }
  if (any) {
    c.nontrivial(q.hash());
    c.sample(c.caseDesc);
  }
}
static void C05(Ctx& c) {
  if (c.rng.chance(0.4)) return C05group(c);
  Prob q;
  PlanOpts po;
  po.mode = c.rng.below(3);
  po.qpOnly = false;
  po.maxPhases = 3;
  const bool force = c.rng.chance(0.04);
  if (force) po.mode = CONT_FORCE, po.maxPhases = 2, po.allowNoKin = false;
  if (!draw(c, q, force ? 0 : 0.35, po, c.rng.chance(0.7) ? 0.5 : 1)) return;
  if (force) q.p.solver = solvers::SOLVER_GLPK;
  const double thr = force ? 1e-3 : !q.zero && q.p.solver == solvers::SOLVER_GLPK ? 1e-4 : 1e-5;
  Knob k = pickKnob(c, q);
  auto margin = [&](double v) {
    k.set(v);
    c.caseDesc = q.desc() + MON_STR(" " << k.name << "=" << v);
    return ora::bestMargin(q.rows());
  };
  k.set(k.hi);
  c.caseDesc = q.desc() + MON_STR(" " << k.name << "=" << k.hi);
  ora::Margin mh = ora::bestMargin(q.rows());
  bool any = compareVerdict(c, q, mh, thr, "start") >= 0;
  if (!mh.known || mh.margin <= 0) {
    if (any) c.nontrivial(q.hash());
    return;
  }
  ora::Margin ml = margin(k.lo);
  if (!ml.known || ml.margin >= 0) {
    c.ev("knob-does-not-bind:" + k.name);
    if (compareVerdict(c, q, ml, thr, k.name.c_str()) >= 0 || any) c.nontrivial(q.hash());
    return;
  }
  double a = k.lo, b = k.hi;  // a infeasible, b feasible
  for (int i = 0; i < 22 && std::fabs(b - a) > 1e-7 * (1 + std::fabs(b)); ++i) {
    double m = 0.5 * (a + b);
    ora::Margin g = margin(m);
    if (!g.known) break;
    (g.margin > 0 ? b : a) = m;
  }
  c.ev("boundary-found:" + k.name);
  // step off the boundary by growing amounts until the margin is clear
  for (int side = 0; side < 2; ++side) {
    double from = side ? b : a, to = side ? k.hi : k.lo, f = std::exp(c.rng.uni(std::log(1e-4), std::log(0.02)));
    for (int i = 0; i < 7; ++i, f *= 2.5) {
      double v = from + (to - from) * std::min(1., f);
      ora::Margin g = margin(v);
      if (!g.known || std::fabs(g.margin) < 3 * thr) continue;
      if (compareVerdict(c, q, g, thr, k.name.c_str()) >= 0) any = true;
      c.mx(side ? "closest-feasible" : "closest-infeasible", 1 / std::fabs(g.margin));
      break;
    }
    if (c.caseFailed) return;
  }
  if (any) {
    c.nontrivial(q.hash());
    c.sample(c.caseDesc);
  }
}
static Reg r05("C05", C05, 9000, 120000);

// ---------------------------------------------------------------- C06
static bool flatCost(const Prob& q, const Quad& k) {
  // e.g. only the (fixed) end accelerations are sampled: every motion costs the same
  if (q.zero) return false;
  double nat = q.p.pd.costFunction_ == ACCELERATION ? std::pow(1 / (q.p.T() * q.p.T()), 2) : 1;
  return k.H.diagonal().minCoeff() < 1e-6 * nat;
}
static void C06(Ctx& c) {
  Prob q;
  PlanOpts po;
  po.mode = c.rng.below(3);
  po.qpOnly = true;
  if (!draw(c, q, 0.35, po, c.rng.chance(0.6) ? 0.5 : 1)) return;
  ResultDataCOMTraj r = q.solve();
  c.ev((r.success_ ? "success:" : "failure:") + q.kind());
  if (!r.success_) return;
  Quad k = q.cost();
  if (flatCost(q, k)) {
    c.ev("skipped-flat-cost");
    return;
  }
  Rows R = q.rows();
  Better b = improve(k, R, r.x);
  bool interior = true;
  for (int i = 0; i < R.n && interior; ++i) interior = R.b[i] - R.A.row(i).dot(r.x) > 1e-7 * (1 + R.A.row(i).norm());
  c.ev(interior ? "unconstrained-optimum" : "constrained-optimum");
  if (!q.zero) c.ev(std::string("cost:") + std::to_string((int)q.p.pd.costFunction_) + ":" + q.p.opt.name);
  c.nontrivial(q.hash());
  c.sample(q.desc());
  double sc = (q.zero && q.z.dim() == 6 ? 1e-4 * (1 + r.x.head(3).squaredNorm()) + 1e-3 * r.x.tail(3).squaredNorm() : k.H.diagonal().maxCoeff() * (1 + r.x.squaredNorm()));
  c.le("optimality", b.gain, 1e-9 * sc, MON_STR(q.kind() << ": a feasible motion costs less, free point " << b.x.transpose() << " instead of " << r.x.transpose() << ", improvement"));
  if (interior) {
    Vec xo = -(k.H.ldlt().solve(k.g));
    c.le("unconstrained", (xo - r.x).norm(), 1e-9 * (1 + r.x.norm() + (k.H.inverse() * k.g).norm()), MON_STR("no constraint is active but the minimiser is " << xo.transpose() << ", returned " << r.x.transpose()));
  }
}
static Reg r06("C06", C06, 6000, 150000);

// ---------------------------------------------------------------- C17
typedef Eigen::Matrix3d M3;
static void transformScene(Scene& s, const M3& R, const V3& t) {
  for (auto& p : s.ph) {
    p.pts = (p.pts * R.transpose()).rowwise() + t.transpose();
    p.nrm = p.nrm * R.transpose();
    p.K = p.K * R.transpose();
    p.k += p.K * t;
    p.nominal = R * p.nominal + t;
  }
}
static double costAt(const Quad& q, const Vec& x) { return 0.5 * x.dot(q.H * x) + q.g.dot(x); }

static void C17(Ctx& c) {
  Prob q, o;
  PlanOpts po;
  po.mode = c.rng.below(4);
  po.qpOnly = false;
  po.maxPhases = po.mode == CONT_FORCE ? 2 : 3;
  if (po.mode == CONT_FORCE) po.allowNoKin = false;
  if (!draw(c, q, 0.3, po, c.rng.chance(0.7) ? 0.5 : 1)) return;
  if (!q.zero && q.p.mode == CONT_FORCE) q.p.solver = solvers::SOLVER_GLPK;
  Rng& r = c.rng;
  const bool lpm = !q.zero && q.p.solver == solvers::SOLVER_GLPK;
  clone(q, o);
  int w = r.below(7);
  M3 R = M3::Identity();
  V3 t = V3::Zero();
  std::string what;
  auto& ph = o.scene().ph;
  bool mono = false;
  ProblemData& d = o.pd();
  if (w == 0) {
    what = "translation";
    // nothing in a request is absolute, so a far-off place is as good as any
    t = vec(r, r.chance(0.5) ? 2. : std::exp(r.uni(std::log(5.), std::log(q.p.mode == CONT_FORCE && !q.zero ? 500. : 200.))));
    if (t.norm() > 5) what = "far-translation";
  } else if (w == 1) {
    what = "rotation";
    for (auto& p : q.scene().ph)
      for (int i = 0; i < p.nrm.rows(); ++i) p.nrm.row(i) << 0, 0, 1;
    if (!q.scene().build()) return;
    if (q.zero) bindZ(q.z);
    else bindContacts(q.p.pd, q.p.sc);
    o.scene().ph = q.scene().ph;
    R = rot(V3(0, 0, 1), M_PI / 2 * r.range(1, 3));
    R = R.array().round().matrix();
    t = r.chance(0.5) ? vec(r, 1.) : V3::Zero().eval();
  } else if (w == 2) {
    what = "kinematic-rows";
    const bool wide = !lpm && r.chance(0.4);  // the LP solver has absolute tolerances
    for (auto& p : ph) {
      std::vector<int> id;
      for (int i = 0; i < p.K.rows(); ++i) {
        id.push_back(i);
        if (r.chance(0.3)) id.push_back(i);
      }
      for (int i = (int)id.size() - 1; i > 0; --i) std::swap(id[i], id[r.below(i + 1)]);
      Mat K(id.size(), 3);
      Vec k(id.size());
      for (size_t i = 0; i < id.size(); ++i) {
        double s = wide ? std::pow(10., r.uni(-4, 4)) : r.chance(0.5) ? std::exp(r.uni(-2, 2)) : 1.;
        K.row(i) = s * p.K.row(id[i]);
        k[i] = s * p.k[id[i]];
      }
      p.K = K;
      p.k = k;
    }
  } else if (w == 3) {
    what = "contact-order";
    for (auto& p : ph)
      for (int i = (int)p.pts.rows() - 1; i > 0; --i) {
        int j = r.below(i + 1);
        p.pts.row(i).swap(p.pts.row(j));
        p.nrm.row(i).swap(p.nrm.row(j));
      }
  } else {
    mono = true;
    what = "tightened";
    int k = r.below(q.zero ? 1 : 4);
    // tighten o: add rows, raise the margin, lower the acceleration limit
    if (k == 1 && o.p.mode != CONT_FORCE) {
      d.constraints_.reduce_h_ = std::max(0., d.constraints_.reduce_h_) + r.uni(0.001, 0.3);
      what += "-margin";
    } else if (k == 2 && (d.constraints_.constraintAcceleration_ || o.p.mode >= CONT)) {
      d.constraints_.maxAcceleration_ *= r.uni(0.3, 0.98);
      what += "-acceleration";
    } else if (k == 3 && o.p.mode < CONT) {
      q.pd().constraints_.constraintAcceleration_ = false;
      d.constraints_.constraintAcceleration_ = true;
      d.constraints_.maxAcceleration_ = r.uni(0.5, 4);
      what += "-acceleration-on";
    } else {
      PhaseDesc& p = ph[r.below((int)ph.size())];
      int m = (int)p.K.rows();
      V3 u = unit(r);
      p.K.conservativeResize(m + 1, 3);
      p.k.conservativeResize(m + 1);
      p.K.row(m) = u.transpose();
      p.k[m] = u.dot(p.nominal) + r.uni(-0.1, 0.15);
      what += "-kinematic";
    }
  }
  if (t.norm() > 0) {
    // the safety margin is measured on unit 6D rows, whose scale depends on the
    // origin: only a zero margin has the same meaning after a translation
    q.pd().constraints_.reduce_h_ = 0;
    d.constraints_.reduce_h_ = 0;
  }
  transformScene(o.scene(), R, t);
  for (V3* v : {&d.c0_, &d.c1_}) *v = R * *v + t;
  for (V3* v : {&d.dc0_, &d.dc1_, &d.ddc0_, &d.ddc1_, &d.j0_, &d.j1_, &d.l0_}) *v = R * *v;
  if (!finish(q, o)) {
    c.ev("skipped-scene");
    return;
  }
  if (q.zero && q.z.pd.contacts_[0].ang_.size()) o.z.pd.contacts_[0].Ang_ = q.z.pd.contacts_[0].Ang_ * R.transpose();
  c.caseDesc = what + " of " + q.desc();
  ResultDataCOMTraj a = q.solve(), b = o.solve();
  const double thr = lpm ? (q.p.mode == CONT_FORCE ? 1e-3 : 1e-4) : 1e-5;
  auto clear = [&](Prob& x) {
    ora::Margin m = ora::bestMargin(x.rows());
    return m.known && std::fabs(m.margin) > thr;
  };
  c.ev("pair:" + what + ":" + (a.success_ ? "1" : "0") + (b.success_ ? "1" : "0"));
  if (!mono) {
    // the cone library itself must treat both descriptions alike
    auto same = [&](const Vec& x) {
      Vec y = x;
      y.head(3) = R * V3(x.head(3)) + t;
      if (x.size() == 6) y.tail(3) = R * V3(x.tail(3));
      Rows A = q.rows(), B = o.rows();
      double s = 1 + x.norm();
      return std::fabs(ora::marginAt(A, x) - ora::marginAt(B, y)) < (t.norm() > 0 ? 0.3 * std::max(1e-6 * s, std::fabs(ora::marginAt(A, x))) : 1e-7 * s);
    };
    Vec x0 = a.success_ ? Vec(a.x) : Vec(ora::bestMargin(q.rows()).x);
    if (x0.size() != a.x.size() && a.success_) x0 = a.x;
    Vec x1 = x0;
    if (b.success_) {  // the other answer, in the first description
      x1 = b.x;
      x1.head(3) = R.transpose() * (V3(b.x.head(3)) - t);
      if (x1.size() == 6) x1.tail(3) = R.transpose() * V3(b.x.tail(3));
    }
    if (x0.size() == 0 || (q.p.mode != CONT_FORCE && (!same(x0) || !same(x1)))) {
      c.ev("skipped-cones-differ");
      return;
    }
  }
  bool bad = mono ? (b.success_ && !a.success_) : (a.success_ != b.success_);
  if (bad && lpm && q.p.mode != CONT_FORCE && (unbounded(q) || unbounded(o))) {
    c.ev("skipped-unbounded-lp");
    return;
  }
  if (bad) {
    if (clear(q) && clear(o)) c.fail("verdict", MON_STR(what << " turns " << (a.success_ ? "feasible" : "infeasible") << " into " << (b.success_ ? "feasible" : "infeasible") << " (" << q.kind() << ")"));
    else c.ev("skipped-near-boundary");
    return;
  }
  if (!a.success_ || !b.success_) {
    if (!a.success_ && !b.success_) c.ev("both-refused");
    return;
  }
  c.nontrivial(hashMix(q.hash(), w));
  c.sample(c.caseDesc);
  if (lpm) return;  // the optimum of an LP need not be unique
  // positions transform as points, the angular-momentum variable as a vector
  Vec xt = a.x;
  xt.head(3) = R * V3(a.x.head(3)) + t;
  if (a.x.size() == 6) xt.tail(3) = R * V3(a.x.tail(3));
  Quad k = o.cost();
  double sc = k.H.diagonal().maxCoeff() * (1 + xt.squaredNorm());
  if (mono) {
    Quad kq = q.cost();
    c.le("cost-monotone", costAt(kq, a.x) - costAt(kq, b.x), 1e-6 * sc, "the tightened problem has a lower cost");
    return;
  }
  double df = costAt(k, xt) - costAt(k, b.x);
  c.le("cost", std::fabs(df), 2e-8 * sc, MON_STR(what << " changes the cost"));
  if (!flatCost(q, k) && a.x.size() == 3) {
    c.le("plan", (xt - b.x).norm(), 2e-5 * (1 + xt.norm()), MON_STR(what << " changes the free point: expected " << xt.transpose() << " got " << b.x.transpose()));
    double T = a.c_of_t_.max(), worst = 0;
    for (int i = 0; i <= 6; ++i) {
      double u = std::min(T * i / 6, std::min(a.c_of_t_.max(), b.c_of_t_.max()));
      worst = std::max(worst, (V3(R * V3(a.c_of_t_(u)) + t) - V3(b.c_of_t_(u))).norm());
    }
    c.le("curve", worst, 2e-5 * (1 + xt.norm()), MON_STR(what << " changes the trajectory"));
    c.ev("plans-compared");
  }
}
static Reg r17("C17", C17, 6000, 150000);

// ---------------------------------------------------------------- C18
static bool clearly(Ctx& c, const Prob& q, double thr) {
  ora::Margin m = ora::bestMargin(q.rows());
  bool k = m.known && std::fabs(m.margin) > thr;
  if (!k) c.ev("skipped-near-boundary");
  return k;
}
static void samePlan(Ctx& c, const char* what, const Vec& a, const Vec& b, const Quad& k) {
  double sc = k.H.diagonal().maxCoeff() * (1 + a.squaredNorm());
  c.le(std::string(what) + "-cost", std::fabs(costAt(k, a) - costAt(k, b)), 2e-8 * sc, MON_STR(what << ": costs differ, " << a.transpose() << " and " << b.transpose()));
  c.le(std::string(what) + "-plan", (a - b).norm(), 2e-5 * (1 + a.norm()), MON_STR(what << ": free points differ, " << a.transpose() << " and " << b.transpose()));
  c.ev(std::string("plans-compared:") + what);
}
static void verdict(Ctx& c, const char* what, bool a, bool b, const Prob& q, double thr) {
  c.ev(std::string(what) + ":" + (a ? "1" : "0") + (b ? "1" : "0"));
  if (a != b && clearly(c, q, thr)) c.fail(std::string(what) + "-verdict", MON_STR(what << ": verdicts " << a << " and " << b));
}
// The force formulation minimises the same cost plus 5e-7 times the squared
// norm of the forces (the least that makes the QP strictly convex).
static bool leastForces(const Plan& p, const Vec& x, double& sum, double ridge = 1e-3) {
  sum = 0;
  ora::Curve k = curveOf(p.pd, p.opt, p.T()), dd = k.derivative(2);
  const V3 g = p.sc.g();
  Vec g6 = Vec::Zero(6);
  g6.head(3) = g;
  const int wdeg = p.opt.stop ? 4 : p.opt.deg == 8 ? 14 : 2 * p.opt.deg - 3;
  double t0 = 0;
  std::vector<double> first, last;
  for (int i = 0; i < p.Ts.size(); ++i) {
    const double t1 = t0 + p.Ts[i];
    Mat G = -Mat(p.sc.eq[i]->m_G_centr);
    const int n = (int)G.cols();
    Mat Gr(6 + n, n);
    Gr << G, ridge * Mat::Identity(n, n);
    auto ms = ora::bernstein(wdeg, t0, t1, [&](double t) {
      ora::AffW w = ora::wrench(k, dd, g, t);
      Mat q(6, 1);
      q.col(0) = w.A * x + w.b;
      return q;
    });
    int id = 0;
    for (auto& m : ms) {
      Vec W = Vec::Zero(6 + n), z;
      W.head(6) = p.sc.mass * (Vec(m.col(0)) - g6);
      ora::nnls(Gr, W, &z);
      if ((G * z - W.head(6)).norm() > 1e-3 * (1 + W.norm())) return false;
      if (id == 0) first.push_back(z.squaredNorm());
      if (id + 1 == (int)ms.size()) last.push_back(z.squaredNorm());
      ++id;
      sum += z.squaredNorm();
    }
    t0 = t1;
  }
  // at a switch the point is imposed once when one set of contacts contains the other
  for (size_t i = 0; i + 1 < first.size(); ++i)
    if (p.sc.ph[i].pts.rows() != p.sc.ph[i + 1].pts.rows()) sum -= std::min(last[i], first[i + 1]);
  return true;
}
// a wrench of the plan that every face admits but no forces produce: the cone library lost a face
static bool lostFace(const Plan& p, const Vec& x) {
  ora::Curve k = curveOf(p.pd, p.opt, p.T()), dd = k.derivative(2);
  const V3 g = p.sc.g();
  const int wdeg = p.opt.stop ? 4 : p.opt.deg == 8 ? 14 : 2 * p.opt.deg - 3;
  bool lost = false;
  double t0 = 0;
  for (int i = 0; i < p.Ts.size(); ++i) {
    const double t1 = t0 + p.Ts[i];
    Mat G = -Mat(p.sc.eq[i]->m_G_centr);
    for (auto& m : ora::bernstein(wdeg, t0, t1, [&](double t) {
           ora::AffW w = ora::wrench(k, dd, g, t);
           Mat q(6, 1);
           q.col(0) = w.A * x + w.b;
           return q;
         })) {
      Vec w = m.col(0);
      w.head(3) -= g;
      if ((p.sc.Hn[i] * w).maxCoeff() > 1e-5 * (1 + w.norm())) return false;
      Vec W = p.sc.mass * w;
      lost = lost || ora::nnls(G, W) > 1e-3 * (1 + W.norm());
    }
    t0 = t1;
  }
  return lost;
}
static void forcePlan(Ctx& c, const Prob& q, const Vec& xi, const Vec& xf) {
  Quad k = refCost(q.p);
  double sc = k.H.diagonal().maxCoeff() * (1 + xi.squaredNorm());
  c.le("force-cost-below", costAt(k, xi) - costAt(k, xf), 2e-2 * sc, "the plan with forces costs less than the optimum");
  // with the regularisation included neither the other plan nor points between
  // are better; two roundings of the least forces have to agree
  const double ridges[2] = {1e-3, 2e-4};
  double vf[2];
  for (int k2 = 0; k2 < 2; ++k2) {
    double vi;
    if (!leastForces(q.p, xi, vi, ridges[k2]) || !leastForces(q.p, xf, vf[k2], ridges[k2])) {
      c.ev("force-cost-skipped");
      return;
    }
  }
  for (double u : {0.1, 0.3, 1.}) {
    Vec y = xf + u * (xi - xf);
    double gain = 1e300;
    for (int k2 = 0; k2 < 2; ++k2) {
      double vy;
      if (!leastForces(q.p, y, vy, ridges[k2])) vy = 1e300;
      gain = std::min(gain, (costAt(k, xf) + 5e-7 * vf[k2]) - (costAt(k, y) + 5e-7 * vy));
    }
    if (gain > -1e200) c.le("force-cost", gain, 1e-4 * sc + 1e-3 * 5e-7 * vf[0], MON_STR("the plan with forces " << xf.transpose() << " is not optimal, " << y.transpose() << " is better by"));
  }
  c.mx("force-plan-shift", (xi - xf).norm());
  c.ev("force-plans-compared");
}
static void C18(Ctx& c) {
  Rng& r = c.rng;
  int w = r.below(5);
  Prob q;
  PlanOpts po;
  po.maxPhases = 3;
  po.qpOnly = true;
  po.effort = r.chance(0.7) ? 0.5 : 1;
  if (w == 0) {  // count and step sampling of the same instants
    po.mode = FIXED;
    if (!nextPlan(c, q.p, po)) return;
    double Ti = q.p.Ts[0];
    q.p.Ts.setConstant(Ti);
    if (q.p.pd.costFunction_ == ACCELERATION && q.p.Ts.size() > 1) q.p.pd.costFunction_ = DISTANCE_TRAVELED;
    q.p.dt = Ti / q.p.ppp;
    c.caseDesc = q.p.desc();
    ResultDataCOMTraj a = run(q.p);
    ResultDataCOMTraj b = computeCOMTraj(q.p.pd, q.p.Ts, q.p.dt, solvers::SOLVER_QUADPROG);
    verdict(c, "count-step", a.success_, b.success_, q, 1e-5);
    if (a.success_ && b.success_ && q.p.pd.costFunction_ != ACCELERATION) samePlan(c, "count-step", a.x, b.x, refCost(q.p));
  } else if (w == 1) {  // inequality and force representation
    po.mode = CONT;
    po.maxPhases = 2;
    po.allowNoKin = false;
    if (!nextPlan(c, q.p, po)) return;
    q.p.pd.constraints_.reduce_h_ = 0;
    ResultDataCOMTraj a = run(q.p);
    q.p.pd.representation_ = FORCE;
    ResultDataCOMTraj b = computeCOMTraj(q.p.pd, q.p.Ts, -1, solvers::SOLVER_GLPK);
    q.p.pd.representation_ = DOUBLE_DESCRIPTION;
    if (a.success_ && !b.success_ && lostFace(q.p, a.x)) {
      c.ev("cone-library-lost-a-face");
      return;
    }
    verdict(c, "inequality-force", a.success_, b.success_, q, 1e-3);
    if (a.success_ && r.chance(0.15)) {
      q.p.pd.representation_ = FORCE;
      ResultDataCOMTraj f = computeCOMTraj(q.p.pd, q.p.Ts, -1, solvers::SOLVER_QUADPROG);
      q.p.pd.representation_ = DOUBLE_DESCRIPTION;
      c.ev(std::string("inequality-force-qp:") + (f.success_ ? "1" : "0"));
      if (f.success_) forcePlan(c, q, a.x, f.x);
    }
  } else if (w == 2) {  // zero-step query and planner restricted to a stop
    ZOpts zo;
    zo.ang = 0;
    zo.effort = po.effort;
    if (!nextZ(c, q.z, zo)) return;
    q.zero = true;
    q.z.sc.ph[0].K = Mat::Zero(0, 3);
    q.z.sc.ph[0].k = Vec::Zero(0);
    bindZ(q.z);
    q.z.pd.c1_ = q.z.pd.c0_;
    q.z.pd.costFunction_ = DISTANCE_TRAVELED;
    q.z.pd.constraints_ = Constraints(F(INIT_POS | INIT_VEL | END_VEL));
    q.z.pd.constraints_.reduce_h_ = 0;
    q.z.pd.constraints_.constraintAcceleration_ = false;
    q.z.pd.constraints_.maxAcceleration_ = 1e4;
    q.z.pd.representation_ = DOUBLE_DESCRIPTION;
    c.caseDesc = q.desc();
    ResultDataCOMTraj a = q.z.solve(), b;
    Vec Ts = Vec::Constant(1, q.z.T);
    if (q.z.sampled()) b = computeCOMTrajFixedSize(q.z.pd, Ts, q.z.steps());
    else b = computeCOMTraj(q.z.pd, Ts, -1);
    const char* nm = q.z.sampled() ? "zero-planner-sampled" : "zero-planner";
    verdict(c, nm, a.success_, b.success_, q, 1e-5);
    if (a.success_ && b.success_) samePlan(c, nm, a.x, b.x, q.cost());
  } else if (w == 3) {  // QP and LP verdicts
    po.mode = 1 + r.below(2);
    if (!nextPlan(c, q.p, po)) return;
    ResultDataCOMTraj a = run(q.p);
    ResultDataCOMTraj b = computeCOMTraj(q.p.pd, q.p.Ts, q.p.mode == STEP ? q.p.dt : -1, solvers::SOLVER_GLPK);
    if (a.success_ && !b.success_ && unbounded(q)) {
      c.ev("skipped-unbounded-lp");
      return;
    }
    verdict(c, "qp-lp", a.success_, b.success_, q, 1e-4);
  } else {  // a continuous plan is feasible for any sampling of the same problem
    po.mode = CONT;
    if (!nextPlan(c, q.p, po)) return;
    if (q.p.pd.costFunction_ == ACCELERATION) q.p.pd.costFunction_ = DISTANCE_TRAVELED;
    ResultDataCOMTraj a = run(q.p);
    c.ev(std::string("continuous:") + (a.success_ ? "1" : "0"));
    if (!a.success_) return;
    q.p.mode = r.chance(0.5) ? FIXED : STEP;
    q.p.pd.constraints_.constraintAcceleration_ = r.chance(0.5);
    c.caseDesc = q.p.desc();
    ResultDataCOMTraj b = run(q.p);
    verdict(c, "continuous-sampled", true, b.success_, q, 1e-5);
    if (b.success_) {
      Quad k = refCost(q.p);
      c.le("continuous-sampled-cost", costAt(k, b.x) - costAt(k, a.x), 2e-8 * (1 + a.x.squaredNorm()) * k.H.diagonal().maxCoeff(), "the sampled plan costs more than the continuous one");
      Rows R = q.rows();
      c.le("continuous-sampled-rows", viol(R, a.x, 0), 1e-6 * (1 + a.x.norm()), "the continuous plan violates a sampled instant");
    }
  }
  c.nontrivial(hashMix(q.hash(), w));
  c.sample(c.caseDesc);
}
static Reg r18("C18", C18, 6000, 150000);
