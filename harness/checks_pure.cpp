// Purity, repeatability, thread safety (C12).
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "zgen.hpp"
using namespace gen;
using namespace mon;

namespace {
// ---- bit-exact fingerprints
typedef uint64_t H;
H fp(H h, const double* p, long n) {
  for (long i = 0; i < n; ++i) h = hashD(h, p[i]);
  return h;
}
H fpM(H h, const Mat& m) { return fp(hashMix(hashMix(h, m.rows()), m.cols()), m.data(), m.size()); }
H fpV(H h, const Vec& v) { return fp(hashMix(h, v.size()), v.data(), v.size()); }
H fpB(H h, const bezier_t& b) {
  h = hashD(hashD(hashMix(h, b.waypoints().size()), b.min()), b.max());
  for (auto& w : b.waypoints()) h = fpV(h, w);
  for (int k = 0; k <= 3; ++k) h = fpV(h, b(std::min(b.min() + (b.max() - b.min()) * k / 3, b.max())));
  return h;
}
H fpR(const ResultDataCOMTraj& r) {
  H h = hashD(hashMix(11, r.success_), r.cost_);
  h = fpV(h, r.x);
  h = fpB(fpB(h, r.c_of_t_), r.dL_of_t_);
  return fpV(fpV(h, r.dc1_), r.ddc1_);
}
H fpE(H h, const centroidal_dynamics::Equilibrium& e) {
  h = fpM(hashD(h, e.m_mass), Mat(e.m_G_centr));
  h = fpV(h, Vec(e.m_gravity));
  centroidal_dynamics::MatrixXX A;
  centroidal_dynamics::VectorX b;
  if (const_cast<centroidal_dynamics::Equilibrium&>(e).getPolytopeInequalities(A, b) == centroidal_dynamics::LP_STATUS_OPTIMAL) h = fpV(fpM(h, Mat(A)), Vec(b));
  return h;
}
H fpP(const ProblemData& d) {
  H h = 5;
  for (const point_t* p : {&d.c0_, &d.dc0_, &d.ddc0_, &d.j0_, &d.c1_, &d.dc1_, &d.ddc1_, &d.j1_, &d.l0_}) h = fpV(h, *p);
  h = hashMix(hashMix(hashMix(h, d.useAngularMomentum_), d.costFunction_), d.representation_);
  h = hashMix(hashMix(h, d.constraints_.flag_), d.constraints_.constraintAcceleration_);
  h = hashD(hashD(h, d.constraints_.maxAcceleration_), d.constraints_.reduce_h_);
  h = hashMix(h, d.contacts_.size());
  for (auto& k : d.contacts_) {
    h = hashMix(h, (H)(size_t)k.contactPhase_);
    h = fpV(fpM(h, Mat(k.Kin_)), k.kin_);
    h = fpV(fpM(h, Mat(k.Ang_)), k.ang_);
    if (k.contactPhase_) h = fpE(h, *k.contactPhase_);
  }
  return h;
}

// ---- a job: one request with its own data; run() may be called at will
struct Job {
  std::string name;
  virtual ~Job() {}
  virtual H solve() = 0;              // solve and fingerprint the answer
  H run() {                           // an exception is an outcome like another
    try {
      return solve();
    } catch (const std::exception& e) {
      return hashStr(e.what()) | 1;
    }
  }
  virtual H snapshot() const = 0;     // fingerprint of every argument
  ResultDataCOMTraj last;             // kept by planner jobs
  bool keeps = false;
  int copy = -1;                      // solve through a copy (0), an assigned copy (1)
};
struct PlanJob : Job {
  Plan p;
  H solve() override {
    last = copy < 0 ? gen::run(p, p.pd) : gen::run(p, gen::Copied(p.pd, copy).pd);
    keeps = true;
    return fpR(last);
  }
  H snapshot() const override { return fpV(fpP(p.pd), p.Ts); }
};
struct ZJob : Job {
  ZPlan z;
  std::vector<double> Ts;
  H solve() override {
    last = copy < 0 ? solve0step(z.pd, Ts, z.dt) : solve0step(gen::Copied(z.pd, copy).pd, Ts, z.dt);
    keeps = true;
    return fpR(last);
  }
  H snapshot() const override { return hashD(hashMix(fpP(z.pd), Ts.size()), Ts[0]); }
};
struct EPath {
  V3 a, b, w;
  point3_t operator()(double u) const { return (1 - u) * a + u * b + w * std::sin(3.1 * u); }
};
struct EJob : Job {
  ProblemData d;
  EPath path;
  double T, w;
  H solve() override {
    last = copy < 0 ? solveEndEffector(d, path, T, w) : solveEndEffector(gen::Copied(d, copy).pd, path, T, w);
    keeps = true;
    return fpR(last);
  }
  H snapshot() const override { return fpV(fpV(fpP(d), path.a), path.w); }
};
struct QJob : Job {
  Mat Hs, A, D;
  Vec g, b, d, x0, lo, hi;
  int kind = 0;
  H solve() override {
    if (kind == 3) {  // one solver object, the same problem twice in its life
      tsid::solvers::EiquadprogFast qp;
      const int n = (int)g.size();
      qp.reset(n, (int)d.size(), (int)b.size());
      Vec x = x0, y = x0;
      const int s1 = qp.solve_quadprog(Hs, g, D, -d, -A, b, x);
      H h = hashD(fpV(hashMix(3, s1), x), qp.getObjValue());
      const int s2 = qp.solve_quadprog(Hs, g, D, -d, -A, b, y);
      H h2 = hashD(fpV(hashMix(3, s2), y), qp.getObjValue());
      return hashMix(h, h2 == h);
    }
    ResultData r = kind == 2 ? solvers::solve(A, b, Mat(0, g.size()), Vec(0), Hs, g, x0, Vec(0), Vec(0), solvers::SOLVER_QUADPROG)
                             : solvers::solve(A, b, D, d, Hs, g, x0, lo, hi, kind ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG);
    return fpV(hashD(hashMix(7, r.success_), r.success_ ? r.cost_ : 0), r.success_ ? r.x : Vec(0));
  }
  H snapshot() const override { return fpV(fpV(fpV(fpV(fpV(fpV(fpM(fpM(fpM(1, Hs), A), D), g), b), d), x0), lo), hi); }
};
struct XJob : Job {  // symbolic expressions
  ProblemData d;
  centroidal_dynamics::Equilibrium eq;
  OptSet o;
  double T, u;
  XJob() : eq("mon", 50, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false), o(optSets()[0]) {}
  H solve() override { return copy < 0 ? expr(d) : expr(gen::Copied(d, copy).pd); }
  H expr(const ProblemData& d) const {
    H h = 9;
    std::vector<point_t> pi = computeConstantWaypoints(d, T);
    for (auto& p : pi) h = fpV(h, p);
    auto add = [&](const waypoint_t& w) { h = fpV(fpM(h, w.first), w.second); };
    if (o.deg <= 8) {
      coefs_t a = evaluateCurveAtTime(d, pi, u), b = evaluateAccelerationCurveAtTime(d, pi, T, u);
      h = fpV(hashD(fpV(hashD(h, a.first), a.second), b.first), b.second);
      for (auto& w : computeWwaypoints(d, T)) add(w);
    }
    if (o.n0 == 4) {
      add(evaluateCurveWaypointAtTime(d, pi, u));
      auto v = computeVelocityCost(d, T, pi);
      h = fpV(fpM(h, v.first), v.second);
    }
    for (auto& w : computeConstantWaypointsSymbolic(d, T)) add(w);
    MatrixXX Hc = MatrixXX::Zero(3, 3);
    VectorX g = VectorX::Zero(3);
    Vec Ts = Vec::Constant(2, T / 2);
    if (o.deg <= 8) {
      cost::genCostFunction(d, Ts, T, computeDiscretizedTimeFixed(Ts, 4), Hc, g);
      h = fpV(fpM(h, Hc), g);
    }
    return h;
  }
  H snapshot() const override { return fpP(d); }
};

std::unique_ptr<Job> draw(Rng& r, bool light) {
  const int k = r.below(10);
  if (k < 4) {
    std::unique_ptr<PlanJob> j(new PlanJob);
    PlanOpts po;
    po.maxPhases = light ? 2 : 3;
    po.qpOnly = false;
    po.mode = light && r.chance(0.7) ? r.below(3) : r.below(4);
    if (po.mode == CONT_FORCE) po.maxPhases = light ? 1 : 2;
    for (int t = 0; t < 6; ++t) {
      j->p = Plan();
      if (makePlan(r, j->p, po)) {
        j->name = std::string("plan-") + modeName(j->p.mode) + (j->p.solver == solvers::SOLVER_GLPK ? "-lp" : "");
        return std::move(j);
      }
    }
  }
  if (k < 6) {
    std::unique_ptr<ZJob> j(new ZJob);
    for (int t = 0; t < 6; ++t) {
      j->z = ZPlan();
      if (makeZ(r, j->z, ZOpts())) {
        j->Ts.assign(1, j->z.T);
        j->name = "zero-step";
        return std::move(j);
      }
    }
  }
  if (k < 7) {
    std::unique_ptr<EJob> j(new EJob);
    j->d.constraints_ = Constraints(jerkSets()[r.below(3)].flag);
    j->d.c0_ = vec(r, 1), j->d.c1_ = vec(r, 1), j->d.dc0_ = vec(r, 1), j->d.ddc1_ = vec(r, 1), j->d.j0_ = vec(r, 1);
    j->path = EPath{j->d.c0_, j->d.c1_, vec(r, 0.4)};
    j->T = r.uni(0.3, 2), j->w = r.uni();
    j->name = "end-effector";
    return std::move(j);
  }
  if (k < 8) {
    std::unique_ptr<XJob> j(new XJob);
    j->o = r.chance(0.6) ? optSets()[r.below(8)] : jerkSets()[r.below(3)];
    j->d.constraints_ = Constraints(j->o.flag);
    j->d.costFunction_ = r.chance(0.5) ? ACCELERATION : DISTANCE_TRAVELED;
    j->d.c0_ = vec(r, 1), j->d.c1_ = vec(r, 1), j->d.dc0_ = vec(r, 1), j->d.ddc0_ = vec(r, 1), j->d.ddc1_ = vec(r, 1), j->d.j0_ = vec(r, 1);
    if (!j->o.stop) j->d.dc1_ = vec(r, 1);
    j->d.contacts_.push_back(ContactData(&j->eq));
    j->T = r.uni(0.3, 2), j->u = r.uni();
    j->name = "expressions";
    return std::move(j);
  }
  std::unique_ptr<QJob> j(new QJob);
  const int n = r.range(1, 10), mi = r.range(0, 25), me = r.chance(0.6) ? 0 : r.range(0, n / 2);
  auto rnd = [&](int a, int b) {
    Mat M(a, b);
    for (int i = 0; i < a; ++i)
      for (int q = 0; q < b; ++q) M(i, q) = r.gauss();
    return M;
  };
  Mat M = rnd(n, n);
  j->Hs = M * M.transpose() / n + 0.1 * Mat::Identity(n, n);
  j->g = rnd(n, 1);
  j->A = rnd(mi, n);
  j->D = rnd(me, n);
  Vec x = rnd(n, 1);
  j->b = j->A * x + Vec::Constant(mi, r.chance(0.2) ? -0.3 : r.uni(0, 1));
  j->d = j->D * x;
  j->x0 = Vec::Zero(n);
  if (r.chance(0.6)) j->lo = x.array() - 1, j->hi = x.array() + 1;
  j->kind = r.below(4);
  static const char* nm[] = {"solve-qp", "solve-lp", "solve-qp-plain", "solver-object"};
  j->name = nm[j->kind];
  return std::move(j);
}

void copyData(const ProblemData& a, ProblemData& b) {
  b.c0_ = a.c0_, b.dc0_ = a.dc0_, b.ddc0_ = a.ddc0_, b.j0_ = a.j0_, b.c1_ = a.c1_, b.dc1_ = a.dc1_, b.ddc1_ = a.ddc1_, b.j1_ = a.j1_, b.l0_ = a.l0_;
  b.useAngularMomentum_ = a.useAngularMomentum_, b.costFunction_ = a.costFunction_, b.representation_ = a.representation_;
  b.constraints_ = a.constraints_;
}
// A request that shares most of its data with an earlier one, which anything
// remembered under too small a key would confuse with it.
std::unique_ptr<Job> variant(Rng& r, const Job& of) {
  const int times = r.chance(0.6) ? 1 : 2;
  if (const PlanJob* a = dynamic_cast<const PlanJob*>(&of)) {
    std::unique_ptr<PlanJob> j(new PlanJob);
    Plan& p = j->p;
    const Plan& o = a->p;
    p.opt = o.opt, p.Ts = o.Ts, p.mode = o.mode, p.ppp = o.ppp, p.dt = o.dt, p.solver = o.solver;
    p.sc.ph = o.sc.ph, p.sc.mass = o.sc.mass;
    copyData(o.pd, p.pd);
    for (int t = 0; t < times; ++t) {
      const int n = (int)p.Ts.size(), i = r.below(n), k = r.below(n);
      switch (r.below(13)) {
        case 0: if (n > 1) std::swap(p.Ts[i], p.Ts[k == i ? (i + 1) % n : k]); break;
        case 1: if (n > 1) { double d = 0.3 * std::min(p.Ts[i], p.Ts[(i + 1) % n]); p.Ts[i] += d, p.Ts[(i + 1) % n] -= d; } break;
        case 2: p.Ts *= r.uni(0.8, 1.2); break;
        case 3: p.pd.c0_ += vec(r, 0.02), p.pd.dc0_ += vec(r, 0.1); break;
        case 4: p.pd.c1_ += vec(r, 0.02), p.pd.dc1_ += vec(r, 0.1); break;
        case 5: p.pd.ddc0_ += vec(r, 0.3), p.pd.ddc1_ += vec(r, 0.3); break;
        case 6: for (int q = 0; q < p.sc.ph[i].k.size(); ++q) p.sc.ph[i].k[q] += r.uni(0, 0.1); break;
        case 7: p.sc.mass *= r.uni(0.7, 1.3); break;
        case 8: p.pd.costFunction_ = (CostFunction)(p.pd.costFunction_ == ACCELERATION ? DISTANCE_TRAVELED : ACCELERATION); break;
        case 9: p.opt = optSets()[r.below((int)optSets().size())], p.pd.constraints_.flag_ = p.opt.flag; break;
        case 10: p.ppp = p.ppp > 2 ? p.ppp - 1 : p.ppp + 1, p.dt *= 0.8; break;
        case 11: if (r.chance(0.5)) p.pd.constraints_.constraintAcceleration_ = !p.pd.constraints_.constraintAcceleration_;
                 else p.pd.constraints_.maxAcceleration_ *= r.uni(0.7, 1.3); break;
        default: { V3 d = vec(r, 0.02); for (int q = 0; q < p.sc.ph[i].pts.rows(); ++q) p.sc.ph[i].pts.row(q) += d.transpose(); } break;
      }
    }
    if (p.dt > 0) p.dt = std::min(p.dt, p.Ts.minCoeff() / 2.01);
    if (!p.sc.build()) return nullptr;
    bindContacts(p.pd, p.sc);
    j->name = a->name + "-related";
    return std::move(j);
  }
  if (const ZJob* a = dynamic_cast<const ZJob*>(&of)) {
    std::unique_ptr<ZJob> j(new ZJob);
    const ZPlan& o = a->z;
    ZPlan& z = j->z;
    z.sc.ph = o.sc.ph, z.sc.mass = o.sc.mass, z.T = o.T, z.dt = o.dt;
    copyData(o.pd, z.pd);
    Mat Ang = o.pd.contacts_[0].Ang_;
    Vec ang = o.pd.contacts_[0].ang_;
    for (int t = 0; t < times; ++t) switch (r.below(8)) {
        case 0: z.T *= r.uni(0.8, 1.2); break;
        case 1: z.dt = z.dt > 0 ? (r.chance(0.5) ? -1 : z.dt * 0.8) : z.T / 5; break;
        case 2: z.pd.c0_ += vec(r, 0.02); break;
        case 3: z.pd.dc0_ += vec(r, 0.1); break;
        case 4: z.pd.l0_ += vec(r, 1); break;
        case 5: z.pd.useAngularMomentum_ = !z.pd.useAngularMomentum_; break;
        case 6: z.sc.mass *= r.uni(0.7, 1.3); break;
        default: for (int q = 0; q < z.sc.ph[0].k.size(); ++q) z.sc.ph[0].k[q] += r.uni(0, 0.1); break;
      }
    if (!z.sc.build()) return nullptr;
    bindZ(z);
    z.pd.contacts_[0].Ang_ = Ang, z.pd.contacts_[0].ang_ = ang;
    j->Ts.assign(1, z.T);
    j->name = "zero-step-related";
    return std::move(j);
  }
  if (const EJob* a = dynamic_cast<const EJob*>(&of)) {
    std::unique_ptr<EJob> j(new EJob);
    copyData(a->d, j->d);
    j->path = a->path, j->T = a->T, j->w = a->w;
    for (int t = 0; t < times; ++t) switch (r.below(6)) {
        case 0: j->T *= r.uni(0.8, 1.2); break;
        case 1: j->w = r.uni(); break;
        case 2: j->d.c0_ += vec(r, 0.1); break;
        case 3: j->d.c1_ += vec(r, 0.1), j->d.dc1_ += vec(r, 0.1); break;
        case 4: j->path.w += vec(r, 0.1); break;
        default: j->d.constraints_ = Constraints(jerkSets()[r.below(3)].flag); break;
      }
    j->name = "end-effector-related";
    return std::move(j);
  }
  if (const XJob* a = dynamic_cast<const XJob*>(&of)) {
    std::unique_ptr<XJob> j(new XJob);
    copyData(a->d, j->d);
    j->o = a->o, j->T = a->T, j->u = a->u;
    for (int t = 0; t < times; ++t) switch (r.below(5)) {
        case 0: j->T *= r.uni(0.8, 1.2); break;
        case 1: j->u = r.uni(); break;
        case 2: j->d.c0_ += vec(r, 0.1), j->d.dc0_ += vec(r, 0.1); break;
        case 3: j->d.c1_ += vec(r, 0.1), j->d.ddc0_ += vec(r, 0.1); break;
        default:
          j->o = a->o.n0 == 4 ? jerkSets()[r.below(3)] : optSets()[r.below((int)optSets().size())];
          j->d.constraints_ = Constraints(j->o.flag);
      }
    j->d.contacts_.push_back(ContactData(&j->eq));
    j->name = "expressions-related";
    return std::move(j);
  }
  if (const QJob* a = dynamic_cast<const QJob*>(&of)) {
    std::unique_ptr<QJob> j(new QJob(*a));
    for (int t = 0; t < times; ++t) switch (r.below(6)) {
        case 0: for (int i = 0; i < j->g.size(); ++i) j->g[i] += r.gauss(); break;
        case 1: for (int i = 0; i < j->b.size(); ++i) j->b[i] += r.uni(0, 0.3); break;
        case 2: j->Hs += 0.2 * Mat::Identity(j->Hs.rows(), j->Hs.cols()); break;
        case 3: for (int i = 0; i < j->A.rows(); ++i) j->A.row(i) *= r.uni(0.5, 2); break;
        case 4: j->lo.array() -= 0.2, j->hi.array() += 0.3; break;
        default: j->kind = r.below(4); break;
      }
    static const char* nm[] = {"solve-qp", "solve-lp", "solve-qp-plain", "solver-object"};
    j->name = std::string(nm[j->kind]) + "-related";
    return std::move(j);
  }
  return nullptr;
}
// the next request of a history
std::unique_ptr<Job> next(Rng& r, bool light, const std::vector<std::unique_ptr<Job> >& before) {
  if (!before.empty() && r.chance(0.5)) {
    std::unique_ptr<Job> j = variant(r, *before[r.below((int)before.size())]);
    if (j) return j;
  }
  return draw(r, light);
}

// ---- pristine process: started before anything was solved, it forks one
// child per question, which solves only the job it is asked about
struct Zygote {
  int in[2], out[2];
  bool up = false;
  struct Q {
    uint64_t rng;
    int index, light;
  };
  static void serveOne(const Q& q, int fd) {
    Rng r(1);
    r.s = q.rng;
    std::vector<std::unique_ptr<Job> > j;
    for (int i = 0; i <= q.index; ++i) j.push_back(next(r, q.light, j));
    H h = j.back()->run();
    (void)!write(fd, &h, sizeof h);
  }
  void start() {
    if (up) return;
    if (pipe(in) || pipe(out)) return;
    pid_t p = fork();
    if (p == 0) {
      close(in[1]);
      close(out[0]);
      Q q;
      while (read(in[0], &q, sizeof q) == (ssize_t)sizeof q) {
        alarm(0);
        pid_t k = fork();
        if (k == 0) {
          serveOne(q, out[1]);
          _exit(0);
        }
        int st = 0;
        if (k < 0 || waitpid(k, &st, 0) != k || st != 0) {
          H bad = 0;
          (void)!write(out[1], &bad, sizeof bad);
        }
      }
      _exit(0);
    }
    close(in[0]);
    close(out[1]);
    up = p > 0;
  }
  bool ask(uint64_t rng, int index, bool light, H& h) {
    Q q = {rng, index, light};
    return up && write(in[1], &q, sizeof q) == (ssize_t)sizeof q && read(out[0], &h, sizeof h) == (ssize_t)sizeof h;
  }
};
Zygote& zygote() {
  static Zygote z;
  return z;
}

void history(Ctx& c) {
  Rng& r = c.rng;
  zygote().start();
  const uint64_t state = r.s;
  const int n = r.range(3, 7);
  Rng g(1);
  g.s = state;
  std::vector<std::unique_ptr<Job> > jobs;
  for (int i = 0; i < n; ++i) jobs.push_back(next(g, false, jobs));
  r.s = g.s;
  std::string names;
  for (auto& j : jobs) names += " " + j->name;
  c.caseDesc = "history of" + names;
  std::vector<H> ref(n), arg(n);
  for (int i = 0; i < n; ++i) arg[i] = jobs[i]->snapshot();
  for (int i = 0; i < n; ++i) {
    ref[i] = jobs[i]->run();
    c.ev("call:" + jobs[i]->name);
  }
  // any order, any number of times
  const int m = r.range(n, 3 * n);
  std::vector<ResultDataCOMTraj> kept;
  std::vector<H> keptH;
  uint64_t order = 0;
  for (int k = 0; k < m; ++k) {
    const int i = r.below(n);
    order = hashMix(order, i);
    H h = jobs[i]->run();
    c.ev("repeated-calls");
    if (h != ref[i]) c.fail("repeat:" + jobs[i]->name, MON_STR("call " << k << " of the history: " << jobs[i]->name << " gives other bits than before"));
    if (jobs[i]->snapshot() != arg[i]) c.fail("argument:" + jobs[i]->name, jobs[i]->name + " changed its arguments");
    if (jobs[i]->keeps && kept.size() < 4) {
      kept.push_back(jobs[i]->last);
      keptH.push_back(h);
    }
  }
  for (int i = 0; i < n; ++i)
    if (jobs[i]->snapshot() != arg[i]) c.fail("argument:" + jobs[i]->name, jobs[i]->name + " changed arguments during the history");
  // a copy of the data is the same request
  for (int k = 0; k < 2; ++k) {
    const int i = r.below(n);
    jobs[i]->copy = k;
    H h = jobs[i]->run();
    jobs[i]->copy = -1;
    c.ev(k ? "requests-through-an-assigned-copy" : "requests-through-a-copy");
    if (h != ref[i]) c.fail("copy:" + jobs[i]->name, jobs[i]->name + (k ? ": an assigned copy" : ": a copy") + " of the problem data gives other bits");
    if (jobs[i]->snapshot() != arg[i]) c.fail("argument:" + jobs[i]->name, jobs[i]->name + ": solving a copy changed the original");
  }
  // the same request, built anew and alone in a process without history
  for (int k = 0; k < 2; ++k) {
    const int i = r.below(n);
    H h = 0;
    if (!zygote().ask(state, i, false, h)) {
      c.ev("pristine-unavailable");
      break;
    }
    c.ev("pristine-processes");
    if (h == 0) c.fail("pristine-crash:" + jobs[i]->name, jobs[i]->name + " ended abnormally in a process without history");
    else if (h != ref[i]) c.fail("pristine:" + jobs[i]->name, jobs[i]->name + " gives other bits in a process without history");
  }
  // results survive their inputs
  jobs.clear();
  std::vector<std::vector<double> > noise;
  for (int k = 0; k < 24; ++k) noise.push_back(std::vector<double>(1 + r.below(400), -7e77));
  for (size_t k = 0; k < kept.size(); ++k) {
    c.ev("results-outliving-inputs");
    if (fpR(kept[k]) != keptH[k]) c.fail("outlive", "a result changed after its inputs were destroyed");
  }
  c.nontrivial(hashMix(order, ref[0]));
  if (c.caseId < 16) c.sample(c.caseDesc);
}

void threads(Ctx& c) {
  Rng& r = c.rng;
  const int nt = r.range(2, 6), per = r.range(2, 4);
  const bool sameProblem = r.chance(0.25);  // every thread its own copy of the same
  std::vector<std::vector<std::unique_ptr<Job> > > jobs(nt);
  std::vector<std::vector<H> > ref(nt), got(nt);
  const uint64_t state = r.s;
  for (int t = 0; t < nt; ++t) {
    if (sameProblem) r.s = state;
    for (int k = 0; k < per; ++k) jobs[t].push_back(next(r, true, jobs[t]));
  }
  const bool before = r.chance(0.5);  // some cases call first from several threads at once
  auto solo = [&] {
    for (int t = 0; t < nt; ++t)
      for (auto& j : jobs[t]) ref[t].push_back(j->run());
  };
  std::vector<std::vector<H> > arg(nt);
  for (int t = 0; t < nt; ++t)
    for (auto& j : jobs[t]) arg[t].push_back(j->snapshot());
  if (before) solo();
  const int rounds = r.range(1, 3);
  std::atomic<int> ready(0);
  std::atomic<long> clock(0);
  struct Span {
    long a, b;
    std::string name;
  };
  std::vector<std::vector<Span> > spans(nt);
  std::vector<std::thread> th;
  const uint64_t noise = r.next();
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      Rng q(hashMix(noise, t));
      ready++;
      while (ready.load() < nt) {
      }
      for (int round = 0; round < rounds; ++round)
        for (size_t k = 0; k < jobs[t].size(); ++k) {
          for (int spin = q.below(3) ? 0 : q.below(20000); spin > 0; --spin) std::atomic_signal_fence(std::memory_order_seq_cst);
          long a = clock++;
          H h = jobs[t][k]->run();
          long b = clock++;
          got[t].push_back(h);
          spans[t].push_back({a, b, jobs[t][k]->name});
        }
    });
  for (auto& x : th) x.join();
  if (!before) solo();
  c.caseDesc = MON_STR(nt << " threads of " << per << " jobs" << (sameProblem ? ", same problems" : "") << (before ? "" : ", concurrent first"));
  for (int t = 0; t < nt; ++t)
    for (size_t k = 0; k < got[t].size(); ++k) {
      const int i = (int)(k % jobs[t].size());
      c.ev("concurrent-calls");
      if (got[t][k] != ref[t][i]) c.fail("concurrent:" + jobs[t][i]->name, jobs[t][i]->name + " gives other bits when other threads are solving");
      if (jobs[t][i]->snapshot() != arg[t][i]) c.fail("argument:" + jobs[t][i]->name, jobs[t][i]->name + " changed its arguments");
    }
  // which calls really overlapped
  uint64_t h = 0;
  for (int t = 0; t < nt; ++t)
    for (auto& s : spans[t])
      for (int v = t + 1; v < nt; ++v)
        for (auto& w : spans[v])
          if (s.a < w.b && w.a < s.b) {
            c.ev("overlapping-pairs");
            c.ev("overlap:" + std::min(s.name, w.name) + "+" + std::max(s.name, w.name));
            h = hashMix(h, hashMix(s.a, w.a));
          }
  c.nontrivial(hashMix(h, noise));
}
void C12(Ctx& c) {
  zygote().start();
  history(c);
}
void C12T(Ctx& c) { threads(c); }
Reg r12("C12", C12, 1600, 40000);
Reg r12t("C12T", C12T, 600, 12000);
}  // namespace
