// Monitors of the QP solver (C07) and of the LP solver and the common solving
// entry point (C08).
#include <glpk.h>

#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/solver/glpk-wrapper.hpp>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

#include "oracle.hpp"
using namespace mon;
using ora::Mat;
using ora::Vec;
typedef tsid::solvers::EiquadprogFast QP;

struct Prob {
  Mat H, CE, CI;    // CE x + ce0 = 0, CI x + ci0 >= 0
  Vec g, ce0, ci0;
  Vec lo, hi;       // bounds, empty = none (front end only)
  bool planted = false;     // a strictly interior point is known
  bool dependentEq = false; // equality rows are linearly dependent
  int kind = 0;
  double hscale = 1;
  std::string desc() const {
    return MON_STR("n=" << g.size() << " eq=" << ce0.size() << " ineq=" << ci0.size() << " kind=" << kind << " hscale=" << hscale
                        << " planted=" << planted << " lo=" << lo.size() << " hi=" << hi.size());
  }
};

static Mat rnd(Rng& r, int n, int m) {
  Mat M(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) M(i, j) = r.gauss();
  return M;
}

// kinds: 0 planted interior, 1 many constraints through one vertex (a slightly
// inflated one), 2 duplicated / scaled rows, 3 contradictory, 4 random,
// 5 all constraints active at the optimum
static Prob makeProb(Rng& r, int maxN, bool spd, double hrange, double rowrange) {
  Prob p;
  int n = r.chance(0.1) ? r.range(1, 3 * maxN) : r.range(1, maxN);
  int me = r.chance(0.5) ? 0 : r.range(1, std::max(1, n - 1));
  if (r.chance(0.05)) me = n;
  if (me > n) me = n;
  int mi = r.chance(0.1) ? 0 : r.chance(0.15) ? r.range(1, 150) : r.range(1, 4 * n);
  p.kind = r.below(6);
  p.hscale = std::pow(10., r.uni(-hrange, hrange));
  if (spd) {
    Mat M = rnd(r, n, n);
    p.H = M * M.transpose() / n + r.uni(0.05, 1) * Mat::Identity(n, n);
    if (r.chance(0.3)) p.H = Mat(p.H.diagonal().asDiagonal());
    p.H *= p.hscale;
  } else
    p.H = Mat::Zero(n, n);
  Vec x0 = 2 * rnd(r, n, 1);
  p.g = p.hscale * rnd(r, n, 1) * r.uni(0.1, 6);
  p.CE = rnd(r, me, n);
  p.CI = rnd(r, mi, n);
  if (r.chance(0.3))
    for (int i = 0; i < mi; ++i)
      for (int j = 0; j < n; ++j)
        if (r.chance(0.6)) p.CI(i, j) = 0;
  for (int i = 0; i < mi; ++i)
    if (p.CI.row(i).norm() < 1e-3) p.CI(i, r.below(n)) = 1;
  p.ce0 = -p.CE * x0;
  p.ci0 = Vec::Zero(mi);
  p.planted = p.kind != 3 && p.kind != 4;
  double m = r.uni(0.05, 1.5);
  for (int i = 0; i < mi; ++i) {
    double slack = p.kind == 1 ? 1e-2 : m * r.uni(0.5, 2);
    if (p.kind == 4) slack = r.gauss();
    if (p.kind == 2 && i > 0 && r.chance(0.5)) {
      int j = r.below(i);
      double s = r.chance(0.5) ? 1. : r.uni(0.2, 5);
      p.CI.row(i) = s * p.CI.row(j);
      p.ci0[i] = s * p.ci0[j];
      continue;
    }
    p.ci0[i] = -p.CI.row(i).dot(x0) + slack * p.CI.row(i).norm();
  }
  if (p.kind == 3 && mi >= 2) {  // clear contradiction
    int i = r.below(mi), j = (i + 1) % mi;
    p.CI.row(j) = -p.CI.row(i);
    p.ci0[j] = -p.ci0[i] - r.uni(0.05, 1) * p.CI.row(i).norm();
  }
  if (rowrange > 0)
    for (int i = 0; i < mi; ++i) {
      double s = std::pow(10., r.uni(-rowrange, rowrange));
      p.CI.row(i) *= s;
      p.ci0[i] *= s;
    }
  if (me >= 2 && r.chance(0.08)) {
    p.CE.row(me - 1) = 2 * p.CE.row(0);
    p.ce0[me - 1] = 2 * p.ce0[0];
    p.dependentEq = true;
  }
  return p;
}

// scaled violation of a point
static double violation(const Prob& p, const Vec& x) {
  double w = 0;
  for (int i = 0; i < p.ci0.size(); ++i) w = std::max(w, -(p.CI.row(i).dot(x) + p.ci0[i]) / (1e-9 + p.CI.row(i).norm()));
  for (int i = 0; i < p.ce0.size(); ++i) w = std::max(w, std::fabs(p.CE.row(i).dot(x) + p.ce0[i]) / (1e-9 + p.CE.row(i).norm()));
  for (int i = 0; i < p.lo.size(); ++i) if (p.lo[i] > -1e5) w = std::max(w, p.lo[i] - x[i]);
  for (int i = 0; i < p.hi.size(); ++i) if (p.hi[i] < 1e5) w = std::max(w, x[i] - p.hi[i]);
  return w;
}

// all inequality rows A x <= b, unit norm, bounds included
static void normRows(const Prob& p, Mat& A, Vec& b) {
  int n = (int)p.g.size(), m = (int)p.ci0.size();
  A.resize(m + 2 * n, n);
  b.resize(m + 2 * n);
  int k = 0;
  for (int i = 0; i < m; ++i) {
    double s = p.CI.row(i).norm();
    A.row(k) = -p.CI.row(i) / s;
    b[k++] = p.ci0[i] / s;
  }
  for (int i = 0; i < n; ++i) {
    if (p.lo.size() && p.lo[i] > -1e5) {
      A.row(k).setZero();
      A(k, i) = -1;
      b[k++] = -p.lo[i];
    }
    if (p.hi.size() && p.hi[i] < 1e5) {
      A.row(k).setZero();
      A(k, i) = 1;
      b[k++] = p.hi[i];
    }
  }
  A.conservativeResize(k, n);
  b.conservativeResize(k);
}

struct Feas {
  bool known;
  double margin;  // largest slack of a point that meets the equalities
  Vec x;
};
static Feas feasibility(const Prob& p) {
  int n = (int)p.g.size();
  Mat A;
  Vec b;
  normRows(p, A, b);
  Mat B(A.rows(), n + 1);
  B.leftCols(n) = A;
  B.col(n).setOnes();
  Mat E(p.CE.rows(), n + 1);
  Vec e = -p.ce0;
  E.setZero();
  for (int i = 0; i < p.CE.rows(); ++i) {
    double s = p.CE.row(i).norm();
    E.row(i).head(n) = p.CE.row(i) / s;
    e[i] /= s;
  }
  Vec c = Vec::Zero(n + 1);
  c[n] = -1;
  Vec lo = Vec::Constant(n + 1, -1e4), hi = Vec::Constant(n + 1, 1e4);
  hi[n] = 1;
  ora::LpResult l = ora::lp(c, B, b, lo, hi, E, e);
  Feas f{l.status == 1, 0, l.x.head(n)};
  f.margin = 1;
  for (int i = 0; i < A.rows(); ++i) f.margin = std::min(f.margin, b[i] - A.row(i).dot(f.x));
  double eq = 0;
  for (int i = 0; i < E.rows(); ++i) eq = std::max(eq, std::fabs(E.row(i).head(n).dot(f.x) - e[i]));
  if (l.status == 0) {  // the equalities contradict each other or the box
    f.known = true;
    f.margin = -1;
  } else if (eq > 1e-7 || std::fabs(f.margin - l.x[n]) > 1e-6)
    f.known = false;
  return f;
}

// certificate that x minimises 0.5 x'Hx+g'x (H may be 0): non-negative
// multipliers of the active rows reproduce the gradient
static double dualResidual(const Prob& p, const Vec& x, double actTol) {
  Mat A;
  Vec b;
  normRows(p, A, b);
  int n = (int)p.g.size();
  std::vector<Vec> cols;
  for (int i = 0; i < A.rows(); ++i)
    if (b[i] - A.row(i).dot(x) < actTol) cols.push_back(-A.row(i).transpose());
  for (int i = 0; i < p.CE.rows(); ++i) {
    Vec r = p.CE.row(i).transpose() / p.CE.row(i).norm();
    cols.push_back(r);
    cols.push_back(-r);
  }
  Vec gr = p.H * x + p.g;
  double sc = gr.norm();
  if (sc < 1e-300) return 0;
  if (cols.empty()) return sc;
  Mat G(n, cols.size());
  for (size_t i = 0; i < cols.size(); ++i) G.col(i) = cols[i];
  return sc * ora::nnls(G, gr / sc);
}

// A feasible point really better than x, or 0
static double provenImprovement(const Prob& p, const Vec& x) {
  Mat A;
  Vec b;
  normRows(p, A, b);
  Mat E = p.CE;
  Vec e = -p.ce0;
  for (int i = 0; i < E.rows(); ++i) {
    double s = E.row(i).norm();
    E.row(i) /= s;
    e[i] /= s;
  }
  Vec bt = b.array() - 1e-6;
  double f0 = 0.5 * x.dot(p.H * x) + p.g.dot(x);
  double sc = (1e-12 + std::fabs(f0) + 0.5 * std::fabs(x.dot(p.H * x)) + std::fabs(p.g.dot(x)) + p.hscale);
  ora::Subopt s = ora::suboptimality(p.H, p.g, A, bt, x, 1e-6 * sc, E, e, 200, 60);
  if (!s.known) return 0;
  return s.improvement / sc;
}

static void judgeQP(Ctx& c, const Prob& p, bool optimal, bool refusedDep, const Vec& x, double f, const char* who) {
  std::string pre = std::string(who) + ":";
  if (optimal) {
    if (!x.allFinite()) {
      c.fail(pre + "nan", "solution is not finite");
      return;
    }
    double sx = 1 + x.norm();
    if (!c.le(pre + "feasible", violation(p, x), 1e-6 * sx, "reported optimal but the point violates a constraint")) return;
    double fx = 0.5 * x.dot(p.H * x) + p.g.dot(x);
    double sf = std::fabs(0.5 * x.dot(p.H * x)) + std::fabs(p.g.dot(x)) + p.hscale;
    if (f == f) c.le(pre + "objective", std::fabs(f - fx), 1e-6 * sf, MON_STR("reported objective " << f << " but the point has " << fx));
    Vec gr = p.H * x + p.g;
    double res = dualResidual(p, x, 1e-6 * sx);
    if (res > 1e-6 * (gr.norm() + p.hscale)) {
      double imp = provenImprovement(p, x);
      c.ev(pre + "gradient-not-explained");
      c.le(pre + "optimal", imp, 2e-6, "a feasible point is better by (relative)");
    } else
      c.ev(pre + "optimality-certified");
    c.ev(pre + "optimal-verdicts");
  } else {
    c.ev(pre + (refusedDep ? "redundant-verdicts" : "refusals"));
    if (p.dependentEq) return;
    Feas fe = feasibility(p);
    if (!fe.known) {
      c.ev(pre + "feasibility-unknown");
      return;
    }
    if (fe.margin > 1e-4) c.fail(pre + "refused", MON_STR("refused although a point meets all constraints with margin " << fe.margin));
  }
}

// The active set and multipliers an object reports after success: they name
// distinct constraints which are tight, and certify the minimiser.
static void judgeCertificate(Ctx& c, const Prob& p, const QP& q, const Vec& x, const std::string& tag) {
  std::string pre = tag + ":";
  int me = (int)p.ce0.size(), mi = (int)p.ci0.size(), n = (int)p.g.size();
  int k = q.getActiveSetSize();
  if (k < me || k > me + mi || k > n || q.getActiveSet().size() < k || q.getLagrangeMultipliers().size() < k) {
    c.fail(pre + "active-size", MON_STR("active set of size " << k << " with " << n << " variables, " << me << " equalities and " << mi << " inequalities"));
    return;
  }
  Vec gr = p.H * x + p.g;
  double sx = 1 + x.norm(), scale = gr.norm() + p.hscale;
  Vec rest = gr;
  std::vector<bool> seen(me + mi, false);
  double worst = 0, neg = 0;
  for (int i = 0; i < k; ++i) {
    int id = q.getActiveSet()[i];
    bool eq = id < 0;
    int j = eq ? -id - 1 : id;
    if (j >= (eq ? me : mi) || eq != (i < me) || seen[eq ? j : me + j]) {
      c.fail(pre + "active-id", MON_STR("entry " << i << " of the active set is " << id));
      return;
    }
    seen[eq ? j : me + j] = true;
    Vec row = eq ? Vec(p.CE.row(j)) : Vec(p.CI.row(j));
    double u = q.getLagrangeMultipliers()[i], nr = row.norm();
    rest -= u * row;
    if (nr > 0) worst = std::max(worst, std::fabs(row.dot(x) + (eq ? p.ce0[j] : p.ci0[j])) / nr);
    if (!eq) neg = std::max(neg, -u * nr);
  }
  c.ev("certificates");
  c.mx("largest-active-set", k);
  c.le(pre + "active-tight", worst, 1e-6 * sx, "a constraint of the reported active set is not tight: distance");
  c.le(pre + "multiplier-sign", neg, 1e-6 * scale, "a reported multiplier is negative");
  c.le(pre + "multipliers", rest.norm(), 1e-5 * scale, "the reported multipliers leave a gradient of");
}
// A bound on the number of steps: never a wrong "optimal", and a refusal only
// when the bound was met.
static void C07limit(Ctx& c) {
  Rng& r = c.rng;
  Prob p = makeProb(r, 9, true, r.chance(0.7) ? 0 : 3, 0);
  int n = (int)p.g.size();
  c.caseDesc = p.desc() + " step limit";
  c.nontrivial(hashD(hashD(p.ci0.size() * 131 + p.ce0.size(), p.g[0]), p.H(0, 0)));
  QP a, b;
  bool sparse = r.chance(0.4);
  auto solve = [&](QP& q, Vec& x) {
    x = Vec::Zero(n);
    if (!sparse) return q.solve_quadprog(p.H, p.g, p.CE, p.ce0, p.CI, p.ci0, x);
    QP::SpMat Hs = p.H.sparseView();
    return q.solve_quadprog_sparse(Hs, p.g, p.CE, p.ce0, p.CI, p.ci0, x);
  };
  using namespace tsid::solvers;
  int def = a.getMaxIter(), lim = r.range(0, 12);
  if (a.setMaxIter(-1 - r.below(5)) || a.getMaxIter() != def) c.fail("limit:negative", "a negative step limit is accepted");
  if (!a.setMaxIter(lim) || a.getMaxIter() != lim) c.fail("limit:set", "the step limit is not the one set");
  Vec xa, xb;
  auto sa = solve(a, xa), sb = solve(b, xb);
  if (sa == EIQUADPROG_FAST_MAX_ITER_REACHED) {
    c.ev("step-limit-met");
    // without a limit the same object then answers as a fresh one
    a.setMaxIter(def);
    Vec xc;
    auto sc = solve(a, xc);
    if (sc != sb || (sb == EIQUADPROG_FAST_OPTIMAL && xc != xb)) c.fail("limit:after", "after a run stopped by its step limit the object answers differently from a fresh one");
  } else {
    c.ev("step-limit-not-met");
    if (sa != sb || (sb == EIQUADPROG_FAST_OPTIMAL && xa != xb)) c.fail("limit:answer", MON_STR("status " << sa << " with a step limit of " << lim << ", " << sb << " without"));
  }
  if (sb == EIQUADPROG_FAST_OPTIMAL) judgeCertificate(c, p, b, xb, "limit");
}

static void C07(Ctx& c) {
  static thread_local QP reused;  // lives across cases: sizes change all the time
  Rng& r = c.rng;
  double hr = r.chance(0.5) ? 0 : r.chance(0.7) ? 3 : 6, rr = r.chance(0.6) ? 0 : 2;
  Prob p = makeProb(r, 9, true, hr, rr);
  c.caseDesc = p.desc();
  c.sample(p.desc());
  c.nontrivial(hashD(hashD(p.ci0.size() * 131 + p.ce0.size(), p.g[0]), p.H(0, 0)));
  c.ev("kind:" + std::to_string(p.kind));
  int n = (int)p.g.size();
  auto solve = [&](QP& q, bool sparse, Vec& x, double& f) {
    x = Vec::Zero(n);
    tsid::solvers::EiquadprogFast_status s;
    if (sparse) {
      QP::SpMat Hs = p.H.sparseView();
      s = q.solve_quadprog_sparse(Hs, p.g, p.CE, p.ce0, p.CI, p.ci0, x);
    } else
      s = q.solve_quadprog(p.H, p.g, p.CE, p.ce0, p.CI, p.ci0, x);
    f = q.getObjValue();
    return s;
  };
  Vec x1, x2, x3;
  double f1, f2, f3;
  QP a, b;
  auto s1 = solve(a, false, x1, f1);
  auto s2 = solve(b, true, x2, f2);
  auto s3 = solve(reused, r.chance(0.3), x3, f3);
  using namespace tsid::solvers;
  judgeQP(c, p, s1 == EIQUADPROG_FAST_OPTIMAL, s1 == EIQUADPROG_FAST_REDUNDANT_EQUALITIES, x1, f1, "dense");
  if (c.caseFailed) return;
  judgeQP(c, p, s2 == EIQUADPROG_FAST_OPTIMAL, s2 == EIQUADPROG_FAST_REDUNDANT_EQUALITIES, x2, f2, "sparse");
  if (c.caseFailed) return;
  judgeQP(c, p, s3 == EIQUADPROG_FAST_OPTIMAL, s3 == EIQUADPROG_FAST_REDUNDANT_EQUALITIES, x3, f3, "reused");
  if (c.caseFailed) return;
  if (s1 == EIQUADPROG_FAST_OPTIMAL) judgeCertificate(c, p, a, x1, "dense");
  if (s2 == EIQUADPROG_FAST_OPTIMAL) judgeCertificate(c, p, b, x2, "sparse");
  if (s3 == EIQUADPROG_FAST_OPTIMAL) judgeCertificate(c, p, reused, x3, "reused");
  if (c.caseFailed) return;
  if (s1 == EIQUADPROG_FAST_OPTIMAL && s2 == s1) c.le("dense-vs-sparse", (x1 - x2).norm(), 1e-5 * (1 + x1.norm()), "dense and sparse minimisers differ");
  if (s1 == EIQUADPROG_FAST_OPTIMAL && s3 == s1) c.le("fresh-vs-reused", (x1 - x3).norm(), 1e-5 * (1 + x1.norm()), "fresh and reused objects differ");
  // same object, same problem again: exactly the same answer
  if (r.chance(0.3)) {
    Vec x4;
    double f4;
    auto s4 = solve(a, false, x4, f4);
    if (s4 != s1 || (s1 == EIQUADPROG_FAST_OPTIMAL && (x4 != x1 || f4 != f1))) c.fail("repeat", "the same object answers the same problem differently");
    c.ev("repeated");
  }
}
// One solver object answers a sequence of problems of one size in which a
// single ingredient changes at a time; a fresh object is the reference.
static void C07seq(Ctx& c) {
  Rng& r = c.rng;
  Prob p = makeProb(r, 8, true, 0, 0);
  int n = (int)p.g.size(), me = (int)p.ce0.size(), mi = (int)p.ci0.size();
  bool sparse = r.chance(0.4);
  QP obj;
  auto solve = [&](QP& q, Vec& x, double& f) {
    x = Vec::Zero(n);
    tsid::solvers::EiquadprogFast_status s;
    if (sparse) {
      QP::SpMat Hs = p.H.sparseView();
      s = q.solve_quadprog_sparse(Hs, p.g, p.CE, p.ce0, p.CI, p.ci0, x);
    } else
      s = q.solve_quadprog(p.H, p.g, p.CE, p.ce0, p.CI, p.ci0, x);
    f = q.getObjValue();
    return s;
  };
  int steps = r.range(3, 8);
  std::string hist;
  for (int k = 0; k < steps; ++k) {
    int what = k == 0 ? -1 : r.below(9);
    switch (what) {
      case 0: {  // off-diagonal terms only: diagonal, trace and scale stay
        Vec s = Vec::Ones(n);
        for (int i = 0; i < n; ++i) s[i] = r.chance(0.5) ? 1 : -1;
        p.H = (s.asDiagonal() * p.H * s.asDiagonal()).eval();
        break;
      }
      case 1: {  // diagonal permuted, same trace
        Mat P = Mat::Identity(n, n);
        if (n > 1) {
          int i = r.below(n), j = r.below(n);
          P.col(i).swap(P.col(j));
        }
        p.H = (P * p.H * P.transpose()).eval();
        break;
      }
      case 2: p.H *= r.uni(0.2, 5); break;
      case 3: p.g = rnd(r, n, 1) * r.uni(0.1, 6); break;
      case 4: if (mi) { int i = r.below(mi); p.ci0[i] += r.uni(-0.3, 1); } break;
      case 5: if (mi && n > 1) { int i = r.below(mi), a = r.below(n), b = r.below(n); std::swap(p.CI(i, a), p.CI(i, b)); } break;
      case 6: if (me) p.ce0 += 0.2 * rnd(r, me, 1); break;
      case 7: if (me) p.CE += 0.2 * rnd(r, me, n); break;
      case 8: {
        Mat M = rnd(r, n, n);
        p.H = M * M.transpose() / n + r.uni(0.05, 1) * Mat::Identity(n, n);
      }
    }
    if (what >= 4) p.planted = false;
    hist += MON_STR(" " << what);
    c.ev("mutation:" + std::to_string(what));
    Vec xo, xf;
    double fo, ff;
    QP fresh;
    auto so = solve(obj, xo, fo);
    auto sf = solve(fresh, xf, ff);
    c.caseDesc = p.desc() + (sparse ? " sparse" : " dense") + " mutations:" + hist;
    using namespace tsid::solvers;
    if (so != sf) {
      c.fail("sequence:status", MON_STR("the reused object answers status " << so << ", a fresh one " << sf));
      return;
    }
    if (so == EIQUADPROG_FAST_OPTIMAL) {
      if (!c.le("sequence:point", (xo - xf).norm(), 1e-7 * (1 + xf.norm()), "reused and fresh objects differ")) return;
      if (!c.le("sequence:objective", std::fabs(fo - ff), 1e-7 * (1 + std::fabs(ff)), "reused and fresh objects differ")) return;
    }
    if (k == steps - 1) judgeQP(c, p, so == EIQUADPROG_FAST_OPTIMAL, so == EIQUADPROG_FAST_REDUNDANT_EQUALITIES, xo, fo, "sequence");
  }
  c.sample(c.caseDesc);
}

static void C07all(Ctx& c) {
  double u = c.rng.uni(0, 1);
  if (u < 0.25)
    C07seq(c);
  else if (u < 0.35)
    C07limit(c);
  else
    C07(c);
}
static Reg r07("C07", C07all, 24000, 600000);

// ---------------------------------------------------------------- C08
static void C08(Ctx& c) {
  Rng& r = c.rng;
  bool lp = r.chance(0.6);
  Prob p = makeProb(r, r.chance(0.06) ? 60 : 8, !lp, lp ? 0 : (r.chance(0.5) ? 0 : 2), r.chance(0.7) ? 0 : 1.5);
  int n = (int)p.g.size();
  Vec cs = Vec::Ones(n);  // unit of each variable: forces in N next to metres
  bool colScaled = lp && r.chance(0.25), tinyRows = lp && !colScaled && r.chance(0.2);
  bool wild = tinyRows && r.chance(0.3);  // beyond what an unscaled simplex can represent: must answer, nothing more
  if (colScaled)
    for (int j = 0; j < n; ++j) {
      cs[j] = std::pow(10., r.uni(0, 3));
      p.CI.col(j) /= cs[j];
      p.CE.col(j) /= cs[j];
      p.g[j] /= cs[j];
    }
  if (tinyRows)
    for (int i = 0; i < p.ci0.size(); ++i)
      if (r.chance(0.6)) {
        double s = std::pow(10., wild ? r.uni(-9, 5) : r.uni(-3, 3));
        p.CI.row(i) *= s;
        p.ci0[i] *= s;
      }
  if (lp && r.chance(0.02)) {  // single-variable rows with tiny coefficients: the plain simplex never ends
    tinyRows = wild = true;
    colScaled = false;
    n = r.range(2, 6);
    p = Prob();
    p.H = Mat::Zero(n, n);
    p.g = -Vec::Ones(n);
    p.CE.resize(0, n);
    p.CI = Mat::Zero(n, n);
    p.ci0.resize(n);
    cs = Vec::Ones(n);
    for (int i = 0; i < n; ++i) {
      p.CI(i, i) = -std::pow(10., r.uni(-7.3, -6.7));
      p.ci0[i] = -p.CI(i, i) * r.uni(1, 5);
    }
    c.ev("lp-tiny-diagonal");
  }
  int bk = r.below(8);  // 0 none, 1 lower, 2 upper, 3 both, 4 mixed unbounded, 5 some equal, 6 some nearly equal, 7 far apart
  Feas f0 = feasibility(p);
  Vec cen = f0.known && f0.margin > 0 ? f0.x : Vec(Vec::Zero(n));
  auto lim = [&](int i, double s) {
    double away = r.chance(0.1) ? -0.3 : r.uni(0.05, 4);
    return cen[i] + s * away * cs[i];
  };
  if (bk == 1 || bk >= 3) {
    p.lo.resize(n);
    for (int i = 0; i < n; ++i) p.lo[i] = bk == 4 && r.chance(0.5) ? solvers::UNBOUNDED_DOWN : lim(i, -1);
  }
  if (bk >= 2) {
    p.hi.resize(n);
    for (int i = 0; i < n; ++i) p.hi[i] = bk == 4 && r.chance(0.5) ? solvers::UNBOUNDED_UP : lim(i, 1);
  }
  if (p.lo.size() && p.hi.size())
    for (int i = 0; i < n; ++i) {
      if (p.lo[i] > p.hi[i]) std::swap(p.lo[i], p.hi[i]);
      if (bk == 5 && r.chance(0.3)) {
        p.lo[i] = p.hi[i] = cen[i];
        c.ev("fixed-variables");
      }
      if (bk == 6 && r.chance(0.5)) {
        double gap = std::exp(r.uni(std::log(1e-5), std::log(3e-2))) * cs[i], u = r.uni();
        p.lo[i] = cen[i] - u * gap;
        p.hi[i] = cen[i] + (1 - u) * gap;
        c.ev("nearly-fixed-variables");
      }
      if (bk == 7 && r.chance(0.5)) {  // limits that matter, far below the value that means none
        p.lo[i] = -std::exp(r.uni(std::log(10.), std::log(9e4)));
        p.hi[i] = std::exp(r.uni(std::log(10.), std::log(9e4)));
        c.ev("far-limits");
      }
    }
  if (lp && r.chance(0.1)) {
    p.g.setZero();
    c.ev("zero-objective");
  }
  c.caseDesc = std::string(lp ? "lp " : "qp ") + p.desc() + MON_STR(" bounds=" << bk);
  c.sample(c.caseDesc);
  c.nontrivial(hashD(hashD(p.ci0.size() * 131 + p.ce0.size(), p.g[0]), n + 100 * bk));
  if (colScaled) c.ev("lp-scaled-columns");
  if (tinyRows) c.ev(wild ? "lp-wildly-scaled-rows" : "lp-scaled-rows");
  c.ev(std::string(lp ? "lp" : "qp") + "-bounds:" + std::to_string(bk));
  c.mx("largest-lp-entries", lp ? double(p.CI.size() + p.CE.size()) : 0);
  Vec init = rnd(r, n, 1);
  if (lp) {
    int how = r.below(3);
    bool ok;
    Vec x = init;
    double cost = 0;
    Mat A = -p.CI;
    Vec d = -p.ce0;
    if (how == 0) {
      solvers::ResultData res = solvers::solve(A, p.ci0, p.CE, d, p.H, p.g, init, p.lo, p.hi, solvers::SOLVER_GLPK);
      ok = res.success_;
      x = res.x;
      cost = res.cost_;
    } else if (how == 1) {
      bezier_com_traj::ResultData res = bezier_com_traj::solve(std::make_pair(A, p.ci0), std::make_pair(p.CE, d), std::make_pair(p.H, p.g), p.lo, p.hi, init, solvers::SOLVER_GLPK);
      ok = res.success_;
      x = res.x;
      cost = res.cost_;
    } else {
      ok = solvers::solveglpk(p.g, p.CE, d, A, p.ci0, p.lo, p.hi, x, cost) == GLP_OPT;
    }
    Mat N;
    Vec nb;
    normRows(p, N, nb);
    if (ok) {
      c.ev("lp-solved");
      if (x.size() != n) {
        c.fail("lp:size", "solution has the wrong size");
        return;
      }
      double sx = 1 + x.norm();
      if (wild) return;
      // in the rows' own units: what the simplex promises
      double w = 0;
      for (int i = 0; i < p.ci0.size(); ++i) w = std::max(w, -(p.CI.row(i).dot(x) + p.ci0[i]) / (1 + std::fabs(p.ci0[i])));
      for (int i = 0; i < p.ce0.size(); ++i) w = std::max(w, std::fabs(p.CE.row(i).dot(x) + p.ce0[i]) / (1 + std::fabs(p.ce0[i])));
      if (!c.le("lp:rows", w, 1e-5, "reported solved but a row is violated")) return;
      if (!tinyRows && !c.le("lp:feasible", violation(p, x), 2e-5 * sx, "reported solved but a constraint is violated")) return;
      c.le("lp:objective", std::fabs(cost - p.g.dot(x)), 1e-7 * (1 + std::fabs(cost) + p.g.norm() * x.norm()), "reported objective is not the point's");
      if (tinyRows) return;  // a violation within the simplex' tolerance moves the point a lot
      double res = dualResidual(p, x, 1e-5 * sx);
      if (res > 1e-6 * (1 + p.g.norm())) {
        Vec bt = nb.array() - 1e-5;
        Vec e = -p.ce0;
        ora::LpResult l = ora::lp(p.g, N, bt, x.array() - 50, x.array() + 50, p.CE, e);
        if (l.status == 1) c.le("lp:optimal", p.g.dot(x) - l.obj, 1e-6 * (1 + std::fabs(l.obj) + p.g.norm() * sx), "a feasible point is better by");
      } else
        c.ev("lp-optimality-certified");
    } else {
      c.ev("lp-refused");
      Vec lo = Vec::Constant(n, NAN), hi = lo, e = -p.ce0;
      ora::LpResult l = ora::lp(p.g, N, nb, lo, hi, p.CE, e);
      // wrong only if an optimum is certified with room to spare
      if (l.status == 1 && !tinyRows) {
        Feas f = feasibility(p);
        bool fixed = false;
        for (int i = 0; i < p.lo.size() && p.hi.size(); ++i) fixed |= p.lo[i] == p.hi[i];
        if ((f.known && f.margin > 1e-5) || (fixed && violation(p, l.x) < 1e-9)) c.fail("lp:refused", MON_STR("refused although an optimum exists, margin " << f.margin));
        c.ev("lp-refusal-checked");
      }
    }
    return;
  }
  // QP through the common entry points
  Mat A = -p.CI;
  Vec d = -p.ce0;
  int how = r.below(2);
  solvers::ResultData res;
  if (how == 0)
    res = solvers::solve(A, p.ci0, p.CE, d, p.H, p.g, init, p.lo, p.hi, solvers::SOLVER_QUADPROG);
  else if (p.ce0.size() == 0 && !p.lo.size() && !p.hi.size()) {
    res = bezier_com_traj::solve(std::make_pair(A, p.ci0), std::make_pair(p.H, p.g), init);
    c.ev("qp-short-form");
  } else
    res = bezier_com_traj::solve(std::make_pair(A, p.ci0), std::make_pair(p.CE, d), std::make_pair(p.H, p.g), p.lo, p.hi, init, solvers::SOLVER_QUADPROG);
  if (!res.success_ && n > 60) {
    c.ev("qp-large-refused");  // the 1000 active-set steps of the solver may not be enough
    return;
  }
  judgeQP(c, p, res.success_, false, res.x, res.cost_, "front-end");
}
static Reg r08("C08", C08, 12000, 300000);
