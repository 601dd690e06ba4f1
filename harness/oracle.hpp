// Independent mathematics the monitors compare the library with.  Nothing here
// calls the library under test: Bezier curves come from Hermite boundary data,
// wrenches from Newton-Euler, cones from the contact generators.
#pragma once
#include <glpk.h>

#include <Eigen/Dense>
#include <algorithm>
#include <vector>

#include "core.hpp"

namespace ora {
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

inline M3 cross(const V3& v) {
  M3 m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}
inline double binom(int n, int k) {
  double r = 1;
  for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1);
  return r;
}

// ---------- Bezier curves whose control points are affine in the unknown y:
// P_i = a_i (x) I3 . y + s_i, with one scalar per free point.
struct AffPt {
  Vec a;  // one coefficient per free control point
  V3 s;
  AffPt operator-(const AffPt& o) const { return {a - o.a, s - o.s}; }
};
inline AffPt operator*(double k, const AffPt& p) { return {k * p.a, k * p.s}; }
inline AffPt operator+(const AffPt& p, const AffPt& q) { return {p.a + q.a, p.s + q.s}; }
inline V3 apply(const AffPt& p, const Vec& y) {
  V3 r = p.s;
  for (int i = 0; i < p.a.size(); ++i) r += p.a[i] * y.segment<3>(3 * i);
  return r;
}
inline Mat coefMat(const AffPt& p) {
  Mat m = Mat::Zero(3, 3 * p.a.size());
  for (int i = 0; i < p.a.size(); ++i) m.block<3, 3>(0, 3 * i) = p.a[i] * M3::Identity();
  return m;
}

struct Curve {
  std::vector<AffPt> P;
  double T = 1;
  int degree() const { return (int)P.size() - 1; }
  Curve derivative() const {
    Curve d;
    d.T = T;
    int n = degree();
    for (int i = 0; i < n; ++i) d.P.push_back((n / T) * (P[i + 1] - P[i]));
    return d;
  }
  Curve derivative(int k) const {
    Curve d = *this;
    for (int i = 0; i < k; ++i) d = d.derivative();
    return d;
  }
  AffPt at(double t) const {
    double u = t / T;
    std::vector<AffPt> q = P;
    for (size_t k = q.size() - 1; k > 0; --k)
      for (size_t i = 0; i < k; ++i) q[i] = (1 - u) * q[i] + u * q[i + 1];
    return q[0];
  }
  AffPt at(double t, int k) const { return derivative(k).at(t); }
};

// Hermite data -> control points.
inline Curve hermite(const std::vector<V3>& init, const std::vector<V3>& fin, int degree, double T) {
  int n = degree, nf = n + 1 - (int)init.size() - (int)fin.size();
  Curve c;
  c.T = T;
  auto fact = [](int n, int j) {  // (n-j)!/n!
    double r = 1;
    for (int i = 0; i < j; ++i) r /= (n - i);
    return r;
  };
  c.P.assign(n + 1, AffPt{Vec::Zero(nf), V3::Zero()});
  for (int k = 0; k < (int)init.size(); ++k)
    for (int j = 0; j <= k; ++j) c.P[k].s += binom(k, j) * fact(n, j) * std::pow(T, j) * init[j];
  for (int k = 0; k < (int)fin.size(); ++k)
    for (int j = 0; j <= k; ++j)
      c.P[n - k].s += (j % 2 ? -1. : 1.) * binom(k, j) * fact(n, j) * std::pow(T, j) * fin[j];
  for (int i = 0; i < nf; ++i) c.P[init.size() + i].a[i] = 1;
  return c;
}
// degree 3, starts at (c0, dc0), ends at rest at the free point
inline Curve stopCurve(const V3& c0, const V3& dc0, double T) {
  Curve c;
  c.T = T;
  Vec z = Vec::Zero(1), o = Vec::Ones(1);
  c.P = {{z, c0}, {z, c0 + dc0 * T / 3}, {o, V3::Zero()}, {o, V3::Zero()}};
  return c;
}

// mass-normalised wrench minus gravity terms, w = [ddc ; c x ddc + g x c],
// affine in x when there is one free point.
struct AffW {
  Mat A;  // 6 x 3
  Vec b;  // 6
};
inline AffW wrench(const Curve& c, const Curve& ddc, const V3& g, double t) {
  AffPt p = c.at(t), q = ddc.at(t);
  double a = p.a[0], al = q.a[0];
  AffW w{Mat::Zero(6, 3), Vec::Zero(6)};
  w.A.topRows(3) = al * M3::Identity();
  w.A.bottomRows(3) = -a * cross(q.s) + al * cross(p.s) + a * cross(g);
  w.b.head(3) = q.s;
  w.b.tail(3) = p.s.cross(q.s) + g.cross(p.s);
  return w;
}

// Control points, on [t0,t1], of the degree-d polynomial f (values: matrices),
// by interpolation at Chebyshev nodes.
template <class F>
std::vector<Mat> bernstein(int d, double t0, double t1, F f) {
  Mat B(d + 1, d + 1);
  std::vector<Mat> v;
  for (int k = 0; k <= d; ++k) {
    double u = d == 0 ? 0.5 : 0.5 - 0.5 * std::cos(M_PI * k / d);
    for (int i = 0; i <= d; ++i) B(k, i) = binom(d, i) * std::pow(u, i) * std::pow(1 - u, d - i);
    v.push_back(f(t0 + u * (t1 - t0)));
  }
  Mat Bi = B.inverse();
  std::vector<Mat> r;
  for (int i = 0; i <= d; ++i) {
    Mat m = Mat::Zero(v[0].rows(), v[0].cols());
    for (int k = 0; k <= d; ++k) m += Bi(i, k) * v[k];
    r.push_back(m);
  }
  return r;
}

// ---------- linear inequality systems A x <= b
struct Rows {
  Mat A;
  Vec b;
  std::vector<int> tag, grp;  // kind of row; rows of one instant or control point
  int g = 0;
  int n = 0;
  explicit Rows(int dim = 3) : A(64, dim), b(64) {}
  void add(const Eigen::RowVectorXd& a, double v, int t = 0) {
    if (n == A.rows()) {
      A.conservativeResize(2 * n, A.cols());
      b.conservativeResize(2 * n);
    }
    A.row(n) = a;
    b[n++] = v;
    tag.push_back(t);
    grp.push_back(g);
  }
  void add(const Mat& M, const Vec& v, int t = 0) {
    for (int i = 0; i < M.rows(); ++i) add(Eigen::RowVectorXd(M.row(i)), v[i], t);
  }
  void group(const Mat& M, const Vec& v, int t) {
    ++g;
    add(M, v, t);
  }
  void fit() {
    A.conservativeResize(n, A.cols());
    b.conservativeResize(n);
  }
};

// LP through GLPK directly: min c.x  s.t. A x <= b, lo <= x <= hi (NaN = none)
struct LpResult {
  int status = 0;  // 1 optimal, 0 infeasible, -1 unbounded, -2 unknown
  Vec x;
  double obj = 0;
};
inline LpResult lp(const Vec& c, const Mat& A, const Vec& b, const Vec& lo, const Vec& hi,
                   const Mat& E = Mat(), const Vec& e = Vec()) {
  LpResult r;
  int m = (int)A.rows(), n = (int)c.size(), me = (int)E.rows();
  glp_prob* p = glp_create_prob();
  glp_set_obj_dir(p, GLP_MIN);
  if (m + me > 0) glp_add_rows(p, m + me);
  glp_add_cols(p, n);
  std::vector<int> ia(1), ja(1);
  std::vector<double> ar(1);
  for (int i = 0; i < m; ++i) {
    glp_set_row_bnds(p, i + 1, GLP_UP, 0, b[i]);
    for (int j = 0; j < n; ++j)
      if (A(i, j) != 0) ia.push_back(i + 1), ja.push_back(j + 1), ar.push_back(A(i, j));
  }
  for (int i = 0; i < me; ++i) {
    glp_set_row_bnds(p, m + i + 1, GLP_FX, e[i], e[i]);
    for (int j = 0; j < n; ++j)
      if (E(i, j) != 0) ia.push_back(m + i + 1), ja.push_back(j + 1), ar.push_back(E(i, j));
  }
  for (int j = 0; j < n; ++j) {
    bool L = lo.size() && lo[j] == lo[j], H = hi.size() && hi[j] == hi[j];
    int ty = L && H ? (lo[j] == hi[j] ? GLP_FX : GLP_DB) : L ? GLP_LO : H ? GLP_UP : GLP_FR;
    glp_set_col_bnds(p, j + 1, ty, L ? lo[j] : 0, H ? hi[j] : 0);
    glp_set_obj_coef(p, j + 1, c[j]);
  }
  glp_load_matrix(p, (int)ia.size() - 1, ia.data(), ja.data(), ar.data());
  glp_smcp o;
  glp_init_smcp(&o);
  o.msg_lev = GLP_MSG_OFF;
  o.it_lim = 200000;
  glp_simplex(p, &o);
  int s = glp_get_status(p);
  r.status = s == GLP_OPT ? 1 : s == GLP_NOFEAS ? 0 : s == GLP_UNBND ? -1 : -2;
  r.x = Vec::Zero(n);
  for (int j = 0; j < n; ++j) r.x[j] = glp_get_col_prim(p, j + 1);
  r.obj = glp_get_obj_val(p);
  glp_delete_prob(p);
  glp_free_env();
  return r;
}

// Largest s with A x + |A_i| s <= b.  `margin` is re-evaluated at x, so a
// positive margin is a constructive feasibility proof.
struct Margin {
  bool known = false;
  double margin = 0;  // capped at 1
  Vec x;
};
inline double marginAt(const Rows& R, const Vec& x, double tiny = 1e-9) {
  double s = 1;
  for (int i = 0; i < R.n; ++i) {
    double nr = R.A.row(i).norm();
    double sl = R.b[i] - R.A.row(i).dot(x);
    if (nr < tiny)
      s = std::min(s, sl < -1e-9 ? -1. : 1.);
    else
      s = std::min(s, sl / nr);
  }
  return s;
}
inline Margin bestMargin(const Rows& R, double box = 1e3) {
  int d = (int)R.A.cols();
  Mat A(R.n, d + 1);
  Vec b(R.n);
  int n = 0;
  bool dead = false;
  for (int i = 0; i < R.n; ++i) {
    double nr = R.A.row(i).norm();
    if (nr < 1e-9) {
      if (R.b[i] < -1e-9) dead = true;
      continue;
    }
    A.row(n).head(d) = R.A.row(i) / nr;
    A(n, d) = 1;
    b[n++] = R.b[i] / nr;
  }
  Margin m;
  if (dead) {
    m.known = true;
    m.margin = -1;
    m.x = Vec::Zero(d);
    return m;
  }
  A.conservativeResize(n, d + 1);
  b.conservativeResize(n);
  Vec c = Vec::Zero(d + 1), lo = Vec::Constant(d + 1, -box), hi = Vec::Constant(d + 1, box);
  c[d] = -1;
  hi[d] = 1;
  lo[d] = -1e9;
  // few columns, many rows: add the most violated rows until none is
  std::vector<int> in;
  std::vector<char> used(n, 0);
  for (int i = 0; i < n; i += std::max(1, n / 24)) in.push_back(i), used[i] = 1;
  LpResult r;
  bool done = false;
  for (int round = 0; round < 60 && !done; ++round) {
    Mat As(in.size(), d + 1);
    Vec bs(in.size());
    for (size_t k = 0; k < in.size(); ++k) As.row(k) = A.row(in[k]), bs[k] = b[in[k]];
    r = lp(c, As, bs, lo, hi);
    if (r.status != 1) return m;
    Vec v = A * r.x - b;
    std::vector<std::pair<double, int>> w;
    for (int i = 0; i < n; ++i)
      if (!used[i] && v[i] > 1e-9) w.push_back({-v[i], i});
    std::sort(w.begin(), w.end());
    done = w.empty();
    for (size_t k = 0; k < w.size() && k < 12; ++k) in.push_back(w[k].second), used[w[k].second] = 1;
  }
  if (!done) return m;
  m.x = r.x.head(d);
  m.margin = marginAt(R, m.x);
  m.known = m.margin > r.x[d] - 1e-6 * (1 + std::fabs(r.x[d]));
  // the best point found is held back by the box: infeasibility is not shown
  if (m.known && m.margin < 0 && m.x.cwiseAbs().maxCoeff() > 0.999 * box) {
    if (box < 5e4) return bestMargin(R, 1e5);
    m.known = false;
  }
  return m;
}

// Moves t from a value at which A x <= b + t db can be met towards `toward` as
// far as it stays so (rows of group `skip`, or row `skipRow`, left out).
struct Extreme {
  bool known = false;
  double t = 0;
  Vec x;
  std::vector<int> active;  // rows that stop it
};
inline Extreme extreme(const Rows& R, const Vec& db, double from, double toward, int skip = -1, int skipRow = -1) {
  int d = (int)R.A.cols(), n = 0;
  Mat A(R.n, d + 1);
  Vec b(R.n);
  std::vector<int> id;
  for (int i = 0; i < R.n; ++i) {
    if (R.grp[i] == skip || i == skipRow) continue;
    double nr = R.A.row(i).norm();
    if (nr < 1e-9) nr = std::fabs(db[i]);
    if (nr < 1e-12) continue;
    A.row(n).head(d) = R.A.row(i) / nr;
    A(n, d) = -db[i] / nr;
    b[n++] = R.b[i] / nr;
    id.push_back(i);
  }
  A.conservativeResize(n, d + 1);
  b.conservativeResize(n);
  Vec c = Vec::Zero(d + 1), lo = Vec::Constant(d + 1, -1e3), hi = Vec::Constant(d + 1, 1e3);
  c[d] = toward > from ? -1 : 1;
  lo[d] = std::min(from, toward);
  hi[d] = std::max(from, toward);
  Extreme e;
  std::vector<int> in;
  std::vector<char> used(n, 0);
  for (int i = 0; i < n; i += std::max(1, n / 24)) in.push_back(i), used[i] = 1;
  for (int round = 0; round < 60; ++round) {
    Mat As(in.size(), d + 1);
    Vec bs(in.size());
    for (size_t k = 0; k < in.size(); ++k) As.row(k) = A.row(in[k]), bs[k] = b[in[k]];
    LpResult r = lp(c, As, bs, lo, hi);
    if (r.status != 1) return e;
    Vec v = A * r.x - b;
    std::vector<std::pair<double, int>> w;
    for (int i = 0; i < n; ++i)
      if (!used[i] && v[i] > 1e-9) w.push_back({-v[i], i});
    std::sort(w.begin(), w.end());
    if (w.empty()) {
      e.known = true;
      e.t = r.x[d];
      e.x = r.x.head(d);
      for (int i = 0; i < n; ++i)
        if (v[i] > -1e-7) e.active.push_back(id[i]);
      return e;
    }
    for (size_t k = 0; k < w.size() && k < 12; ++k) in.push_back(w[k].second), used[w[k].second] = 1;
  }
  return e;
}

// Frank-Wolfe certificate for  min 0.5 x'Hx + g'x, A x <= b, E x = e.
// Returns an upper bound on how much better the best point is (gap), and, in
// `better`, a feasible point actually found with lower cost.
struct Subopt {
  bool known = false;
  double gap = 0, improvement = 0;
  Vec better;
};
inline Subopt suboptimality(const Mat& H, const Vec& g, const Mat& A, const Vec& b, const Vec& x0, double tol,
                            const Mat& E = Mat(), const Vec& e = Vec(), double box = 50, int iters = 300) {
  Subopt r;
  Vec x = x0;
  auto f = [&](const Vec& v) { return 0.5 * v.dot(H * v) + g.dot(v); };
  double f0 = f(x0);
  Vec lo = x0.array() - box, hi = x0.array() + box;
  r.better = x0;
  for (int k = 0; k < iters; ++k) {
    Vec gr = H * x + g;
    double sc = gr.norm();
    if (sc < 1e-300) sc = 1;
    LpResult l = lp(gr / sc, A, b, lo, hi, E, e);
    if (l.status != 1) return r;
    double gap = gr.dot(x - l.x);
    if (k == 0) {
      r.gap = gap;
      r.known = true;
      if (gap <= tol) return r;
    }
    if (gap <= tol * 0.1) break;
    Vec d = l.x - x;
    double q = d.dot(H * d), st = q > 0 ? std::min(1., gap / q) : 1.;
    x += st * d;
    r.improvement = f0 - f(x);
    r.better = x;
    if (r.improvement > 10 * tol) break;
  }
  return r;
}

// Lawson-Hanson non-negative least squares; returns min |G z - y|.
inline double nnls(const Mat& G, const Vec& y, Vec* zout = nullptr) {
  int n = (int)G.cols();
  Vec z = Vec::Zero(n);
  std::vector<char> P(n, 0);
  Vec w = G.transpose() * y;
  double tol = 1e-10 * G.norm() * (1 + y.norm());
  auto ls = [&](Vec& s) {
    std::vector<int> id;
    for (int i = 0; i < n; ++i)
      if (P[i]) id.push_back(i);
    Mat Gp(G.rows(), id.size());
    for (size_t k = 0; k < id.size(); ++k) Gp.col(k) = G.col(id[k]);
    Vec sp = Gp.colPivHouseholderQr().solve(y);
    s = Vec::Zero(n);
    for (size_t k = 0; k < id.size(); ++k) s[id[k]] = sp[k];
  };
  for (int it = 0; it < 30 * n; ++it) {
    int j = -1;
    double bw = tol;
    for (int i = 0; i < n; ++i)
      if (!P[i] && w[i] > bw) bw = w[i], j = i;
    if (j < 0) break;
    P[j] = 1;
    Vec s;
    ls(s);
    for (int in = 0; in < 3 * n; ++in) {
      double al = 1;
      int k = -1;
      for (int i = 0; i < n; ++i)
        if (P[i] && s[i] <= 0) {
          double a = z[i] / (z[i] - s[i]);
          if (k < 0 || a < al) al = a, k = i;
        }
      if (k < 0) break;
      z += al * (s - z);
      for (int i = 0; i < n; ++i)
        if (P[i] && z[i] <= 1e-14) P[i] = 0, z[i] = 0;
      ls(s);
    }
    z = s.cwiseMax(0);
    w = G.transpose() * (y - G * z);
  }
  if (zout) *zout = z;
  return (G * z - y).norm();
}
}  // namespace ora
