// Time sampling (C14) and the arithmetic helpers (C19).
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/utils.hh>

#include "gen.hpp"
using namespace gen;
using namespace mon;

namespace {
// ------------------------------------------------------------------ C14
double drawDuration(Rng& r) {
  switch (r.below(5)) {
    case 0: return 0.1 * r.range(1, 30);            // friendly decimals
    case 1: return r.range(1, 5);
    case 2: return std::exp(r.uni(-5, 4));
    case 3: return 1. / r.range(3, 40);
    default: return r.uni(0.2, 2);
  }
}
void C14(Ctx& c) {
  Rng& r = c.rng;
  const int n = r.chance(0.2) ? 1 : r.range(1, r.chance(0.2) ? 25 : 6);
  Vec Ts(n);
  const bool equal = r.chance(0.25);
  const double d0 = drawDuration(r);
  for (int i = 0; i < n; ++i) Ts[i] = equal ? d0 : drawDuration(r);
  const bool fixed = r.chance(0.5);
  const int ppp = r.chance(0.1) ? r.range(50, 400) : r.range(1, 20);
  const double mn = Ts.minCoeff();
  double dt = 0;
  switch (r.below(5)) {
    case 0: dt = mn / r.range(2, 40); break;        // divides a phase exactly
    case 1: dt = 0.05; break;
    case 2: dt = 0.1; break;
    case 3: dt = 0.01; break;
    default: dt = mn / r.uni(2, 40);
  }
  if (2 * dt > mn) dt = mn / 2.5;
  if (Ts.sum() / dt > 20000) dt = Ts.sum() / 20000;
  if (2 * dt > mn) {
    c.ev("skipped-step-too-long");
    return;
  }
  c.caseDesc = MON_STR((fixed ? "fixed " : "step ") << (fixed ? (double)ppp : dt) << " Ts=" << Ts.transpose());
  const T_time a = fixed ? computeDiscretizedTimeFixed(Ts, (unsigned)ppp) : computeDiscretizedTime(Ts, dt);
  std::vector<double> end(n);
  double acc = 0;
  for (int i = 0; i < n; ++i) end[i] = (acc += Ts[i]);
  const double T = acc, eps = 1e-14 * T * (1 + a.size());
  if (a.empty()) {
    c.fail("empty", "no sampling instant");
    return;
  }
  if (a.front().first != 0 || a.front().second != 0) c.fail("start", MON_STR("starts at " << a.front().first << " in phase " << a.front().second));
  if (a.back().second != n - 1) c.fail("end-label", MON_STR("ends in phase " << a.back().second));
  // "exactly": whichever order the durations are summed in
  if (a.back().first != T && a.back().first != Ts.sum()) c.fail("end", MON_STR("ends at T + " << a.back().first - T));
  std::vector<int> count(n, 0);
  std::vector<char> sw(n, 0), first(n, 0);
  for (size_t k = 0; k < a.size(); ++k) {
    const double t = a[k].first;
    const int p = a[k].second;
    if (p < 0 || p >= n) {
      c.fail("label", MON_STR("instant " << k << " is labelled " << p));
      return;
    }
    const double s = p ? end[p - 1] : 0;
    if (!(t >= s - eps && t <= end[p] + eps)) c.fail("label", MON_STR("instant " << k << " at " << t << " is labelled with phase " << p << " = [" << s << "," << end[p] << "]"));
    count[p]++;
    if (std::fabs(t - end[p]) <= eps) sw[p] = 1;
    if (std::fabs(t - s) <= eps) first[p] = 1;
    if (k) {
      const double g = t - a[k - 1].first;
      if (!(g >= 0)) c.fail("decreases", MON_STR("instant " << k << " at " << t << " after " << a[k - 1].first));
      if (a[k - 1].second > p) c.fail("label-order", MON_STR("phase " << p << " after phase " << a[k - 1].second));
      // a change of label happens at the switch itself: the gap before the
      // first instant of a phase is a gap inside that phase when sampling by count
      const double want = fixed ? Ts[p] / ppp : dt;
      if (a[k - 1].second == p || fixed) c.le("gap", g, want * (1 + 1e-9) + eps, MON_STR("gap before instant " << k));
      else if (g > eps) c.fail("switch-twice", MON_STR("the switch at " << end[a[k - 1].second] << " is not listed for both phases"));
    }
  }
  for (int i = 0; i < n; ++i) {
    if (!sw[i]) c.fail("switch", MON_STR("the end of phase " << i << " is not sampled for it"));
    if (!fixed && !first[i]) c.fail("switch-twice", MON_STR("the start of phase " << i << " is not sampled for it"));
    if (fixed && count[i] != ppp + (i == 0)) c.fail("count", MON_STR("phase " << i << " has " << count[i] << " instants instead of " << ppp + (i == 0)));
  }
  c.ev("instants", (long)a.size());
  c.ev(fixed ? "fixed" : "step");
  c.ev("switches", n - 1);
  uint64_t h = hashD(hashMix(fixed, ppp), dt);
  for (int i = 0; i < n; ++i) h = hashD(h, Ts[i]);
  c.nontrivial(h);
  if (c.caseId < 20) c.sample(c.caseDesc);
}
Reg r14("C14", C14, 40000, 1000000);

// ------------------------------------------------------------------ C19
double entry(Rng& r) {
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return r.range(-3, 3);
    case 2: return r.gauss() * std::exp(r.uni(-20, 20));
    default: return r.uni(-2, 2);
  }
}
void normalise(Ctx& c) {
  Rng& r = c.rng;
  const int n = r.chance(0.15) ? 1 : r.range(1, 40), m = r.range(1, 9);
  Mat A(n, m);
  Vec b(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < m; ++j) A(i, j) = entry(r);
    b[i] = r.chance(0.2) ? 0 : entry(r) + 0;
    if (r.chance(0.2)) {
      A.row(i).setZero();
      if (r.chance(0.3)) A.row(i) *= -1;  // -0 is zero too
      b[i] = r.chance(0.3) ? 0 : std::fabs(entry(r));
    }
    if (r.chance(0.15) && i) {
      A.row(i) = A.row(r.below(i));
      if (r.chance(0.5)) A.row(i) *= 3;
    }
  }
  bool falseRow = r.chance(0.15);
  if (falseRow) {
    const int i = r.below(n);
    A.row(i).setZero();
    b[i] = r.chance(0.5) ? -r.uni(0, 2) - 1e-12 : -1e-14;
  }
  falseRow = false;
  for (int i = 0; i < n; ++i) falseRow |= (A.row(i).array() == 0).all() && b[i] < 0;
  c.caseDesc = MON_STR("Normalize " << n << "x" << m << (falseRow ? " with a false row" : ""));
  Mat A0 = A;
  Vec b0 = b;
  // as the library calls it: on blocks of larger matrices as well
  Mat big = Mat::Constant(n + 4, m + 2, 7.25);
  const bool block = r.chance(0.4);
  int k;
  if (block) {
    big.block(2, 1, n, m) = A;
    k = Normalize(big.block(2, 1, n, m), b);
    A = big.block(2, 1, n, m);
    Mat frame = big;
    frame.block(2, 1, n, m).setConstant(7.25);
    if (!(frame.array() == 7.25).all()) c.fail("normalise-outside", "entries outside the given block were changed");
  } else
    k = Normalize(A, b);
  if (falseRow) {
    c.ev("normalise-false-row");
    if (k != -1) c.fail("normalise-false", MON_STR("a trivially false row was answered by " << k));
    return;
  }
  int nz = 0;
  for (int i = 0; i < n; ++i) nz += !(A0.row(i).array() == 0).all();
  if (k < 0 || k > n) {
    c.fail("normalise-count", MON_STR("returned " << k << " for a system of " << n << " rows, " << nz << " of them non-zero"));
    return;
  }
  // same half-spaces, as sets
  std::vector<char> used(n, 0);
  for (int i = 0; i < k; ++i) {
    c.le("normalise-unit", std::fabs(A.row(i).norm() - 1), 1e-12, MON_STR("norm of row " << i));
    bool found = false;
    for (int j = 0; j < n; ++j) {
      const double nn = A0.row(j).norm();
      if (nn == 0) continue;
      if ((A.row(i) - A0.row(j) / nn).norm() < 1e-12 && std::fabs(b[i] - b0[j] / nn) <= 1e-12 * (1 + std::fabs(b0[j] / nn))) found = true, used[j] = 1;
    }
    if (!found) c.fail("normalise-invented", MON_STR("row " << i << " is none of the original inequalities"));
  }
  for (int j = 0; j < n; ++j)
    if (A0.row(j).norm() > 0 && !used[j]) c.fail("normalise-lost", MON_STR("inequality " << j << " is no more among the first " << k << " rows"));
  for (int i = k; i < n; ++i)
    if (!(A.row(i).array() == 0).all() || b[i] < 0) c.fail("normalise-apart", MON_STR("row " << i << " set apart is not trivially true"));
  c.ev("normalise-rows", n);
  c.ev("normalise-zero-rows", n - nz);
}
waypoint_t wp(Rng& r, int rows, int cols) {
  Mat A(rows, cols);
  Vec b(rows);
  for (int i = 0; i < rows; ++i) {
    for (int j = 0; j < cols; ++j) A(i, j) = r.uni(-3, 3);
    b[i] = r.uni(-3, 3);
  }
  if (r.chance(0.1)) A.setZero();
  if (r.chance(0.1)) b.setZero();
  return waypoint_t(A, b);
}
void affine(Ctx& c) {
  Rng& r = c.rng;
  const int rows = r.range(1, 6), cols = r.range(1, 15);
  c.caseDesc = MON_STR("affine " << rows << "x" << cols);
  const waypoint_t a = wp(r, rows, cols), b = wp(r, rows, cols);
  const double k = r.chance(0.1) ? 0. : r.uni(-4, 4);
  Vec x(cols);
  for (int i = 0; i < cols; ++i) x[i] = r.uni(-2, 2);
  auto val = [&](const waypoint_t& w) { return Vec(w.first * x + w.second); };
  auto cmp = [&](const std::string& what, const waypoint_t& w, const Vec& want) {
    if (w.first.rows() != rows || w.first.cols() != cols || w.second.size() != rows) return c.fail("affine-size", what + " has another size");
    c.le("affine", (val(w) - want).norm(), 1e-11, what);
  };
  cmp("sum", a + b, val(a) + val(b));
  cmp("difference", a - b, val(a) - val(b));
  cmp("left scaling", k * a, k * val(a));
  cmp("right scaling", a * k, k * val(a));
  cmp("self sum", a + a, 2 * val(a));
  cmp("self difference", a - a, Vec::Zero(rows));
  waypoint_t d = a;
  d = d + 2. * b - d * 0.5;
  cmp("combination", d, 0.5 * val(a) + 2 * val(b));
  if ((int)a.size() != rows) c.fail("affine-size", "size() of an expression");
  if (!(a == a) || a != a) c.fail("affine-equal", "an expression differs from itself");
  waypoint_t e = a;
  if (r.chance(0.5)) e.first(r.below(rows), r.below(cols)) += 0.25;
  else e.second[r.below(rows)] += 0.25;
  if (e == a || !(e != a)) c.fail("affine-equal", "different expressions compare equal");
  {  // the two parts have units of their own
    waypoint_t u = a;
    u.first *= std::pow(10., r.uni(-7, 7));
    u.second *= std::pow(10., r.uni(-7, 7));
    waypoint_t v = u;
    if (r.chance(0.5)) v.first(r.below(rows), r.below(cols)) += 0.01 * u.first.norm();
    else v.second[r.below(rows)] += 0.01 * u.second.norm();
    if (!(u == waypoint_t(u)) || u != waypoint_t(u)) c.fail("affine-equal", "an expression differs from its copy");
    if (u.first.norm() > 0 && u.second.norm() > 0 && (u == v || v == u)) c.fail("affine-equal", "expressions that differ by one part in a hundred compare equal");
  }
  // mismatched sizes
  int r2 = rows, c2 = cols, b2 = rows;
  switch (r.below(4)) {
    case 0: r2 = b2 = rows + r.range(1, 3); break;
    case 1: c2 = cols + r.range(1, 3); break;
    case 2: b2 = rows + 1; break;
    default: r2 = rows + 1;
  }
  waypoint_t m(Mat::Ones(r2, c2), Vec::Ones(b2));
  for (int op = 0; op < 4; ++op) {
    bool thrown = false;
    try {
      if (op == 0) a + m;
      if (op == 1) a - m;
      if (op == 2) m + a;
      if (op == 3) m - a;
    } catch (const std::exception&) {
      thrown = true;
    }
    c.ev("affine-mismatch");
    if (!thrown) c.fail("affine-mismatch", MON_STR("operation " << op << " of " << rows << "x" << cols << "," << rows << " and " << r2 << "x" << c2 << "," << b2 << " was not refused"));
  }
  if (a == m || m == a) c.fail("affine-equal", "expressions of different sizes compare equal");
  const waypoint_t z = initwp(rows, cols), zz = waypoint_t::Zero(cols);
  cmp("zero expression", z, Vec::Zero(rows));
  if (zz.first.rows() != cols || zz.first.cols() != cols || zz.second.size() != cols || val(zz).norm() != 0) c.fail("affine-zero", "Zero(dim) is not a zero expression");
  if (!(initwp<waypoint9_t>().first.array() == 0).all() || !(initwp<waypoint9_t>().second.array() == 0).all() || !(initwp<waypoint6_t>().first.array() == 0).all() ||
      !(initwp<waypoint6_t>().second.array() == 0).all() || !(initwp<waypoint3_t>().first.array() == 0).all() || !(initwp<waypoint3_t>().second.array() == 0).all())
    c.fail("affine-zero", "an initial fixed-size expression is not zero");
  c.ev("affine");
}
void basis(Ctx& c) {
  Rng& r = c.rng;
  const int deg = r.range(0, 16);
  c.caseDesc = MON_STR("basis of degree " << deg);
  const std::vector<ndcurves::Bern<double> > B = ComputeBersteinPolynoms((unsigned)deg);
  if ((int)B.size() != deg + 1) {
    c.fail("basis-count", MON_STR(B.size() << " polynomials of degree " << deg));
    return;
  }
  for (int s = 0; s < 6; ++s) {
    const double u = s == 0 ? 0 : s == 1 ? 1 : r.uni();
    double sum = 0;
    for (int i = 0; i <= deg; ++i) {
      double w = ora::binom(deg, i) * std::pow(u, i) * std::pow(1 - u, deg - i);
      double v = B[i](u);
      sum += v;
      c.le("basis", std::fabs(v - w), 1e-12, MON_STR("polynomial " << i << " of degree " << deg << " at " << u));
    }
    c.le("basis-sum", std::fabs(sum - 1), 1e-12, "sum of the basis");
  }
  // cross products
  for (int s = 0; s < 4; ++s) {
    V3 x = vec(r, std::exp(r.uni(-3, 5))), y = vec(r, 2);
    if (r.chance(0.3)) x[r.below(3)] = 0;
    Eigen::Matrix3d S = skew(x);
    c.le("skew", (S * y - x.cross(y)).norm(), 1e-13 * (1 + x.norm() * y.norm()), "skew(x) y against x cross y");
    if (!((S + S.transpose()).array() == 0).all()) c.fail("skew-symmetric", "skew(x) is not antisymmetric");
  }
  // sampled control points: any degree
  const int n = r.chance(0.5) ? 4 : r.range(1, 8), steps = r.range(1, 20);
  std::vector<waypoint6_t> w;
  for (int i = 0; i <= n; ++i) {
    waypoint6_t q;
    for (int a = 0; a < 6; ++a) {
      for (int b = 0; b < 3; ++b) q.first(a, b) = r.uni(-2, 2);
      q.second[a] = r.uni(-2, 2);
    }
    w.push_back(q);
  }
  const std::vector<waypoint6_t> s = ComputeDiscretizedWaypoints(w, ComputeBersteinPolynoms((unsigned)n), steps);
  if ((int)s.size() != steps + 1) {
    c.fail("sampled-count", MON_STR(s.size() << " sampled points for " << steps << " steps"));
    return;
  }
  for (int k = 0; k <= steps; ++k) {
    std::vector<waypoint6_t> q = w;
    const double u = (double)k / steps;
    for (int l = n; l > 0; --l)
      for (int i = 0; i < l; ++i) {
        q[i].first = ((1 - u) * q[i].first + u * q[i + 1].first).eval();
        q[i].second = ((1 - u) * q[i].second + u * q[i + 1].second).eval();
      }
    c.le("sampled", (s[k].first - q[0].first).norm() + (s[k].second - q[0].second).norm(), 1e-11, MON_STR("sampled point " << k << " of " << steps));
  }
  c.ev("basis");
}
void optionBits(Ctx& c) {
  Rng& r = c.rng;
  const int mask = 0x1fff;
  const int a = r.below(mask + 1), b = r.below(mask + 1);
  c.caseDesc = MON_STR("option bits " << a << " " << b);
  ConstraintFlag x = F(a), y = F(b), t;
  auto is = [&](const char* what, int got, int want) {
    if ((got & mask) != want) c.fail("option-bits", MON_STR(what << " gives " << got << " instead of " << want));
  };
  is("|", x | y, a | b);
  is("&", x & y, a & b);
  is("^", x ^ y, a ^ b);
  is("~", ~x, ~a & mask);
  t = x;
  is("|= value", t |= y, a | b);
  is("|=", t, a | b);
  t = x;
  is("&= value", t &= y, a & b);
  is("&=", t, a & b);
  t = x;
  is("^= value", t ^= y, a ^ b);
  is("^=", t, a ^ b);
  c.ev("option-bits");
}
void C19(Ctx& c) {
  switch (c.caseId % 4) {
    case 0: normalise(c); break;
    case 1: affine(c); break;
    case 2: basis(c); break;
    default: optionBits(c);
  }
  c.nontrivial(hashMix((uint64_t)c.caseId % 4, c.rng.s));
}
Reg r19("C19", C19, 40000, 1000000);
}  // namespace
