// Zero-step capturability (C04): the returned motion is re-checked physically.
#include "zgen.hpp"
using namespace gen;
using namespace mon;

static void C04(Ctx& c) {
  ZPlan z;
  ZOpts zo;
  zo.effort = c.rng.chance(0.7) ? 0.6 : 1.2;
  if (!nextZ(c, z, zo)) return;
  ResultDataCOMTraj r = z.solve();
  const bool ang = z.pd.useAngularMomentum_;
  c.ev(std::string(r.success_ ? "success" : "failure") + (ang ? ":ang" : ":com") + (z.sampled() ? ":sampled" : ":continuous"));
  if (!r.success_) return;
  c.nontrivial(z.hash());
  c.sample(z.desc());
  const double T = z.T, t1 = r.c_of_t_.max();
  c.le("span", std::fabs(r.c_of_t_.min()) + std::fabs(t1 - T), 1e-9 * (1 + T), "curve not defined on [0,T]");
  c.le("span-dl", std::fabs(r.dL_of_t_.min()) + std::fabs(r.dL_of_t_.max() - T), 1e-9 * (1 + T), "angular momentum rate not defined on [0,T]");
  if (c.caseFailed) return;
  if (r.x.size() != z.dim()) { c.fail("solution-size", "wrong number of unknowns"); return; }
  double sc = 1 + z.pd.c0_.norm() + r.x.norm();
  auto near = [&](const char* k, const V3& got, const V3& want, double s) { c.le(k, (got - want).norm(), 1e-9 * s, MON_STR(k << " got " << got.transpose() << " want " << want.transpose())); };
  near("init-pos", r.c_of_t_(0), z.pd.c0_, sc);
  near("init-vel", r.c_of_t_.derivate(0, 1), z.pd.dc0_, sc * 10 / T);
  near("end-pos", r.c_of_t_(t1), r.x.head(3), sc);
  near("end-rest", r.c_of_t_.derivate(t1, 1), V3::Zero(), sc * 10 / T);
  const auto& cd = z.pd.contacts_[0];
  for (int i = 0; i < cd.kin_.size(); ++i) {
    c.le("kinematic", cd.Kin_.row(i).dot(V3(r.c_of_t_(t1))) - cd.kin_[i], 1e-6 * (1 + cd.Kin_.row(i).norm()), "final position outside kinematic limits");
    c.ev("kinematic-rows-checked");
  }
  if (ang) {
    // L(t) = l0 + integral of dL, must vanish at T (Simpson is exact: degree 2)
    V3 L = z.pd.l0_ + T / 6 * (V3(r.dL_of_t_(0)) + 4 * V3(r.dL_of_t_(T / 2)) + V3(r.dL_of_t_(r.dL_of_t_.max())));
    near("momentum-rest", L, V3::Zero(), 1 + z.pd.l0_.norm() + r.x.norm());
    near("momentum-rate-rest", r.dL_of_t_(r.dL_of_t_.max()), V3::Zero(), 1 + r.x.norm() / T);
    // the momentum curve is the one of its free point
    for (int k = 0; k <= 4; ++k) near("momentum-family", r.dL_of_t_(std::min(T * k / 4, r.dL_of_t_.max())), ora::apply(angRate(z, T * k / 4), Vec(r.x.tail(3))), (1 + z.pd.l0_.norm() + r.x.norm()) * 10 / T);
    for (int i = 0; i < cd.ang_.size(); ++i) {
      c.le("angular", cd.Ang_.row(i).dot(r.x.tail(3)) - cd.ang_[i], 1e-6 * (1 + cd.Ang_.row(i).norm() * (1 + r.x.tail(3).norm())), "angular momentum outside its limits");
      c.ev("angular-rows-checked");
    }
  } else
    for (int k = 0; k <= 4; ++k) near("momentum-zero", r.dL_of_t_(std::min(T * k / 4, r.dL_of_t_.max())), V3::Zero(), 1);
  const int N = z.sampled() ? z.steps() : 32;
  const V3 g = z.sc.g();
  for (int i = 0; i <= N; ++i) {
    double u = i / (double)N;
    if (!z.sampled() && i > 0 && i < N) u = (i + c.rng.uni(-0.5, 0.5)) / N;
    double t = std::min(u * T, t1);
    V3 pos = r.c_of_t_(t), acc = r.c_of_t_.derivate(t, 2), dl = r.dL_of_t_(std::min(t, r.dL_of_t_.max()));
    Vec W(6);
    W.head(3) = z.sc.mass * (acc - g);
    W.tail(3) = pos.cross(Vector3(z.sc.mass * (acc - g))) + dl;
    double v = (z.sc.Hn[0] * W).maxCoeff();
    if (!c.le("stability", v, 1e-6 * (z.sc.mass + W.norm()), MON_STR("contact wrench leaves the cone at t=" << t))) return;
    c.ev("instants-checked");
    if (i % 11 == 3 && c.rng.chance(0.2)) {
      Mat G = -Mat(z.sc.eq[0]->m_G_centr);
      double res = ora::nnls(G, W);
      // a wrench that every face admits but no forces produce: the cone library lost a face
      if (v <= 0 && res > 1e-3 * (1 + W.norm())) c.ev("cone-library-lost-a-face");
      else c.le("forces", res, 1e-3 * (1 + W.norm()), MON_STR("no contact forces produce the wrench at t=" << t));
      c.ev("force-decompositions");
    }
  }
}
static Reg r04("C04", C04, 6000, 150000);
