// Companion module of the Python monitor (C16): an Equilibrium class for the
// module under test (the installed binding of it is built against another
// Boost), and the same requests solved directly through the C++ interface,
// from plain data and without touching the module under test.
#include <signal.h>
#include <unistd.h>

#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>
#include <memory>
namespace bp = boost::python;
using centroidal_dynamics::Equilibrium;
namespace bct = bezier_com_traj;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

static bool setC(Equilibrium& e, const centroidal_dynamics::MatrixX3ColMajor& P, const centroidal_dynamics::MatrixX3ColMajor& N, double mu) {
  return e.setNewContacts(P, N, mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
}
static long liveCount = 0;
// counts its objects, so that the monitor sees when one is destroyed
struct Eq : Equilibrium {
  Eq(std::string n, double m, unsigned g) : Equilibrium(n, m, g, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false) { ++liveCount; }
  ~Eq() { --liveCount; }
};
static void onAlarm(int) { _exit(77); }
static void watchdog(unsigned s) {
  signal(SIGALRM, onAlarm);
  alarm(s);
}
static long live() { return liveCount; }

template <class T>
static T get(const bp::dict& d, const char* k) {
  return bp::extract<T>(d[k]);
}
static bool has(const bp::dict& d, const char* k) { return d.has_key(k); }

struct Data {
  bct::ProblemData pd;
  std::vector<std::unique_ptr<Equilibrium> > eqs;
};
static void fill(Data& o, const bp::dict& d) {
  bct::ProblemData& p = o.pd;
  auto v3 = [&](const char* k, bct::point_t& f) {
    if (has(d, k)) f = get<V>(d, k);
  };
  v3("c0_", p.c0_), v3("dc0_", p.dc0_), v3("ddc0_", p.ddc0_), v3("c1_", p.c1_), v3("dc1_", p.dc1_), v3("ddc1_", p.ddc1_), v3("l0_", p.l0_);
  if (has(d, "ang")) p.useAngularMomentum_ = get<bool>(d, "ang");
  if (has(d, "cost")) p.costFunction_ = (bct::CostFunction)get<int>(d, "cost");
  if (has(d, "rep")) p.representation_ = (bct::GIWCRepresentation)get<int>(d, "rep");
  if (has(d, "flag")) p.constraints_.flag_ = (bct::ConstraintFlag)get<int>(d, "flag");
  if (has(d, "limitAcc")) p.constraints_.constraintAcceleration_ = get<bool>(d, "limitAcc");
  if (has(d, "maxAcc")) p.constraints_.maxAcceleration_ = get<double>(d, "maxAcc");
  if (has(d, "reduce_h")) p.constraints_.reduce_h_ = get<double>(d, "reduce_h");
  bp::list cs = get<bp::list>(d, "contacts");
  for (int i = 0; i < bp::len(cs); ++i) {
    bp::dict c = bp::extract<bp::dict>(cs[i]);
    std::unique_ptr<Equilibrium> e(new Equilibrium("ref", get<double>(c, "mass"), 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false));
    setC(*e, get<M>(c, "P"), get<M>(c, "N"), get<double>(c, "mu"));
    bct::ContactData k(e.get());
    if (has(c, "Kin")) k.Kin_ = get<M>(c, "Kin"), k.kin_ = get<V>(c, "kin");
    if (has(c, "Ang")) k.Ang_ = get<M>(c, "Ang"), k.ang_ = get<V>(c, "angv");
    o.eqs.push_back(std::move(e));
    p.contacts_.push_back(k);
  }
}
static M curve(const bct::bezier_t& b) {
  M r(3, b.waypoints().size());
  for (long i = 0; i < r.cols(); ++i) r.col(i) = b.waypoints()[i];
  return r;
}
static M values(const bct::bezier_t& b) {
  const double s[4] = {0, .31, .77, 1};
  M r(3, 4);
  for (int k = 0; k < 4; ++k) r.col(k) = b(s[k] < 1 ? b.min() + (b.max() - b.min()) * s[k] : b.max());
  return r;
}
static bp::dict rec(const bct::ResultDataCOMTraj& r) {
  bp::dict o;
  o["success"] = r.success_;
  o["cost"] = r.cost_;
  o["x"] = V(r.x);
  o["c"] = curve(r.c_of_t_), o["cmin"] = r.c_of_t_.min(), o["cmax"] = r.c_of_t_.max();
  o["L"] = curve(r.dL_of_t_), o["Lmin"] = r.dL_of_t_.min(), o["Lmax"] = r.dL_of_t_.max();
  o["cv"] = values(r.c_of_t_), o["Lv"] = values(r.dL_of_t_);
  return o;
}
static bp::dict pairOf(const std::pair<bct::MatrixXX, bct::VectorX>& p) {
  bp::dict o;
  o["A"] = M(p.first);
  o["b"] = V(p.second);
  return o;
}
struct Zero {
  bct::point3_t operator()(double) const { return bct::point3_t::Zero(); }
};
static bp::dict solveRef(const bp::dict& d) {
  const std::string kind = get<std::string>(d, "kind");
  bp::dict out;
  try {
    Data o;
    fill(o, d);
    if (kind == "zero") {
      std::vector<double> Ts(1, get<double>(d, "T"));
      return rec(bct::solve0step(o.pd, Ts, get<double>(d, "dt")));
    }
    if (kind == "plan") {
      V Ts = get<V>(d, "Ts");
      if (has(d, "solver")) return rec(bct::computeCOMTraj(o.pd, Ts, get<double>(d, "dt"), (solvers::SolverType)get<int>(d, "solver")));
      return rec(bct::computeCOMTraj(o.pd, Ts, get<double>(d, "dt")));
    }
    const double T = get<double>(d, "T");
    if (kind == "ee") return rec(bct::solveEndEffector<Zero>(o.pd, Zero(), T, 0));
    if (kind == "ee-distance") {
      M pts = get<M>(d, "pts");
      std::vector<bct::point3_t> v;
      for (long i = 0; i < pts.cols(); ++i) v.push_back(pts.col(i));
      return pairOf(bct::computeDistanceCostFunction(get<int>(d, "n"), o.pd, T, v));
    }
    std::vector<bct::point_t> pi = bct::computeConstantWaypoints(o.pd, T);
    if (kind == "ee-constraints") return pairOf(bct::computeEndEffectorConstraints(o.pd, T, pi));
    if (kind == "ee-velocity") return pairOf(bct::computeVelocityCost(o.pd, T, pi));
    if (kind == "ee-points") {
      M r(3, pi.size());
      for (size_t i = 0; i < pi.size(); ++i) r.col(i) = pi[i];
      out["A"] = r;
      return out;
    }
    out["exc"] = "unknown kind";
  } catch (const std::exception& e) {
    out["exc"] = std::string(e.what());
  }
  return out;
}

BOOST_PYTHON_MODULE(monhelp) {
  eigenpy::enableEigenPy();
  eigenpy::enableEigenPySpecific<centroidal_dynamics::MatrixX3ColMajor>();
  // one class name for both: the module under test takes an Equilibrium*
  bp::class_<Equilibrium, boost::noncopyable>("EquilibriumBase", bp::no_init);
  bp::class_<Eq, bp::bases<Equilibrium>, boost::noncopyable>("Equilibrium", bp::init<std::string, double, unsigned>())
      .def("getName", &Equilibrium::getName);
  bp::def("setContacts", &setC);
  bp::def("watchdog", &watchdog);
  bp::def("live", &live);
  bp::def("solveRef", &solveRef);
}
