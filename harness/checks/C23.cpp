// Squashing and actuation maps.
#include "common/costs.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
using namespace vf;
using namespace crocoddyl;
typedef SquashingModelSmoothSatTpl<double> Sat;
typedef ActuationSquashingModelTpl<double> Squashed;

struct SatRef {
  VectorXd lb, ub;
  double smooth;
  // the stated function, in quadruple-ish precision
  double value(double s, int i) const {
    long double a = (long double)smooth * (ub[i] - lb[i]);
    a *= a;
    long double p = (long double)s - lb[i], q = (long double)s - ub[i];
    return (double)(0.5L * (sqrtl(p * p + a) - sqrtl(q * q + a) + lb[i] + ub[i]));
  }
  double slope(double s, int i) const {
    long double a = (long double)smooth * (ub[i] - lb[i]);
    a *= a;
    long double p = (long double)s - lb[i], q = (long double)s - ub[i];
    return (double)(0.5L * (p / sqrtl(p * p + a) - q / sqrtl(q * q + a)));
  }
  VectorXd value(const VectorXd& s) const {
    VectorXd v(s.size());
    for (int i = 0; i < s.size(); ++i) v[i] = value(s[i], i);
    return v;
  }
  VectorXd slope(const VectorXd& s) const {
    VectorXd v(s.size());
    for (int i = 0; i < s.size(); ++i) v[i] = slope(s[i], i);
    return v;
  }
};
static SatRef gen_sat(Src& s, int n, std::shared_ptr<Sat>& m) {
  SatRef r;
  r.lb = s.vec(n, 3.);
  r.ub = r.lb;
  for (int i = 0; i < n; ++i) r.ub[i] += s.logu(0.05, 6.);
  r.smooth = 0.1;
  m = std::make_shared<Sat>(r.lb, r.ub, n);
  return r;
}

static void squash(Src& s, Case& c) {
  int n = s.integer(1, 4);
  std::shared_ptr<Sat> m;
  SatRef r = gen_sat(s, n, m);
  c.desc << "lb=" << str(r.lb.transpose()) << " ub=" << str(r.ub.transpose());
  near("default-smooth", m->get_smooth(), 0.1, 0);
  near("ns", m->get_ns(), n, 0);
  require(throws([&] { Sat(r.lb.head(0), r.ub.head(0), 0); }), "ns0");
  VectorXd slb = r.lb, sub = r.ub;
  auto d = m->createData(), d2 = m->createData();
  int k = s.integer(1, 6);
  for (int it = 0; it < k; ++it) {
    nearm("s-lower", m->get_s_lb(), slb, 0);
    nearm("s-upper", m->get_s_ub(), sub, 0);
    near("smooth", m->get_smooth(), r.smooth, 0);
    nearm("d", m->get_d(), r.smooth * (r.ub - r.lb), 1e-14);
    int op = s.integer(0, 6);
    if (op == 0) {
      r.smooth = s.chance(1, 6) ? 0. : s.logu(1e-6, 2.);
      c.desc << " smooth=" << r.smooth;
      m->set_smooth(r.smooth);
      slb = r.lb;
      sub = r.ub;
      c.label(r.smooth == 0. ? "no-smoothing" : "smoothed");
    } else if (op == 1) {
      c.desc << " bad smooth";
      require(throws([&] { m->set_smooth(-s.logu(1e-9, 1.)); }), "negative-smooth");
    } else if (op == 2) {
      m->set_s_lb(slb = s.vec(n, 3.));
      m->set_s_ub(sub = slb + VectorXd::Ones(n));
      c.desc << " s-bounds";
    } else {
      auto& dd = s.flip() ? d : d2;
      VectorXd x(n), y(n);
      for (int i = 0; i < n; ++i) {
        double w = r.ub[i] - r.lb[i];
        int where = s.integer(0, 3);
        x[i] = r.lb[i] + w * s.real(2.) + 0.3 * w;
        if (where == 1) x[i] = r.lb[i] + w * s.real(1e3);
        if (where == 2 && r.smooth > 0.) x[i] = s.flip() ? r.lb[i] : r.ub[i];
        y[i] = x[i] + w * s.logu(1e-4, 10.);
      }
      c.desc << " at " << str(x.transpose());
      if (r.smooth == 0.)
        for (int i = 0; i < n; ++i)
          if (x[i] == r.lb[i] || x[i] == r.ub[i]) throw Discard();
      m->calc(dd, x);
      VectorXd u = dd->u;
      double sc = 1. + r.lb.cwiseAbs().maxCoeff() + r.ub.cwiseAbs().maxCoeff() + x.cwiseAbs().maxCoeff();
      nearm("value", u, r.value(x), 1e-14 * sc);
      m->calcDiff(dd, x);
      nearm("derivative", dd->du_ds, MatrixXd(r.slope(x).asDiagonal()), 1e-9);
      nearm("value-kept", dd->u, u, 0);
      m->calc(dd, y);
      for (int i = 0; i < n; ++i) {
        double w = r.ub[i] - r.lb[i], eps = 1e-14 * sc;
        require(u[i] >= r.lb[i] - eps && u[i] <= r.ub[i] + eps, "limits");
        if (r.smooth >= 1e-2 && std::fabs(x[i] - r.lb[i]) <= 4 * w)
          require(u[i] > r.lb[i] && u[i] < r.ub[i], "strictly-inside");
        require(dd->u[i] >= u[i] - eps, "increasing");
        if (r.smooth >= 1e-2 && std::fabs(y[i] - r.lb[i]) <= 10 * w) require(dd->u[i] > u[i], "strictly-increasing");
        // distance to the clamp is at most half the smoothing length each side
        double clamp = std::min(std::max(x[i], r.lb[i]), r.ub[i]);
        require(std::fabs(u[i] - clamp) <= 0.5 * r.smooth * w + eps, "clamp");
      }
      c.nontrivial = true;
    }
  }
}

// An actuation that also reports which joints it drives.
class Marked : public NlActuation {
 public:
  CROCODDYL_BASE_DERIVED_CAST(ActuationModelBase, Marked)
  Marked(std::shared_ptr<State> st, int nu, const SmoothMap& f_, const VectorXd& xr, const std::vector<bool>& t)
      : NlActuation(st, nu, f_, xr), set(t) {}
  void calc(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override {
    NlActuation::calc(d, x, u);
    d->tau_set = set;
  }
  using Actuation::calc;
  std::vector<bool> set;
};

static MatrixXd pinv(const MatrixXd& A) {
  Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
  VectorXd s = svd.singularValues();
  // well away from the rank threshold of either side
  if (s.minCoeff() < 1e-3 * std::max(1., s.maxCoeff())) throw Discard();
  return svd.matrixV() * s.cwiseInverse().asDiagonal() * svd.matrixU().transpose();
}

static void actuation(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int nu = s.integer(1, 3), nv = st->get_nv();
  if (s.chance(1, 4)) nu = nv;
  bool linear = s.flip(), full = s.chance(3, 4);
  auto base = gen_actuation(s, st, nu, linear);
  std::vector<bool> set(nv);
  for (int i = 0; i < nv; ++i) set[i] = s.chance(2, 3);
  auto inner = std::make_shared<Marked>(st, nu, base->f, base->xref, set);
  std::shared_ptr<Sat> sat;
  SatRef r = gen_sat(s, nu, sat);
  if (s.flip()) sat->set_smooth(r.smooth = s.logu(1e-2, 1.));
  bool squashed = s.chance(2, 3);
  std::shared_ptr<Actuation> m = inner;
  if (squashed) {
    auto q = std::make_shared<Squashed>(inner, sat, nu);
    require(q->get_squashing() == sat && q->get_actuation() == inner, "parts");
    m = q;
  }
  c.desc << (squashed ? "squashed " : "plain ") << (linear ? "linear" : "nonlinear") << " nv=" << nv << " nu=" << nu;
  c.label(squashed ? "squashed" : "plain");
  near("nu", m->get_nu(), nu, 0);
  require(m->get_state() == st, "state");
  auto d = m->createData(), d2 = m->createData();
  require(d->tau.size() == nv && d->u.size() == nu && d->Mtau.rows() == nu && d->Mtau.cols() == nv && (int)d->tau_set.size() == nv,
          "data-sizes");
  int k = s.integer(1, 4);
  for (int it = 0; it < k; ++it) {
    auto& dd = s.flip() ? d : d2;
    if (s.chance(1, 5)) sat->set_smooth(r.smooth = s.logu(1e-2, 1.));
    VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu, 2.);
    VectorXd w = squashed ? r.value(u) : u;
    VectorXd dw = squashed ? r.slope(u) : VectorXd(VectorXd::Ones(nu));
    VectorXd tau = inner->value(x, w);
    MatrixXd Jx, Ju;
    inner->jac(x, w, Jx, Ju);
    Ju = Ju * dw.asDiagonal();
    bool diff = s.chance(3, 4);
    c.desc << " at u=" << str(u.transpose());
    m->calc(dd, x, u);
    nearm("tau", dd->tau, tau, 1e-10);
    require(dd->tau_set == set, "tau-set");
    if (diff) {
      m->calcDiff(dd, x, u);
      nearm("dtau-dx", dd->dtau_dx, Jx, 1e-9);
      nearm("dtau-du", dd->dtau_du, Ju, 1e-8);
      nearm("tau-kept", dd->tau, tau, 1e-10);
    }
    m->calc(dd, x);  // without control: keeps the torques
    nearm("tau-kept", dd->tau, tau, 1e-10);
    c.nontrivial = true;
    if (full) {
      // torque transform: the pseudo-inverse of the control Jacobian
      MatrixXd P;
      try {
        P = pinv(Ju);
      } catch (const Discard&) {
        continue;
      }
      m->torqueTransform(dd, x, u);
      nearm("transform", dd->Mtau, P, 1e-7);
      nearm("transform-penrose", Ju * dd->Mtau * Ju, Ju, 1e-8);
      if (nu <= nv) nearm("transform-inverse", dd->Mtau * Ju, MatrixXd::Identity(nu, nu), 1e-7);
      if (linear && !squashed && nu <= nv) nearm("transform-recovers", dd->Mtau * tau, u, 1e-7);
      require(throws([&] { m->torqueTransform(dd, VectorXd::Zero(st->get_nx() + 1), u); }), "transform-x-size");
      require(throws([&] { m->torqueTransform(dd, x, VectorXd::Zero(nu + 1)); }), "transform-u-size");
      c.label("transform");
    }
  }
}

static void commands(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int nv = st->get_nv(), nu = s.integer(1, std::min(3, nv));
  if (s.flip()) nu = nv;
  auto inner = gen_actuation(s, st, nu, true);
  std::shared_ptr<Sat> sat;
  SatRef r = gen_sat(s, nu, sat);
  int kind = s.integer(0, 1);
  VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu, 1.);
  std::shared_ptr<Actuation> m;
  if (kind == 0)
    m = std::make_shared<ActuationModelNumDiffTpl<double>>(inner);
  else
    m = std::make_shared<Squashed>(inner, sat, nu);
  if (kind == 1)
    for (int i = 0; i < nu; ++i) u[i] = r.lb[i] + (r.ub[i] - r.lb[i]) * s.uni(0.1, 0.9);
  c.desc << (kind ? "squashed" : "numdiff") << " nv=" << nv << " nu=" << nu << " u=" << str(u.transpose());
  c.label(kind ? "squashed" : "numdiff");
  VectorXd w = kind ? r.value(u) : u;
  VectorXd tau = inner->value(x, w);
  MatrixXd Jx, Ju;
  inner->jac(x, w, Jx, Ju);
  pinv(Ju);
  c.nontrivial = true;
  auto d = m->createData(), e = m->createData();
  require(throws([&] { m->commands(d, x, VectorXd::Zero(nv + 1)); }), "tau-size");
  bool threw = false;
  try {
    m->commands(d, x, tau);
  } catch (const std::exception&) {
    threw = true;
  }
  if (!threw) {
    VectorXd got = d->u;
    m->calc(e, x, got);
    double err = (e->tau - tau).norm();
    if (err <= 1e-7 * (1. + tau.norm())) return;
    if (kind == 1 && nu == nv) {
      // the recorded behaviour: the transform linearised at u = tau
      MatrixXd P = (inner->f.M.rightCols(nu) * r.slope(tau).asDiagonal()).completeOrthogonalDecomposition().pseudoInverse();
      if ((P * tau - got).norm() <= 1e-4 * (1. + got.norm())) fail("squash-commands", "commands of a squashed actuation do not give the torque back");
      // far in saturation the slope is below the rank threshold
      if (r.slope(tau).minCoeff() < 1e-3) fail("squash-commands", "commands of a squashed actuation do not give the torque back");
    }
    fail("commands", "torques from recovered commands differ by " + num(err));
  }
  if (kind == 1 && nu != nv) fail("squash-commands", "commands of a squashed actuation throw when nu differs from nv");
  fail("commands-throw", "");
}

int main(int argc, char** argv) {
  Check k("C23",
          "A case picks limits, smoothing and inputs (inside, on and far outside the limits) with a history of setter "
          "calls, or an actuation (linear or nonlinear, squashed or not) with evaluations on two data objects, torque "
          "transforms and command recovery. Values are compared with formulas in extended precision. Non-trivial: a "
          "value or transform was compared.");
  k.assume("without smoothing the squashing is not differentiated exactly at a limit");
  k.assume("torque transforms are compared when the control Jacobian is well conditioned");
  k.family("squash", 100000, 2000000, squash);
  k.family("actuation", 100000, 1000000, actuation);
  k.family("commands", 20000, 300000, commands);
  return k.main(argc, argv);
}
