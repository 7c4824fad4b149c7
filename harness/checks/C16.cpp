// C16: integrators implement their stated schemes exactly.
#include "common/integ.hpp"
using namespace vf;
using namespace crocoddyl;

static const double TOL = 1e-11;
static void running(const IntegCase& I, const std::shared_ptr<ActionData>& d, const VectorXd& x,
                    const VectorXd& u) {
  IntegRef R = integ_ref(I.d, I.k, I.scheme, I.dt, x, u);
  I.m->calc(d, x, u);
  nearm("xnext", d->xnext, R.xnext, TOL, "xnext");
  near("cost", d->cost, R.cost, TOL, "cost");
  nearm("g", VectorXd(d->g.head(std::min<int>(d->g.size(), R.g.size()))), R.g, TOL, "g");
  nearm("h", VectorXd(d->h.head(std::min<int>(d->h.size(), R.h.size()))), R.h, TOL, "h");
  if (I.wr) nearm("r", d->r, R.r, TOL, "r");
}
static void terminal(const IntegCase& I, const std::shared_ptr<ActionData>& d, const VectorXd& x) {
  Eval e = I.d.ref(x, VectorXd(), true);
  I.m->calc(d, x);
  nearm("terminal-xnext", d->xnext, x, 0, "xnext");
  near("terminal-cost", d->cost, e.cost, TOL, "cost");
  nearm("terminal-g", VectorXd(d->g.head(std::min<int>(d->g.size(), e.g.size()))), e.g, TOL, "g");
  nearm("terminal-h", VectorXd(d->h.head(std::min<int>(d->h.size(), e.h.size()))), e.h, TOL, "h");
  if (I.wr) nearm("terminal-r", d->r, e.r, TOL, "r");
}
static void meta(const IntegCase& I) {
  auto m = I.m;
  require((int)m->get_nu() == I.k.nu() && m->get_nr() == I.d.m->get_nr() && m->get_ng() == I.d.m->get_ng() &&
              m->get_nh() == I.d.m->get_nh() && m->get_ng_T() == I.d.m->get_ng_T() &&
              m->get_nh_T() == I.d.m->get_nh_T() && m->get_state() == I.d.st,
          "sizes");
  near("dt", m->get_dt(), I.dt, 0);
  require(m->get_differential() == I.d.m && m->get_control() == I.k.m, "parts");
  if (I.scheme)
    require((int)dynamic_cast<IntegratedActionModelRKTpl<double>&>(*m).get_ni() == I.scheme, "ni");
  nearm("g_lb", m->get_g_lb(), I.d.m->get_g_lb(), 0);
  nearm("g_ub", m->get_g_ub(), I.d.m->get_g_ub(), 0);
  // Every parameter block at a node in the interval is the control at that node.
  VectorXd lb = m->get_u_lb(), ub = m->get_u_ub();
  require(lb.size() == I.k.nu() && ub.size() == I.k.nu(), "bound-size");
  int nw = I.k.nw;
  bool any = false;
  for (int i = 0; i < (int)I.k.nodes.size(); ++i) {
    nearm("u_lb", VectorXd(lb.segment(i * nw, nw)), I.d.m->get_u_lb(), TOL, "u_lb");
    nearm("u_ub", VectorXd(ub.segment(i * nw, nw)), I.d.m->get_u_ub(), TOL, "u_ub");
  }
  any = (I.d.m->get_u_lb().array() > -INF).any() || (I.d.m->get_u_ub().array() < INF).any();
  require(m->get_has_control_limits() == any, "has-limits");
}
static void scheme(Src& s, Case& c) {
  IntegCase I = gen_integ(s, c);
  meta(I);
  std::vector<std::shared_ptr<ActionData>> data = {I.m->createData(), I.m->createData()};
  int n = s.integer(1, 4);
  for (int i = 0; i < n; ++i) {
    auto d = data[s.integer(0, 1)];
    VectorXd x = gen_x(s, *I.d.st, 1.), u = s.vec(I.k.nu());
    c.desc << "; x=" << str(x.transpose()) << " u=" << str(u.transpose());
    if (!u.isZero() && I.dt > 0) c.nontrivial = true;
    int op = s.integer(0, 3);
    if (op == 1) terminal(I, d, x);
    else running(I, d, x, u);
    if (op == 2) {
      double dt = gen_dt(s);
      I.m->set_dt(dt);
      I.dt = dt;
      c.desc << " set_dt " << num(dt);
      c.label("set_dt");
      meta(I);
    }
    if (op == 3) {
      require(throws([&] { I.m->set_dt(-s.uni(1e-9, 1.)); }), "negative-dt");
      meta(I);
      running(I, d, x, u);
    }
  }
  if (s.chance(1, 4)) {
    c.label("set_differential");
    Case dummy;
    bool same = !s.chance(1, 3);
    DiffCase nd = gen_diff(s, dummy, same ? I.k.nw : I.k.nw + 1, -1, true, 1);
    if (s.flip()) gen_bounds_u(s, *nd.m);
    c.desc << " set_differential";
    if (!same) {
      require(throws([&] { I.m->set_differential(nd.m); }), "differential-size");
    } else {
      I.m->set_differential(nd.m);
      I.d = nd;
    }
    meta(I);
    auto d = I.m->createData();
    VectorXd x = gen_x(s, *I.d.st, 1.), u = s.vec(I.k.nu());
    running(I, d, x, u);
    terminal(I, d, x);
  }
}
static void build(Src& s, Case& c) {
  int nu = s.integer(1, 3);
  DiffCase d = gen_diff(s, c, nu, -1, true, 1);
  int sc = std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
  c.nontrivial = true;
  IntegCase I;
  I.d = d;
  I.scheme = sc;
  if (s.flip()) {
    c.label("negative-dt");
    I.k = make_ctrl(s.integer(0, 3), nu);
    I.m = make_integ(sc, d.m, I.k.m, -s.uni(1e-6, 1.), true);
    I.dt = 1e-3;
    meta(I);
    running(I, I.m->createData(), gen_x(s, *d.st, 1.), s.vec(I.k.nu()));
  } else {
    c.label("wrong-control");
    I.k = make_ctrl(s.integer(0, 3), nu + 1);
    require(throws([&] { make_integ(sc, d.m, I.k.m, 0.1, true); }), "control-size");
  }
}
static MatrixXd expm(const MatrixXd& A) {  // scaling and squaring of the series
  int k = 0;
  double n = A.norm();
  while (n > 0.25) n /= 2, ++k;
  MatrixXd B = A / std::pow(2., k), E = MatrixXd::Identity(A.rows(), A.rows()), T = E;
  for (int i = 1; i < 16; ++i) T = T * B / i, E += T;
  for (int i = 0; i < k; ++i) E = E * E;
  return E;
}
// Constant controls on a linear system: the error against the exact flow is
// at most the Taylor remainder of the stated order.
static void order(Src& s, Case& c) {
  IntegCase I = gen_integ(s, c, 1, false);
  I.m->set_dt(I.dt = s.logu(1e-2, 1.));
  int n = I.d.st->get_nx(), nq = n / 2;
  VectorXd w = s.vec(I.k.nw), x = s.vec(n, 2.);
  VectorXd u(I.k.nu());
  for (int i = 0; i < (int)I.k.nodes.size(); ++i) u.segment(i * I.k.nw, I.k.nw) = w;
  MatrixXd A = MatrixXd::Zero(n, n);
  A.topRightCorner(nq, nq).setIdentity();
  A.bottomRows(nq) = I.d.A;
  VectorXd b = VectorXd::Zero(n);
  b.tail(nq) = I.d.B * w + I.d.c;
  MatrixXd M = MatrixXd::Zero(n + 1, n + 1);
  M.topLeftCorner(n, n) = A;
  M.topRightCorner(n, 1) = b;
  VectorXd z(n + 1);
  z << x, 1.;
  VectorXd exact = (expm(M * I.dt) * z).head(n);
  auto d = I.m->createData();
  I.m->calc(d, x, u);
  double err = (d->xnext - exact).norm();
  VectorXd k0 = A * x + b;
  double na = A.norm(), h = I.dt, bound;
  int p = I.scheme ? I.scheme : 1;
  double fact = 1.;
  for (int i = 2; i <= p + 1; ++i) fact *= i;
  bound = std::pow(h, p + 1) * std::pow(na, p) * k0.norm() * std::exp(na * h) / fact;
  if (!I.scheme) bound += h * h * k0.tail(nq).norm();
  c.nontrivial = bound < 0.1 * (exact - x).norm();
  c.desc << " err=" << num(err) << " bound=" << num(bound);
  if (!(err <= bound * (1 + 1e-9) + 1e-12 * (1 + exact.norm())))
    fail("order", "error " + num(err) + " exceeds " + num(bound) + " at dt=" + num(h));
}
int main(int argc, char** argv) {
  Check k("C16", "a non-zero control over a positive step");
  k.family("scheme", 100000, 3000000, scheme);
  k.family("build", 6000, 100000, build);
  k.family("order", 30000, 1000000, order);
  k.assume("values compared to 1e-11 relative to size");
  return k.main(argc, argv);
}
