// C15: model derivatives are the derivatives of model values.
#include "common/costs.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
using namespace vf;
using namespace crocoddyl;

static const double TOL = 1e-6, H = 1e-3;
static VectorXd pack(const VectorXd& dx, double cost, const VectorXd& g, const VectorXd& h) {
  VectorXd v(dx.size() + 1 + g.size() + h.size());
  v << dx, cost, g, h;
  return v;
}
static VectorXd plus(const State& st, const VectorXd& x, const VectorXd& d) { return ref_integrate(st, x, d); }
static void symmetric(const MatrixXd& M, const char* n) { nearm("symmetry", M, M.transpose(), 1e-9, n); }

struct Hess {
  MatrixXd xx, xu, uu;
  bool ok = false;
};
// Derivatives in d against finite differences of the values, at (x, u).
template <class M, class D>
static void against_fd(M& m, D& d, std::function<VectorXd(const VectorXd&, const VectorXd&)> vals, int nf,
                       const VectorXd& x, const VectorXd& u, const Hess& ref, bool exact_hess, Case& c) {
  const State& st = *m.get_state();
  int n = st.get_ndx(), nu = m.get_nu(), ng = m.get_ng(), nh = m.get_nh();
  MatrixXd J = fd([&](const VectorXd& e) { return vals(plus(st, x, e.head(n)), u + e.tail(nu)); }, n + nu, H);
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  nearm("Fx", d->Fx, J.topLeftCorner(nf, n), TOL, "Fx");
  nearm("Fu", d->Fu, J.topRightCorner(nf, nu), TOL, "Fu");
  nearm("Lx", d->Lx, J.row(nf).head(n).transpose(), TOL, "Lx");
  nearm("Lu", d->Lu, J.row(nf).tail(nu).transpose(), TOL, "Lu");
  require(d->Gx.rows() >= ng && d->Gu.rows() >= ng && d->Hx.rows() >= nh && d->Hu.rows() >= nh, "rows");
  nearm("Gx", MatrixXd(d->Gx.topRows(ng)), J.block(nf + 1, 0, ng, n), TOL, "Gx");
  nearm("Gu", MatrixXd(d->Gu.topRows(ng)), J.block(nf + 1, n, ng, nu), TOL, "Gu");
  nearm("Hx", MatrixXd(d->Hx.topRows(nh)), J.block(nf + 1 + ng, 0, nh, n), TOL, "Hx");
  nearm("Hu", MatrixXd(d->Hu.topRows(nh)), J.block(nf + 1 + ng, n, nh, nu), TOL, "Hu");
  symmetric(d->Lxx, "Lxx");
  symmetric(d->Luu, "Luu");
  if (ref.ok) {
    nearm("Lxx", d->Lxx, ref.xx, TOL, "Lxx");
    nearm("Lxu", d->Lxu, ref.xu, TOL, "Lxu");
    nearm("Luu", d->Luu, ref.uu, TOL, "Luu");
  }
  if (exact_hess) {
    MatrixXd Lxx = d->Lxx, Lxu = d->Lxu, Luu = d->Luu;
    MatrixXd K = fd([&](const VectorXd& e) {
      VectorXd xe = plus(st, x, e.head(n)), ue = u + e.tail(nu);
      m.calc(d, xe, ue);
      m.calcDiff(d, xe, ue);
      VectorXd g(n + nu);
      g << d->Lx, d->Lu;
      return g;
    }, n + nu, H);
    nearm("Lxx-exact", Lxx, K.topLeftCorner(n, n), TOL, "Lxx");
    nearm("Lxu-exact", Lxu, K.topRightCorner(n, nu), TOL, "Lxu");
    nearm("Luu-exact", Luu, K.bottomRightCorner(nu, nu), TOL, "Luu");
  }
  c.nontrivial = J.norm() > 0.1 && nu > 0;
}
template <class M, class D>
static void terminal_fd(M& m, D& d, const VectorXd& x, const MatrixXd* Lxx) {
  const State& st = *m.get_state();
  int n = st.get_ndx(), ng = m.get_ng_T(), nh = m.get_nh_T();
  auto vals = [&](const VectorXd& y) {
    m.calc(d, y);
    return pack(VectorXd(0), d->cost, d->g.head(ng), d->h.head(nh));
  };
  MatrixXd J = fd([&](const VectorXd& e) { return vals(plus(st, x, e)); }, n, H);
  m.calc(d, x);
  m.calcDiff(d, x);
  nearm("terminal-Lx", d->Lx, J.row(0).transpose(), TOL, "Lx");
  nearm("terminal-Gx", MatrixXd(d->Gx.topRows(ng)), J.middleRows(1, ng), TOL, "Gx");
  nearm("terminal-Hx", MatrixXd(d->Hx.topRows(nh)), J.bottomRows(nh), TOL, "Hx");
  symmetric(d->Lxx, "terminal Lxx");
  if (Lxx) nearm("terminal-Lxx", d->Lxx, *Lxx, TOL, "Lxx");
}
static std::function<VectorXd(const VectorXd&, const VectorXd&)> action_values(Action& m, std::shared_ptr<ActionData> d,
                                                                                const VectorXd& x, const VectorXd& u) {
  m.calc(d, x, u);
  VectorXd x1 = d->xnext;
  int ng = m.get_ng(), nh = m.get_nh();
  return [&m, d, x1, ng, nh](const VectorXd& xe, const VectorXd& ue) {
    m.calc(d, xe, ue);
    return pack(ref_diff(*m.get_state(), x1, d->xnext), d->cost, d->g.head(ng), d->h.head(nh));
  };
}
// Something else evaluated on the same data before.
template <class M, class D>
static void earlier(Src& s, M& m, D& d, int nu) {
  int k = s.integer(0, 3);
  VectorXd x = gen_x(s, *m.get_state(), 1.), u = s.vec(nu);
  if (k == 1 || k == 3) m.calc(d, x, u), m.calcDiff(d, x, u);
  if (k == 2 || k == 3) m.calc(d, x), m.calcDiff(d, x);
}

static void lqr(Src& s, Case& c) {
  int nx = s.integer(1, 5), nu = s.integer(1, 4), ng = s.integer(0, 3), nh = s.integer(0, 3);
  LQ l = LQ::gen(s, nx, nu, ng, nh, 0.1);
  std::shared_ptr<ActionModelLQRTpl<double>> m;
  int ctor = s.integer(0, 3);
  if (ctor == 0) m = l.model();
  if (ctor == 1) m = std::make_shared<ActionModelLQRTpl<double>>(l.A, l.B, l.Q, l.R, l.N);
  if (ctor == 2) m = std::make_shared<ActionModelLQRTpl<double>>(l.A, l.B, l.Q, l.R, l.N, l.f, l.q, l.r);
  if (ctor == 3) {
    m = std::make_shared<ActionModelLQRTpl<double>>(nx, nu, s.flip());
    if (s.flip()) {
      LQ l0 = LQ::gen(s, nx, nu, 0, 0, 0.1);
      m->set_LQR(l0.A, l0.B, l0.Q, l0.R, l0.N, l0.G, l0.H, l0.f, l0.q, l0.r, l0.g, l0.h);
    }
  }
  if (s.chance(1, 4)) m = std::make_shared<ActionModelLQRTpl<double>>(*m);
  c.label("ctor" + std::to_string(ctor));
  c.desc << "LQR ctor " << ctor << " nx=" << nx << " nu=" << nu << " ng=" << ng << " nh=" << nh;
  auto d = m->createData();
  earlier(s, *m, d, nu);
  VectorXd x = s.vec(nx, 2.), u = s.vec(nu, 2.);
  Hess h{m->get_Q(), m->get_N(), m->get_R(), true};
  against_fd(*m, d, action_values(*m, d, x, u), nx, x, u, h, true, c);
  MatrixXd Q = m->get_Q();
  terminal_fd(*m, d, x, &Q);
}
static void unicycle(Src& s, Case& c) {
  ActionModelUnicycleTpl<double> m;
  if (s.chance(3, 4)) m.set_dt(s.logu(1e-3, 2.));
  if (s.chance(3, 4)) m.set_cost_weights(s.vec(2, 10.));
  Eigen::Vector2d w = m.get_cost_weights();
  auto d = m.createData();
  earlier(s, m, d, 2);
  VectorXd x = s.vec(3, 4.), u = s.vec(2, 3.);
  c.desc << "unicycle dt=" << num(m.get_dt()) << " w=" << str(w.transpose()) << " x=" << str(x.transpose())
         << " u=" << str(u.transpose());
  Hess h{w[0] * w[0] * MatrixXd::Identity(3, 3), MatrixXd::Zero(3, 2), w[1] * w[1] * MatrixXd::Identity(2, 2), true};
  against_fd(m, d, action_values(m, d, x, u), 3, x, u, h, true, c);
  terminal_fd(m, d, x, &h.xx);
}
// Differential models.
static DiffCase any_diff(Src& s, Case& c, int nu) {
  if (s.chance(2, 3)) {
    auto st = gen_state(s, 2);
    DiffCase d = as_diff(gen_diffcosts(s, st, nu, true));
    d.name += dynamic_cast<LieState*>(st.get()) ? "-so3" : "";
    c.label(d.name);
    return d;
  }
  return gen_diff(s, c, nu, 1);
}
static void differential(Src& s, Case& c) {
  int nu = s.integer(1, 3);
  DiffCase D = any_diff(s, c, nu);
  Diff& m = *D.m;
  auto d = m.createData();
  earlier(s, m, d, nu);
  VectorXd x = gen_x(s, *D.st, 1.), u = s.vec(nu);
  c.desc << D.name << " nx=" << D.st->get_nx() << " nu=" << nu << " ng=" << m.get_ng() << " nh=" << m.get_nh();
  Eval e = D.ref(x, u, false), eT = D.ref(x, u, true);
  int ng = m.get_ng(), nh = m.get_nh();
  auto vals = [&](const VectorXd& xe, const VectorXd& ue) {
    m.calc(d, xe, ue);
    return pack(d->xout, d->cost, d->g.head(ng), d->h.head(nh));
  };
  Hess h{e.Lxx, e.Lxu, e.Luu, true};
  against_fd(m, d, vals, D.st->get_nv(), x, u, h, D.name == "lq", c);
  terminal_fd(m, d, x, &eT.Lxx);
}
// Integrated by any scheme.
static void integrated(Src& s, Case& c) {
  int nu = s.integer(1, 3);
  IntegCase I;
  int kind = s.integer(0, 2);
  if (kind == 0) {
    I = gen_integ(s, c);
  } else {
    I.d = any_diff(s, c, nu);
    I.scheme = std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
    I.dt = gen_dt(s);
    I.wr = false;
    I.k = make_ctrl(s.integer(0, 3), nu);
    I.m = make_integ(I.scheme, I.d.m, I.k.m, I.dt, I.wr);
    c.label(I.scheme ? "rk" + std::to_string(I.scheme) : std::string("euler"));
    c.desc << I.d.name << " " << I.k.name << " scheme=" << I.scheme << " dt=" << num(I.dt);
  }
  Integ& m = *I.m;
  auto d = m.createData();
  earlier(s, m, d, m.get_nu());
  int n = I.d.st->get_ndx(), nw = m.get_nu();
  VectorXd x = gen_x(s, *I.d.st, 1.), u = s.vec(nw);
  c.desc << " x=" << str(x.transpose()) << " u=" << str(u.transpose());
  IntegRef R0 = integ_ref(I.d, I.k, I.scheme, I.dt, x, u);
  int ns = R0.stages.size();
  // Gauss-Newton form of the integrated cost from the stages.
  MatrixXd Y = fd([&](const VectorXd& e) {
    IntegRef R = integ_ref(I.d, I.k, I.scheme, I.dt, plus(*I.d.st, x, e.head(n)), u + e.tail(nw));
    VectorXd v(ns * n);
    for (int i = 0; i < ns; ++i) v.segment(i * n, n) = ref_diff(*I.d.st, R0.stages[i].y, R.stages[i].y);
    return v;
  }, n + nw, H);
  MatrixXd W = MatrixXd::Zero(n + nw, n + nw);
  for (int i = 0; i < ns; ++i) {
    const Stage& g = R0.stages[i];
    MatrixXd J = MatrixXd::Zero(n + I.k.nw, n + nw), K(n + I.k.nw, n + I.k.nw);
    J.topRows(n) = Y.middleRows(i * n, n);
    J.bottomRightCorner(I.k.nw, nw) = ctrl_jac(I.k, g.c);
    K << g.e.Lxx, g.e.Lxu, g.e.Lxu.transpose(), g.e.Luu;
    W += I.dt * g.w * J.transpose() * K * J;
  }
  Hess h{W.topLeftCorner(n, n), W.topRightCorner(n, nw), W.bottomRightCorner(nw, nw), true};
  against_fd(m, d, action_values(m, d, x, u), n, x, u, h, I.d.name == "lq", c);
  Eval eT = I.d.ref(x, VectorXd(), true);
  terminal_fd(m, d, x, &eT.Lxx);
}
int main(int argc, char** argv) {
  Check k("C15", "a model with a non-negligible Jacobian");
  k.family("lqr", 12000, 300000, lqr);
  k.family("unicycle", 8000, 200000, unicycle);
  k.family("differential", 20000, 500000, differential);
  k.family("integrated", 40000, 1000000, integrated);
  k.assume("derivatives compared with 4th-order central differences of step 1e-3 to 1e-6 relative to size");
  return k.main(argc, argv);
}
