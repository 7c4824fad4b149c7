#include "common/integ.hpp"
using namespace crocoddyl;
namespace vf {
CtrlKind make_ctrl(int kind, int nw) {
  CtrlKind k;
  k.nw = nw;
  switch (kind) {
    case 0:
      k.m = std::make_shared<ControlParametrizationModelPolyZeroTpl<double>>(nw);
      k.nodes = {0.};
      k.name = "zero";
      break;
    case 1:
      k.m = std::make_shared<ControlParametrizationModelPolyOneTpl<double>>(nw);
      k.nodes = {0., .5};
      k.name = "one";
      break;
    case 2:
      k.m = std::make_shared<ControlParametrizationModelPolyTwoRKTpl<double>>(nw, RKType::three);
      k.nodes = {0., 1. / 3., 2. / 3.};
      k.name = "two-rk3";
      break;
    default:
      k.m = std::make_shared<ControlParametrizationModelPolyTwoRKTpl<double>>(nw, RKType::four);
      k.nodes = {0., .5, 1.};
      k.name = "two-rk4";
  }
  return k;
}
VectorXd ctrl_coeffs(const CtrlKind& k, double t) {
  int n = k.nodes.size();
  VectorXd c = VectorXd::Ones(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j) c[i] *= (t - k.nodes[j]) / (k.nodes[i] - k.nodes[j]);
  return c;
}
MatrixXd ctrl_jac(const CtrlKind& k, double t) {
  MatrixXd J = MatrixXd::Zero(k.nw, k.nu());
  VectorXd c = ctrl_coeffs(k, t);
  for (int i = 0; i < (int)k.nodes.size(); ++i)
    J.middleCols(i * k.nw, k.nw).diagonal().setConstant(c[i]);
  return J;
}
VectorXd ctrl_value(const CtrlKind& k, double t, const VectorXd& u) { return ctrl_jac(k, t) * u; }

void gen_bounds_u(Src& s, Diff& m) {
  int n = m.get_nu();
  VectorXd lb(n), ub(n);
  for (int i = 0; i < n; ++i) {
    lb[i] = s.chance(1, 3) ? -INF : s.real(2.) - 1.;
    ub[i] = s.chance(1, 3) ? INF : (std::isfinite(lb[i]) ? lb[i] : 0.) + s.uni(0., 2.);
  }
  m.set_u_lb(lb);
  m.set_u_ub(ub);
}
void gen_bounds_g(Src& s, Diff& m) {
  int n = m.get_g_lb().size();
  VectorXd lb(n), ub(n);
  for (int i = 0; i < n; ++i) {
    lb[i] = s.chance(1, 3) ? -INF : s.real(2.) - 1.;
    ub[i] = s.chance(1, 3) ? INF : (std::isfinite(lb[i]) ? lb[i] : 0.) + s.uni(0., 2.);
  }
  m.set_g_lb(lb);
  m.set_g_ub(ub);
}

DiffCase gen_diff(Src& s, Case& c, int nu, int kind, bool lie, int ng_T_mode) {
  DiffCase d;
  d.nu = nu;
  if (kind < 0) kind = s.integer(0, 1);
  int ng = s.integer(0, 2), nh = s.integer(0, 2);
  if (kind == 0) {
    d.st = gen_state(s, 2, lie);
    ModelSpec sp;
    sp.ng = ng;
    sp.nh = nh;
    sp.ng_T = ng_T_mode ? s.integer(0, 2) : ng;
    sp.nh_T = ng_T_mode ? s.integer(0, 2) : nh;
    sp.nr = s.integer(1, 4);
    auto m = gen_nldiff(s, d.st, nu, sp);
    d.m = m;
    auto F = std::make_shared<Funcs>(m->F);
    auto st = d.st;
    d.ref = [F, st](const VectorXd& x, const VectorXd& u, bool T) { return F->eval(*st, x, u, T); };
    d.name = std::string("nl") + (dynamic_cast<LieState*>(d.st.get()) ? "-so3" : "");
  } else {
    int nq = s.integer(1, 3), n = 2 * nq;
    auto l = std::make_shared<LQ>(LQ::gen(s, n, nu, ng, nh, 0.1));
    MatrixXd Aq = l->A.topLeftCorner(nq, nq), Av = l->A.topRightCorner(nq, nq), B = s.mat(nq, nu);
    VectorXd f = s.vec(nq);
    d.m = std::make_shared<DifferentialActionModelLQRTpl<double>>(Aq, Av, B, l->Q, l->R, l->N, l->G, l->H, f,
                                                                 l->q, l->r, l->g, l->h);
    d.st = d.m->get_state();
    d.A.resize(nq, n);
    d.A << Aq, Av;
    d.B = B;
    d.c = f;
    auto A = d.A;
    d.ref = [l, A, B, f, n, nu](const VectorXd& x, const VectorXd& u_, bool T) {
      VectorXd u = T ? VectorXd::Zero(nu) : u_;
      Eval e;
      e.f = A * x + B * u + f;
      e.r.resize(0);
      e.cost = .5 * x.dot(l->Q * x) + .5 * u.dot(l->R * u) + x.dot(l->N * u) + l->q.dot(x) + l->r.dot(u);
      VectorXd z(n + nu);
      z << x, u;
      e.g = l->G * z + l->g;
      e.h = l->H * z + l->h;
      e.Lx = l->Q * x + l->N * u + l->q;
      e.Lu = l->R * u + l->N.transpose() * x + l->r;
      e.Lxx = l->Q;
      e.Luu = l->R;
      e.Lxu = l->N;
      e.Fx = A;
      e.Fu = B;
      e.Gx = l->G.leftCols(n);
      e.Gu = l->G.rightCols(nu);
      e.Hx = l->H.leftCols(n);
      e.Hu = l->H.rightCols(nu);
      return e;
    };
    d.name = "lq";
  }
  c.label(d.name);
  return d;
}

IntegRef integ_ref(const DiffCase& d, const CtrlKind& k, int scheme, double dt, const VectorXd& x,
                   const VectorXd& u) {
  std::vector<double> c, w;
  switch (scheme) {
    case 0: c = {0.}; w = {1.}; break;
    case 2: c = {0., .5}; w = {0., 1.}; break;
    case 3: c = {0., 1. / 3., 2. / 3.}; w = {.25, 0., .75}; break;
    default: c = {0., .5, .5, 1.}; w = {1. / 6., 1. / 3., 1. / 3., 1. / 6.};
  }
  int nv = d.st->get_nv();
  IntegRef R;
  R.cost = 0.;
  R.dx = VectorXd::Zero(2 * nv);
  for (size_t i = 0; i < c.size(); ++i) {
    Stage g;
    g.c = c[i];
    g.w = w[i];
    g.y = i == 0 ? x : ref_integrate(*d.st, x, dt * c[i] * R.stages[i - 1].k);
    g.u = ctrl_value(k, c[i], u);
    g.e = d.ref(g.y, g.u, false);
    g.k.resize(2 * nv);
    g.k << g.y.tail(nv), g.e.f;
    if (scheme == 0) {
      R.dx << dt * (x.tail(nv) + dt * g.e.f), dt * g.e.f;
    } else {
      R.dx += dt * w[i] * g.k;
    }
    R.cost += dt * w[i] * g.e.cost;
    R.stages.push_back(g);
  }
  R.xnext = ref_integrate(*d.st, x, R.dx);
  R.g = R.stages[0].e.g;
  R.h = R.stages[0].e.h;
  R.r = R.stages[0].e.r;
  return R;
}

double gen_dt(Src& s) {
  switch (s.integer(0, 4)) {
    case 0: return 0.1;
    case 1: return s.logu(1e-4, 1.);
    case 2: return 0.;
    default: return s.uni(0.01, 0.6);
  }
}
std::shared_ptr<Integ> make_integ(int scheme, std::shared_ptr<Diff> d, std::shared_ptr<Ctrl> k, double dt,
                                  bool wr) {
  if (scheme == 0) {
    if (k) return std::make_shared<IntegratedActionModelEulerTpl<double>>(d, k, dt, wr);
    return std::make_shared<IntegratedActionModelEulerTpl<double>>(d, dt, wr);
  }
  RKType t = scheme == 2 ? RKType::two : scheme == 3 ? RKType::three : RKType::four;
  if (k) return std::make_shared<IntegratedActionModelRKTpl<double>>(d, k, t, dt, wr);
  return std::make_shared<IntegratedActionModelRKTpl<double>>(d, t, dt, wr);
}
IntegCase gen_integ(Src& s, Case& c, int diff_kind, bool lie, int scheme) {
  IntegCase I;
  int nu = s.integer(1, 3);
  I.d = gen_diff(s, c, nu, diff_kind, lie, 1);
  if (s.flip()) gen_bounds_u(s, *I.d.m), c.label("u-bounds");
  if (I.d.m->get_ng() && s.flip()) gen_bounds_g(s, *I.d.m);
  I.scheme = scheme >= 0 ? scheme : std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
  I.dt = gen_dt(s);
  I.wr = !s.chance(1, 4);
  bool dflt = s.chance(1, 4);
  I.k = make_ctrl(dflt ? 0 : s.integer(0, 3), nu);
  I.m = make_integ(I.scheme, I.d.m, dflt ? nullptr : I.k.m, I.dt, I.wr);
  if (dflt) I.k.m = I.m->get_control();
  c.label(I.scheme ? "rk" + std::to_string(I.scheme) : std::string("euler"));
  c.label(I.k.name);
  c.desc << I.d.name << " nx=" << I.d.st->get_nx() << " nw=" << nu << " " << I.k.name << " scheme=" << I.scheme
         << " dt=" << num(I.dt);
  return I;
}
}  // namespace vf
