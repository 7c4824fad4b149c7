// USES_SOLVERS
#include "common/solve.hpp"
using namespace crocoddyl;
namespace vf {
const char* const solver_name[kSolvers] = {"DDP", "FDDP", "BoxDDP", "BoxFDDP", "Intro", "KKT", "Ipopt"};
std::shared_ptr<Solver> make_solver(int kind, std::shared_ptr<Problem> p) {
  switch (kind) {
    case kDDP:
      return std::make_shared<SolverDDP>(p);
    case kFDDP:
      return std::make_shared<SolverFDDP>(p);
    case kBoxDDP:
      return std::make_shared<SolverBoxDDP>(p);
    case kBoxFDDP:
      return std::make_shared<SolverBoxFDDP>(p);
    case kIntro:
      return std::make_shared<SolverIntro>(p);
    case kKKT:
      return std::make_shared<SolverKKT>(p);
    default: {
      auto s = std::make_shared<SolverIpopt>(p);
      s->setNumericIpoptOption("print_level", 0);
      // A Jacobian that is not a number can crash MUMPS, which Ipopt checks for on request.
      s->setStringIpoptOption("check_derivatives_for_naninf", "yes");
      return s;
    }
  }
}
static double amax(const VectorXd& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.; }
Feas feasibility(const Problem& p, const Traj& xs, const Traj& us) {
  Feas f;
  int T = p.get_T();
  const State& st = *p.get_terminalModel()->get_state();
  f.fs.push_back(ref_diff(st, xs[0], p.get_x0()));
  for (int i = 0; i <= T; ++i) {
    auto m = i < T ? p.get_runningModels()[i] : p.get_terminalModel();
    auto d = m->createData();
    if (i < T)
      m->calc(d, xs[i], us[i]);
    else
      m->calc(d, xs[i]);
    f.cost += d->cost;
    f.cabs += std::fabs(d->cost);
    if (i < T) f.fs.push_back(ref_diff(st, xs[i + 1], d->xnext));
    int ng = i < T ? m->get_ng() : m->get_ng_T(), nh = i < T ? m->get_nh() : m->get_nh_T();
    for (int j = 0; j < ng; ++j) {
      double v = d->g[j], e = 0.;
      if (v < m->get_g_lb()[j]) e = m->get_g_lb()[j] - v;
      if (v > m->get_g_ub()[j]) e = v - m->get_g_ub()[j];
      f.g1 += e;
      f.ginf = std::max(f.ginf, e);
    }
    for (int j = 0; j < nh; ++j) {
      f.h1 += std::fabs(d->h[j]);
      f.hinf = std::max(f.hinf, std::fabs(d->h[j]));
    }
  }
  for (auto& v : f.fs) {
    f.f1 += v.lpNorm<1>();
    f.finf = std::max(f.finf, amax(v));
  }
  return f;
}
void Recorder::operator()(Solver& s) {
  Step k;
  k.xs = s.get_xs();
  k.us = s.get_us();
  k.cost = s.get_cost();
  k.stop = s.get_stop();
  k.alpha = s.get_steplength();
  k.preg = s.get_preg();
  k.dreg = s.get_dreg();
  k.ffeas = s.get_ffeas();
  k.gfeas = s.get_gfeas();
  k.hfeas = s.get_hfeas();
  k.merit = s.get_merit();
  k.dV = s.get_dV();
  k.dVexp = s.get_dVexp();
  k.d0 = s.get_d()[0];
  k.d1 = s.get_d()[1];
  k.feasible = s.get_is_feasible();
  k.iter = s.get_iter();
  log.push_back(k);
  if (more) more(s);
}

void LQProblem::condense() {
  int n = 0;
  for (int v : nu) n += v;
  Xu = MatrixXd::Zero((T + 1) * nx, n);
  Xc = VectorXd::Zero((T + 1) * nx);
  Xc.head(nx) = x0;
  H = MatrixXd::Zero(n, n);
  g = VectorXd::Zero(n);
  c = 0.;
  int iu = 0;
  for (int t = 0; t < T; ++t) {
    const LQ& k = nodes[t];
    Xu.middleRows((t + 1) * nx, nx) = k.A * Xu.middleRows(t * nx, nx);
    Xu.block((t + 1) * nx, iu, nx, nu[t]) += k.B;
    Xc.segment((t + 1) * nx, nx) = k.A * Xc.segment(t * nx, nx) + k.f;
    iu += nu[t];
  }
  iu = 0;
  for (int t = 0; t <= T; ++t) {
    const LQ& k = t < T ? nodes[t] : terminal;
    MatrixXd X = Xu.middleRows(t * nx, nx);
    VectorXd xc = Xc.segment(t * nx, nx);
    H += X.transpose() * k.Q * X;
    g += X.transpose() * (k.Q * xc + k.q);
    c += 0.5 * xc.dot(k.Q * xc) + k.q.dot(xc);
    if (t < T) {
      int m = nu[t];
      MatrixXd U = MatrixXd::Zero(m, n);
      U.middleCols(iu, m).setIdentity();
      H += U.transpose() * k.R * U + X.transpose() * k.N * U + U.transpose() * k.N.transpose() * X;
      g += U.transpose() * (k.r + k.N.transpose() * xc);
      iu += m;
    }
  }
}
VectorXd LQProblem::minimiser() const {
  return n() ? VectorXd(-H.ldlt().solve(g)) : VectorXd(0);
}
Traj LQProblem::us(const VectorXd& U) const {
  Traj r;
  int i = 0;
  for (int v : nu) r.push_back(U.segment(i, v)), i += v;
  return r;
}
Traj LQProblem::xs(const VectorXd& U) const {
  VectorXd X = Xu * U + Xc;
  Traj r;
  for (int t = 0; t <= T; ++t) r.push_back(X.segment(t * nx, nx));
  return r;
}
double LQProblem::cost(const VectorXd& U) const { return 0.5 * U.dot(H * U) + g.dot(U) + c; }
VectorXd LQProblem::stack(const Traj& us) const {
  VectorXd U(n());
  int i = 0;
  for (auto& u : us) U.segment(i, u.size()) = u, i += u.size();
  return U;
}
LQProblem gen_lq(Src& s, Case& c, const LQSpec& sp) {
  LQProblem k;
  k.nx = s.integer(1, sp.maxnx);
  k.T = sp.empty && s.chance(1, 16) ? 0 : s.integer(1, sp.maxT);
  if (!k.T) c.label("no-running-nodes");
  c.desc << "nx=" << k.nx << " T=" << k.T << " nu=[";
  bool same_nu = s.flip(), drift = !s.chance(1, 4);
  int nu0 = s.integer(1, sp.maxnu);
  double scale = s.chance(1, 4) ? s.logu(0.05, 20.) : 1.;
  for (int t = 0; t <= k.T; ++t) {
    int nu = same_nu ? nu0 : s.integer(sp.zero_nu ? 0 : 1, sp.maxnu);
    if (t == k.T && nu == 0) nu = 1;
    if (t && t < k.T && s.chance(1, 4)) {
      k.nodes.push_back(k.nodes.back());
      k.nu.push_back(k.nu.back());
      k.models.push_back(k.models.back());
      c.desc << " =";
      continue;
    }
    int nh = sp.nh ? s.integer(0, std::min(sp.nh, nu)) : 0;
    LQ q = LQ::gen(s, k.nx, nu, 0, t < k.T ? nh : 0, sp.convex, sp.dyn);
    q.Q *= scale, q.R *= scale, q.N *= scale, q.q *= scale, q.r *= scale;
    if (!drift) q.f.setZero();
    if (t == k.T) {
      k.terminal = q;
      k.models.push_back(q.model());
    } else {
      k.nodes.push_back(q);
      k.nu.push_back(nu);
      k.models.push_back(q.model());
      c.desc << " " << nu;
      if (nh) c.desc << "/" << nh;
    }
  }
  c.desc << " ]";
  k.x0 = s.vec(k.nx, 2.);
  auto running = k.models;
  auto last = running.back();
  running.pop_back();
  k.p = std::make_shared<Problem>(k.x0, running, last);
  k.condense();
  for (int t = 1; t < k.T; ++t)
    if (k.nu[t] != k.nu[0]) {
      c.label("mixed-nu");
      break;
    }
  return k;
}

double rollout_cost(const Problem& p, const Traj& us, Traj* xs) {
  double c = 0.;
  VectorXd x = p.get_x0();
  if (xs) xs->assign(1, x);
  for (size_t i = 0; i < p.get_T(); ++i) {
    auto m = p.get_runningModels()[i];
    auto d = m->createData();
    m->calc(d, x, us[i]);
    c += d->cost;
    x = d->xnext;
    if (xs) xs->push_back(x);
  }
  auto d = p.get_terminalModel()->createData();
  p.get_terminalModel()->calc(d, x);
  return c + d->cost;
}
Traj control_gradient(const Problem& p, const Traj& us) {
  Traj xs;
  rollout_cost(p, us, &xs);
  int T = p.get_T();
  auto m = p.get_terminalModel();
  auto d = m->createData();
  m->calc(d, xs[T]);
  m->calcDiff(d, xs[T]);
  VectorXd l = d->Lx;
  Traj g(T);
  for (int i = T - 1; i >= 0; --i) {
    m = p.get_runningModels()[i];
    d = m->createData();
    m->calc(d, xs[i], us[i]);
    m->calcDiff(d, xs[i], us[i]);
    g[i] = d->Lu + d->Fu.transpose() * l;
    l = (d->Lx + d->Fx.transpose() * l).eval();
  }
  return g;
}
}  // namespace vf
