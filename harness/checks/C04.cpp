// USES_SOLVERS
// Search direction, value function and feedback policy solve the local LQ model.
#include "common/solve.hpp"
using namespace vf;

// The local LQ model around a candidate: node derivatives from data of its own,
// gaps from states differenced here, and the regularization on every Hessian.
struct Local {
  int T, n;
  std::vector<int> nu;
  std::vector<MatrixXd> Fx, Fu, Lxx, Lxu, Luu;
  std::vector<VectorXd> Lx, Lu, f;  // f[0..T]
  Local(const Problem& p, const Traj& xs, const Traj& us, double reg, bool gaps) {
    T = p.get_T(), n = p.get_ndx();
    f = feasibility(p, xs, us).fs;
    if (!gaps)
      for (auto& v : f) v.setZero();
    for (int t = 0; t <= T; ++t) {
      auto m = t < T ? p.get_runningModels()[t] : p.get_terminalModel();
      auto d = m->createData();
      if (t < T)
        m->calc(d, xs[t], us[t]), m->calcDiff(d, xs[t], us[t]);
      else
        m->calc(d, xs[t]), m->calcDiff(d, xs[t]);
      Lx.push_back(d->Lx);
      Lxx.push_back(d->Lxx);
      Lxx.back().diagonal().array() += reg;
      if (t == T) break;
      int k = m->get_nu();
      nu.push_back(k);
      Fx.push_back(d->Fx), Fu.push_back(d->Fu), Lxu.push_back(d->Lxu), Luu.push_back(d->Luu), Lu.push_back(d->Lu);
      Luu.back().diagonal().array() += reg;
    }
  }
  // Minimum over the controls from node t on as a function of dx_t.
  struct Tail {
    MatrixXd H, M, P;
    VectorXd g, p;
    double c;
    MatrixXd Vxx, K;  // K: all controls of the tail
    VectorXd Vx, k;
    double v;
    bool ok = true;
  };
  Tail tail(int t0) const {
    int N = 0;
    for (int t = t0; t < T; ++t) N += nu[t];
    MatrixXd Phi = MatrixXd::Identity(n, n), Gam = MatrixXd::Zero(n, N);
    VectorXd cc = VectorXd::Zero(n);
    Tail r;
    r.H = MatrixXd::Zero(N, N), r.M = MatrixXd::Zero(N, n), r.P = MatrixXd::Zero(n, n);
    r.g = VectorXd::Zero(N), r.p = VectorXd::Zero(n), r.c = 0.;
    int iu = 0;
    for (int t = t0; t <= T; ++t) {
      r.H += Gam.transpose() * Lxx[t] * Gam;
      r.M += Gam.transpose() * Lxx[t] * Phi;
      r.P += Phi.transpose() * Lxx[t] * Phi;
      VectorXd l = Lx[t] + Lxx[t] * cc;
      r.g += Gam.transpose() * l;
      r.p += Phi.transpose() * l;
      r.c += Lx[t].dot(cc) + 0.5 * cc.dot(Lxx[t] * cc);
      if (t == T) break;
      int k = nu[t];
      r.H.block(iu, iu, k, k) += Luu[t];
      r.H.middleRows(iu, k) += Lxu[t].transpose() * Gam;
      r.H.middleCols(iu, k) += Gam.transpose() * Lxu[t];
      r.M.middleRows(iu, k) += Lxu[t].transpose() * Phi;
      r.g.segment(iu, k) += Lu[t] + Lxu[t].transpose() * cc;
      Phi = (Fx[t] * Phi).eval();
      Gam = (Fx[t] * Gam).eval();
      Gam.middleCols(iu, k) += Fu[t];
      cc = (Fx[t] * cc + f[t + 1]).eval();
      iu += k;
    }
    r.Vxx = r.P, r.Vx = r.p, r.v = r.c;
    r.K = MatrixXd::Zero(N, n), r.k = VectorXd::Zero(N);
    if (N) {
      Eigen::LLT<MatrixXd> llt(r.H);
      if (llt.info() != Eigen::Success || llt.rcond() < 1e-8) {
        r.ok = false;
        return r;
      }
      r.K = llt.solve(r.M), r.k = llt.solve(r.g);
      r.Vxx -= r.M.transpose() * r.K;
      r.Vx -= r.M.transpose() * r.k;
      r.v -= 0.5 * r.g.dot(r.k);
    }
    return r;
  }
};

static void direction(Src& s, Case& c) {
  int kind = s.integer(kDDP, kIntro);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  NodeSpec sp;
  bool box = kind == kBoxDDP || kind == kBoxFDDP;
  sp.bounds = s.chance(1, 3);
  sp.cons = kind != kIntro && s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5);
  bool limits = false;
  for (auto& m : k.running) limits = limits || m->get_has_control_limits();
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  int n = s.integer(1, 3);
  for (int it = 0; it < n; ++it) {
    Traj us = k.us(s), xs;
    bool feasible = s.flip() && !(box && limits);
    if (feasible)
      xs = k.p->rollout_us(us);
    else
      xs = k.xs(s, s.pick<double>({0.3, 1.}));
    double mag = 1.;
    for (auto& x : xs) mag = std::max(mag, x.cwiseAbs().maxCoeff());
    if (mag > 1e3) throw Discard();
    double reg = s.chance(1, 4) ? 0. : s.logu(1e-9, 10.);
    c.desc << (feasible ? " feasible" : " gaps") << " reg " << reg;
    Local L(*k.p, xs, us, reg, !feasible);
    std::vector<Local::Tail> tl;
    for (int t = 0; t <= L.T; ++t) {
      tl.push_back(L.tail(t));
      if (!tl.back().ok) throw Discard();
    }
    so->setCandidate(xs, us, feasible);
    d->set_preg(reg);
    d->set_dreg(reg);
    if (throws([&] { so->computeDirection(true); })) throw Discard();
    const double tol = 1e-7;
    for (int t = 0; t <= L.T; ++t) {
      std::string w = "node " + std::to_string(t);
      nearm("Vxx", d->get_Vxx()[t], tl[t].Vxx, tol, w);
      VectorXd Vx = tl[t].Vx + tl[t].Vxx * L.f[t];
      nearm("Vx", d->get_Vx()[t], Vx, tol, w);
      if (t == L.T) break;
      int nu = L.nu[t];
      MatrixXd V1 = tl[t + 1].Vxx;
      VectorXd v1 = tl[t + 1].Vx + V1 * L.f[t + 1];
      MatrixXd Qxx = L.Lxx[t] + L.Fx[t].transpose() * V1 * L.Fx[t];
      Qxx.diagonal().array() -= reg;
      nearm("Qxx", d->get_Qxx()[t], Qxx, tol, w);
      nearm("Qx", d->get_Qx()[t], VectorXd(L.Lx[t] + L.Fx[t].transpose() * v1), tol, w);
      if (!nu) continue;
      nearm("Quu", d->get_Quu()[t], MatrixXd(L.Luu[t] + L.Fu[t].transpose() * V1 * L.Fu[t]), tol, w);
      nearm("Qxu", d->get_Qxu()[t], MatrixXd(L.Lxu[t] + L.Fx[t].transpose() * V1 * L.Fu[t]), tol, w);
      nearm("Qu", d->get_Qu()[t], VectorXd(L.Lu[t] + L.Fu[t].transpose() * v1), tol, w);
      nearm("K", d->get_K()[t], MatrixXd(tl[t].K.topRows(nu)), tol, w);
      nearm("k", d->get_k()[t], VectorXd(tl[t].k.head(nu)), tol, w);
      c.nontrivial = true;
    }
    // expected improvement of the full step: the reduction the LQ model predicts
    VectorXd e = L.f[0];
    double red = -(tl[0].v + tl[0].Vx.dot(e) + 0.5 * e.dot(tl[0].Vxx * e));
    auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(d);
    double scale = 1.;
    for (int t = 0; t <= L.T; ++t) scale += std::fabs(tl[t].v) + std::fabs(tl[t].Vx.dot(L.f[t])) + L.f[t].dot(tl[t].Vxx * L.f[t]);
    if (fd) {
      fd->updateExpectedImprovement();
      if (throws([&] { so->tryStep(1.); })) continue;
      Eigen::Vector2d ei = so->expectedImprovement();
      // the terms of the gaps cancel in the full step
      if (std::fabs(ei[0]) < 1e4 * scale) near("expected", ei[0] + 0.5 * ei[1], red, 1e-7 * scale);
    } else if (feasible) {
      Eigen::Vector2d ei = so->expectedImprovement();
      near("expected", ei[0] + 0.5 * ei[1], red, 1e-8 * scale);
      near("expected-shape", ei[0], -ei[1], 1e-8 * scale);
    }
  }
}

// On an LQ problem the model is the problem: every step length.
static void steps(Src& s, Case& c) {
  int kind = s.integer(kDDP, kIntro);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  LQSpec sp;
  sp.maxT = 5;
  sp.zero_nu = s.chance(1, 4);
  sp.empty = kind != kDDP;  // it takes the initial state in solve
  LQProblem k = gen_lq(s, c, sp);
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(d);
  Traj us, xs;
  for (int v : k.nu) us.push_back(s.vec(v, 2.));
  bool feasible = !fd || s.flip();
  if (feasible)
    xs = k.p->rollout_us(us);
  else
    for (int i = 0; i <= k.T; ++i) xs.push_back(s.vec(k.nx, 2.));
  so->setCandidate(xs, us, feasible);
  d->set_preg(0.);
  so->computeDirection(true);
  Feas f0 = feasibility(*k.p, xs, us);
  double scale = 1. + f0.cabs;
  if (fd) fd->updateExpectedImprovement();
  VectorXd U0 = k.stack(us), Us = k.minimiser();
  // sum of f_t' Vxx_t dx_t with dx the full step
  double gapterm = 0.;
  Traj full = k.xs(Us);
  for (int t = 0; t <= k.T && !feasible; ++t) {
    double v = f0.fs[t].dot(d->get_Vxx()[t] * (full[t] - xs[t]));
    gapterm += v, scale += std::fabs(v);
  }
  for (int i = 0; i < 4; ++i) {
    double a = s.pick<double>({1., 0.5, 0.25, 0.1, 0.75, 0.});
    double dV = so->tryStep(a);
    Eigen::Vector2d e = so->expectedImprovement();
    double ex = a * (e[0] + 0.5 * a * e[1]);
    if (feasible || a == 1.) {
      near("expected-step", ex, dV, 1e-8 * scale, "step " + num(a));
    } else {
      // with gaps the expectation of a shortened step touches the model's at the full step
      double off = -a * (1. - a) * (1. - a) * gapterm;
      if (!(ex - dV > std::min(0., off) - 1e-8 * scale && ex - dV < std::max(0., off) + 1e-8 * scale))
        fail("expected-step", "step " + num(a) + " expects " + num(ex) + " model " + num(dV) + " allowed difference " + num(off));
    }
    if (feasible) {
      VectorXd U = U0 + a * (Us - U0);
      near("step-cost", dV, k.cost(U0) - k.cost(U), 1e-8 * scale, "step " + num(a));
    } else if (a == 1.) {
      near("step-cost", dV, f0.cost - k.cost(Us), 1e-8 * scale);
    }
  }
  c.nontrivial = k.n() > 0;
  if (!feasible) c.label("infeasible");
}

// A step of any length moves along the direction: FDDP leaves 1 - a of every gap,
// DDP closes them, and the controls follow the policy (within their limits).
static void moves(Src& s, Case& c) {
  int kind = s.integer(kDDP, kIntro);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  NodeSpec sp;
  bool box = kind == kBoxDDP || kind == kBoxFDDP;
  sp.bounds = s.flip();
  sp.cons = s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1.});
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5);
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  bool fddp = dynamic_cast<crocoddyl::SolverFDDP*>(d);
  Traj us = k.us(s), xs = k.xs(s, s.pick<double>({0.3, 1.}));
  bool feasible = s.chance(1, 4);
  if (feasible) {
    if (throws([&] { xs = k.p->rollout_us(us); })) throw Discard();
    for (auto& x : xs)
      if (!(x.cwiseAbs().maxCoeff() < 1e3)) throw Discard();
  }
  Traj px = xs, pu = us;
  bool pf = feasible;
  int moved = 0;
  auto rec = std::make_shared<Recorder>();
  rec->more = [&](Solver& v) {
    const Step& q = rec->log.back();
    std::string w = "iteration " + std::to_string(rec->log.size() - 1) + " step " + num(q.alpha);
    bool same_x = true;
    for (int t = 0; t <= k.T(); ++t) same_x = same_x && same(q.xs[t], px[t]);
    for (int t = 0; t < k.T(); ++t) same_x = same_x && same(q.us[t], pu[t]);
    if (same_x) return;  // no step was accepted
    double mag = 1.;
    for (auto& x : q.xs) mag = std::max(mag, x.cwiseAbs().maxCoeff());
    for (auto& x : px) mag = std::max(mag, x.cwiseAbs().maxCoeff());
    if (mag > 1e4) throw Discard();
    Feas f0 = feasibility(*k.p, px, pu), f1 = feasibility(*k.p, q.xs, q.us);
    double keep = fddp && !pf ? 1. - q.alpha : 0., tol = 1e-8 * mag * mag;
    for (int t = 0; t <= k.T(); ++t) {
      // where the step leaves this node: the prediction, moved back by the rest of the gap
      VectorXd pred = t ? VectorXd() : k.x0;
      if (t) {
        auto m = k.running[t - 1];
        auto dt = m->createData();
        m->calc(dt, q.xs[t - 1], q.us[t - 1]);
        pred = dt->xnext;
      }
      VectorXd want = ref_integrate(*k.st, pred, -keep * f0.fs[t]);
      double e = ref_diff(*k.st, want, q.xs[t]).cwiseAbs().maxCoeff();
      if (!(e < tol)) fail("gaps", w + " node " + std::to_string(t) + " state " + str(q.xs[t]) + " expected " + str(want) + " gap before " + str(f0.fs[t]));
      if (t == k.T()) break;
      auto m = k.running[t];
      if (!m->get_nu()) continue;
      const MatrixXd K = d->get_K()[t];
      VectorXd dx = ref_diff(*k.st, px[t], q.xs[t]), u = pu[t] - q.alpha * d->get_k()[t] - K * dx;
      double us = 1. + pu[t].cwiseAbs().maxCoeff() + d->get_k()[t].cwiseAbs().maxCoeff() + K.cwiseAbs().maxCoeff() * dx.cwiseAbs().maxCoeff();
      if (box && m->get_has_control_limits()) u = u.cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
      // differences of rotations half a turn apart can go either way
      if (dx.cwiseAbs().maxCoeff() < 3.) nearm("controls", q.us[t], u, 1e-10 * us * mag, w + " node " + std::to_string(t));
    }
    if (q.alpha < 1. && !pf && f0.finf > 1e-6) c.label("shortened");
    ++moved;
    if (q.alpha < 1.) c.nontrivial = true;
    px = q.xs, pu = q.us, pf = q.feasible;
  };
  so->setCallbacks({rec});
  if (s.chance(3, 4)) d->set_alphas(s.pick<std::vector<double>>({{0.5}, {0.9, 0.3}, {0.25, 0.1}, {0.7, 0.5, 0.2, 0.05}}));
  if (s.flip()) d->set_th_grad(1e9);
  so->set_th_stop(1e-12);
  so->solve(xs, us, s.integer(1, 6), feasible, s.chance(1, 3) ? s.logu(1e-9, 1.) : NAN);
  c.desc << " moved " << moved;
}

// The policy a run returns is optimal from every other initial state.
static void policy(Src& s, Case& c) {
  int kind = s.integer(kDDP, kIntro);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  LQSpec sp;
  sp.maxT = 5;
  sp.empty = true;
  LQProblem k = gen_lq(s, c, sp);
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  d->set_th_stop(1e-10);
  if (!so->solve()) throw Discard();
  for (int i = 0; i < 2; ++i) {
    VectorXd x = k.x0 + s.vec(k.nx, 3.);
    LQProblem q = k;
    q.x0 = x;
    q.condense();
    Traj want = q.us(q.minimiser());
    VectorXd xx = x;
    for (int t = 0; t < k.T; ++t) {
      VectorXd u = so->get_us()[t] - d->get_k()[t] - d->get_K()[t] * (xx - so->get_xs()[t]);
      nearm("policy", u, want[t], 2e-5, "node " + std::to_string(t));
      const LQ& n = k.nodes[t];
      xx = (n.A * xx + n.B * u + n.f).eval();
    }
  }
  c.nontrivial = true;
}

static void kkt(Src& s, Case& c) {
  NodeSpec sp;
  sp.cons = s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  ProblemCase k = gen_problem(s, c, sp, 4);
  auto so = std::make_shared<crocoddyl::SolverKKT>(k.p);
  int n = s.integer(1, 3);
  for (int it = 0; it < n; ++it) {
    Traj us = k.us(s), xs;
    if (s.flip())
      xs = k.p->rollout_us(us);
    else
      xs = k.xs(s, 1.);
    double mag = 1.;
    for (auto& x : xs) mag = std::max(mag, x.cwiseAbs().maxCoeff());
    if (mag > 1e3) throw Discard();
    so->setCandidate(xs, us, s.flip());
    so->computeDirection(true);
    Local L(*k.p, xs, us, 0., true);
    int ndx = L.n, NX = ndx * (L.T + 1), NU = 0;
    for (int v : L.nu) NU += v;
    require((int)so->get_ndx() == NX && (int)so->get_nu() == NU && (int)so->get_nx() == (int)k.st->get_nx() * (L.T + 1), "sizes");
    MatrixXd S = MatrixXd::Zero(2 * NX + NU, 2 * NX + NU);
    VectorXd b = VectorXd::Zero(2 * NX + NU);
    int iu = NX;
    for (int t = 0; t <= L.T; ++t) {
      S.block(t * ndx, t * ndx, ndx, ndx) = L.Lxx[t];
      b.segment(t * ndx, ndx) = L.Lx[t];
      int r = NX + NU + t * ndx;
      S.block(r, t * ndx, ndx, ndx).setIdentity();
      // gaps as the solver's convention has them: from the prediction to the state
      VectorXd pred = t ? VectorXd() : k.p->get_x0();
      if (t) {
        auto m = k.p->get_runningModels()[t - 1];
        auto d = m->createData();
        m->calc(d, xs[t - 1], us[t - 1]);
        pred = d->xnext;
      }
      b.segment(r, ndx) = ref_diff(*k.st, pred, xs[t]);
      if (t == L.T) break;
      int nu = L.nu[t];
      S.block(iu, iu, nu, nu) = L.Luu[t];
      S.block(t * ndx, iu, ndx, nu) = L.Lxu[t];
      S.block(iu, t * ndx, nu, ndx) = L.Lxu[t].transpose();
      b.segment(iu, nu) = L.Lu[t];
      S.block(r + ndx, t * ndx, ndx, ndx) = -L.Fx[t];
      S.block(r + ndx, iu, ndx, nu) = -L.Fu[t];
      iu += nu;
    }
    S.topRightCorner(NX + NU, NX) = S.bottomLeftCorner(NX, NX + NU).transpose();
    nearm("kkt", so->get_kkt(), S, 1e-9);
    nearm("kktref", so->get_kktref(), b, 1e-9);
    Eigen::FullPivLU<MatrixXd> lu(S);
    lu.setThreshold(1e-9);
    if (!lu.isInvertible() || lu.rcond() < 1e-9) throw Discard();
    VectorXd z = lu.solve(-b);
    nearm("primaldual", so->get_primaldual(), z, 1e-6);
    iu = NX;
    for (int t = 0; t <= L.T; ++t) {
      nearm("dxs", so->get_dxs()[t], VectorXd(z.segment(t * ndx, ndx)), 1e-6, std::to_string(t));
      nearm("lambdas", so->get_lambdas()[t], VectorXd(z.segment(NX + NU + t * ndx, ndx)), 1e-6, std::to_string(t));
      if (t == L.T) break;
      nearm("dus", so->get_dus()[t], VectorXd(z.segment(iu, L.nu[t])), 1e-6, std::to_string(t));
      iu += L.nu[t];
    }
    c.nontrivial = NU > 0;
    // the model reduction of the full step
    Eigen::Vector2d e = so->expectedImprovement();
    VectorXd pz = z.head(NX + NU);
    near("expected", e[0], -b.head(NX + NU).dot(pz), 1e-6);
    near("expected", e[1], -pz.dot(S.topLeftCorner(NX + NU, NX + NU) * pz), 1e-6);
  }
}

int main(int argc, char** argv) {
  Check k("C04",
          "A case is a problem of up to five mixed nodes, a shooting solver, and candidates with or without gaps, each with "
          "a regularization; gains, value-function and Q-function terms and the expected improvement are compared with the "
          "dense condensed solution of the regularized LQ model. On LQ problems all step lengths and the policy from other "
          "initial states, and the KKT solver's system and step. Non-trivial: some node has controls.");
  k.family("direction", 20000, 400000, direction);
  k.family("steps", 10000, 200000, steps);
  k.family("moves", 15000, 300000, moves);
  k.family("policy", 8000, 150000, policy);
  k.family("kkt", 6000, 100000, kkt);
  return k.main(argc, argv);
}
