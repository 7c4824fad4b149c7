// USES_SOLVERS
// Reported convergence implies first-order optimality.
#include "common/solve.hpp"
using namespace vf;

static const int lim_ok[] = {kBoxDDP, kBoxFDDP, kIpopt};

typedef std::map<Action*, std::pair<VectorXd, VectorXd>> Lim;
// Gradient of the Lagrangian in the controls (multipliers from the adjoint), and the
// sizes of the sensitivities and of the condensed Hessian, along a candidate.
struct Local {
  double S = 1., hn = 1., L = 1e-3, lmin = 1.;
  Traj g;
  Local(const ProblemCase& k, const Traj& X, const Traj& U) {
    int T = k.T(), n = k.st->get_ndx(), N = 0, iu = 0;
    for (auto& m : k.running) N += m->get_nu();
    MatrixXd Gam = MatrixXd::Zero(n, N), H = MatrixXd::Zero(N, N);
    std::vector<std::shared_ptr<ActionData>> ds;
    double phi = 1.;
    for (int t = 0; t <= T; ++t) {
      auto m = t < T ? k.running[t] : k.terminal;
      auto dt = m->createData();
      t < T ? m->calc(dt, X[t], U[t]) : m->calc(dt, X[t]);
      t < T ? m->calcDiff(dt, X[t], U[t]) : m->calcDiff(dt, X[t]);
      ds.push_back(dt);
      H += Gam.transpose() * dt->Lxx * Gam;
      hn += dt->Lxx.norm() + dt->Lx.norm();
      if (t == T) break;
      int nu = m->get_nu();
      H.block(iu, iu, nu, nu) += dt->Luu;
      H.middleRows(iu, nu) += dt->Lxu.transpose() * Gam;
      H.middleCols(iu, nu) += Gam.transpose() * dt->Lxu;
      Gam = (dt->Fx * Gam).eval();
      Gam.middleCols(iu, nu) += dt->Fu;
      phi = 1. + phi * dt->Fx.norm();
      S += phi + Gam.norm();
      hn += dt->Luu.norm() + dt->Lxu.norm() + dt->Lu.norm() + dt->Fx.norm() + dt->Fu.norm();
      iu += nu;
    }
    if (N) {
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
      L = std::max(1e-3, es.eigenvalues().cwiseAbs().maxCoeff()), lmin = es.eigenvalues().minCoeff();
    }
    g.resize(T);
    VectorXd l = ds[T]->Lx;
    for (int t = T - 1; t >= 0; --t) {
      g[t] = ds[t]->Lu + ds[t]->Fu.transpose() * l;
      l = (ds[t]->Lx + ds[t]->Fx.transpose() * l).eval();
    }
  }
};
static void judge(const std::string& what, const Traj& U, const Local& a, double bound, const Lim& lim, const ProblemCase& k, Case& c) {
  for (int t = 0; t < k.T(); ++t)
    for (int j = 0; j < U[t].size(); ++j) {
      double v = a.g[t][j];
      auto i = lim.find(k.running[t].get());
      if (i != lim.end()) {
        double lo = i->second.first[j], up = i->second.second[j];
        double to = std::min(std::max(U[t][j] - v / a.L, lo), up);
        if (to == lo || to == up) c.label("at-limit");
        v = a.L * (to - U[t][j]);
      }
      if (!(std::fabs(v) <= bound))
        fail("stationary", what + ": node " + std::to_string(t) + " control " + std::to_string(j) + " gradient " + num(v) + " allowed " + num(bound));
    }
}

// Only the controls cost something: closing the gaps is all there is to do.
struct ControlCost : NlAction {
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ActionModelBase, ControlCost)
  ControlCost(std::shared_ptr<State> st, int nu, const Funcs& f) : NlAction(st, nu, f) {}
  void calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    NlAction::calc(d, x, u);
    d->cost = 0.5 * u.squaredNorm();
  }
  void calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) override {
    NlAction::calc(d, x);
    d->cost = 0.;
  }
  void calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    NlAction::calcDiff(d, x, u);
    d->Lx.setZero(), d->Lxx.setZero(), d->Lxu.setZero(), d->Luu.setIdentity(), d->Lu = u;
  }
  void calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) override {
    NlAction::calcDiff(d, x);
    d->Lx.setZero(), d->Lxx.setZero();
  }
};
static ProblemCase gen_control_cost(Src& s, Case& c, double eps) {
  ProblemCase k;
  k.st = gen_state(s, 2, s.chance(1, 3));
  int T = s.integer(1, 4);
  c.desc << "control costs nx=" << k.st->get_nx() << " T=" << T;
  ModelSpec ms;
  ms.eps = eps, ms.dyn = 0.7;
  auto gen = [&] {
    int nu = s.integer(1, 3);
    return std::make_shared<ControlCost>(k.st, nu, gen_nlaction(s, k.st, nu, ms)->F);
  };
  for (int i = 0; i < T; ++i) k.running.push_back(gen());
  k.terminal = gen();
  k.x0 = gen_x(s, *k.st, 1.);
  k.p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
  return k;
}

// A guess with gaps at which the first direction promises no reduction, though
// the guess is not stationary: what is promised has to be read again without gaps.
static bool no_promise(Src& s, int kind, const ProblemCase& k, double th, Traj& xs, Traj& us) {
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(d);
  xs = k.xs(s, 1.), us = k.us(s, 1.);
  if (!fd) {  // the controls that are best around these states
    for (int i = 0; i < 50; ++i) {
      so->setCandidate(xs, us, false);
      d->set_preg(d->get_reg_min());
      if (throws([&] { so->computeDirection(true); })) return false;
      double n = 0.;
      for (int t = 0; t < k.T(); ++t)
        if (us[t].size()) us[t] -= d->get_k()[t], n = std::max(n, d->get_k()[t].cwiseAbs().maxCoeff());
      if (!(n < 1e3)) return false;
      if (n < 1e-10) return true;
    }
    return false;
  }
  // the cost may rise or fall while the gaps close; in between it does neither
  Traj x0 = xs, u0 = us, x1 = k.xs(s, s.pick<double>({1., 0.2})), u1 = k.us(s, s.pick<double>({1., 0.2}));
  auto at = [&](double l, Eigen::Vector2d& e) {
    for (size_t t = 0; t < xs.size(); ++t) xs[t] = ref_integrate(*k.st, x0[t], l * ref_diff(*k.st, x0[t], x1[t]));
    for (size_t t = 0; t < us.size(); ++t) us[t] = u0[t] + l * (u1[t] - u0[t]);
    so->setCandidate(xs, us, false);
    d->set_preg(d->get_reg_min());
    return !throws([&] {
      so->computeDirection(true);
      fd->updateExpectedImprovement();
      so->tryStep(1.);
      e = so->expectedImprovement();
    });
  };
  Eigen::Vector2d a, b, m;
  if (!at(0., a) || !at(1., b)) return false;
  double lo = 0., hi = 1., fa = a[0] + 0.5 * a[1], fb = b[0] + 0.5 * b[1];
  if (!((fa < 0.) != (fb < 0.))) return false;
  for (int i = 0; i < 80; ++i) {
    double l = 0.5 * (lo + hi);
    if (!at(l, m)) return false;
    double f = m[0] + 0.5 * m[1];
    if (std::fabs(f) < 0.5 * th) return true;
    (f < 0.) == (fa < 0.) ? lo = l : hi = l;
  }
  return false;
}

static void run(Src& s, Case& c, int lo, int hi, bool trap = false) {
  int kind = s.integer(lo, hi);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  bool box = std::find(lim_ok, lim_ok + 3, kind) != lim_ok + 3;
  NodeSpec sp;
  sp.cons = false;
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1., 0.1});
  sp.empty = true;
  ProblemCase k = kind == kKKT && s.chance(1, 5) ? gen_control_cost(s, c, sp.eps) : gen_problem(s, c, sp, 5, s.chance(1, 3));
  bool limits = box && !trap && s.flip();
  Lim lim;
  if (limits)
    for (auto& m : k.running) {
      int nu = m->get_nu();
      if (!nu || lim.count(m.get())) continue;
      VectorXd lb = VectorXd::Constant(nu, -INF), ub = -lb;
      for (int i = 0; i < nu; ++i) {
        double mid = s.real(1.), h = 0.05 + std::fabs(s.real(1.));
        int q = s.integer(0, 4);
        if (q == 1 || q >= 3) lb[i] = mid - h;
        if (q == 2 || q >= 3) ub[i] = mid + h;
      }
      m->set_u_lb(lb), m->set_u_ub(ub);
      lim[m.get()] = {lb, ub};
    }
  auto so = make_solver(kind, k.p);
  Traj us, xs;
  int guess = trap ? 4 : limits && kind != kIpopt ? 2 : s.integer(0, 3);
  bool feasible = false;
  if (guess) us = k.us(s, s.pick<double>({0.3, 1., 3.}));
  if (guess == 2) {
    for (int t = 0; t < k.T(); ++t)
      if (lim.count(k.running[t].get())) us[t] = us[t].cwiseMax(lim[k.running[t].get()].first).cwiseMin(lim[k.running[t].get()].second);
    if (throws([&] { xs = k.p->rollout_us(us); })) throw Discard();
    for (auto& x : xs)
      if (!(x.cwiseAbs().maxCoeff() < 1e3)) throw Discard();
    feasible = true;
  }
  if (guess == 3) xs = k.xs(s, 1.);
  double th = kind == kIpopt ? 1e-8 : kind == kKKT ? s.logu(1e-16, 1e-8) : s.logu(1e-13, 1e-6);
  if (guess == 4) {
    if (s.flip()) th = s.logu(1e-9, 1e-6);
    if (!no_promise(s, kind, k, th, xs, us)) throw Discard();
    if (s.flip()) dynamic_cast<DDP*>(so.get())->set_th_grad(1e3);
  }
  so->set_th_stop(th);
  int maxiter = s.chance(1, 4) ? s.integer(1, 5) : 60;
  double reg = !trap && s.chance(1, 5) ? s.logu(1e-9, 1e3) : NAN;
  auto rec = std::make_shared<Recorder>();
  so->setCallbacks({rec});
  c.desc << " guess " << guess << " th " << th << " maxiter " << maxiter << " reg " << reg;
  bool ok = so->solve(xs, us, maxiter, feasible, reg);
  c.desc << " -> " << so->get_iter() << (ok ? "+" : "-");
  auto* d = dynamic_cast<DDP*>(so.get());
  if (!ok) {
    if (d) require((int)so->get_iter() >= maxiter || so->get_preg() >= d->get_reg_max(), "stopped", "neither limit was reached");
    c.label("not-converged");
    return;
  }
  if (kind != kIpopt) {
    require((int)so->get_iter() < maxiter, "limit-converged");
    require(so->get_stop() < th, "threshold", num(so->get_stop()));
    require(rec->log.size() == so->get_iter() + 1, "iterations");
    const Step& q = rec->log.back();
    // at the limit, a step too short to lower the regularization ends the run
    require(!d || q.preg < d->get_reg_max() || q.alpha > d->get_th_stepinc(), "given-up", "regularization " + num(q.preg));
  }
  if (getenv("DBG"))
    for (auto& r : rec->log) {
      double m = 0;
      for (auto& v : Local(k, r.xs, r.us).g) m = std::max(m, v.size() ? v.cwiseAbs().maxCoeff() : 0.);
      std::cerr << "it " << r.iter << " cost " << r.cost << " stop " << r.stop << " a " << r.alpha << " preg " << r.preg << " dV " << r.dV << " dVexp " << r.dVexp << " d " << r.d0 << " " << r.d1 << " feas " << r.feasible << " ffeas " << r.ffeas << " g " << m << "\n";
    }
  const Traj &X = so->get_xs(), &U = so->get_us();
  double mag = 1., g0 = 0.;
  for (auto& x : X) mag = std::max(mag, x.cwiseAbs().maxCoeff());
  Feas f = feasibility(*k.p, X, U);
  Traj gx = xs, gu = us;
  if (gu.empty())
    for (auto& m : k.running) gu.push_back(VectorXd::Zero(m->get_nu()));
  if (gx.empty()) gx.assign(k.T() + 1, k.st->zero());
  for (auto& v : Local(k, gx, gu).g) g0 = std::max(g0, v.size() ? v.cwiseAbs().maxCoeff() : 0.);
  // Rotations are not smooth half a turn apart: runs that get stuck there are left out.
  if (dynamic_cast<LieState*>(k.st.get()))
    for (auto& r : rec->log)
      if (d && r.preg > 1.) {
        c.label("stuck");
        return;
      }
  // Size of the last step
  double du = 0., dx = 0.;
  if (kind != kIpopt) {
    Traj px = rec->log.size() > 1 ? rec->log[rec->log.size() - 2].xs : gx, pu = rec->log.size() > 1 ? rec->log[rec->log.size() - 2].us : gu;
    for (int t = 0; t < k.T(); ++t) du += (U[t] - pu[t]).norm();
    for (int t = 0; t <= k.T(); ++t) dx += ref_diff(*k.st, px[t], X[t]).norm();
    Local a(k, px, pu), b(k, X, U);
    // the measure of the KKT solver includes the gaps
    if (kind == kKKT) {
      double pf = feasibility(*k.p, px, pu).finf;
      if (!(pf < 1.01 * std::sqrt(th) + 1e-12 * mag)) fail("feasible-before", "gap before the last step " + num(pf) + " threshold " + num(th));
    }
    double L = std::max(a.L, b.L), S = std::max(a.S, b.S), hn = std::max(a.hn, b.hn);
    double preg = d ? 10. * rec->log.back().preg : 0.;
    double pre = kind == kKKT ? 3. * S * std::sqrt(th) : 3. * std::sqrt(2. * th * (L + preg)) + 1e-9 * hn * S;
    if (a.lmin + preg > 1e-7) {
      judge("before the last step", pu, a, pre, lim, k, c);
      judge("result", U, b, pre + 10. * (L + hn * S) * (du + dx), lim, k, c);
      c.nontrivial = pre < 0.1 * g0;
    }
    double gap = kind == kKKT ? 3. * std::sqrt(th) + 10. * hn * S * (du + dx) : 1e-9 * mag;
    if (f.finf > gap) fail("feasible", "gap " + num(f.finf) + " allowed " + num(gap));
    if (kind != kKKT) require(same(X[0], k.x0), "initial-state");
  } else {
    Local b(k, X, U);
    double bound = 1e-5 * b.S * b.hn;
    judge("result", U, b, bound, lim, k, c);
    if (f.finf > 2e-6 * mag) fail("feasible", "gap " + num(f.finf));
    c.nontrivial = bound < 0.1 * g0;
  }
}
static void shooting(Src& s, Case& c) { run(s, c, kDDP, kIntro); }
static void trap(Src& s, Case& c) { run(s, c, kDDP, kIntro, true); }
static void kkt(Src& s, Case& c) { run(s, c, kKKT, kKKT); }
static void ipopt(Src& s, Case& c) { run(s, c, kIpopt, kIpopt); }

int main(int argc, char** argv) {
  Check k("C03",
          "A case is a smooth nonlinear problem of up to five mixed nodes (box solvers and Ipopt: also with control limits), "
          "a solver, a guess, a stopping threshold, iteration limit and regularization. When convergence is reported the "
          "candidate has to be feasible and the adjoint gradient of the rollout cost (projected on the limits) is compared "
          "with a bound derived from the threshold and the condensed Hessian. Non-trivial: converged, and the bound is below "
          "a tenth of the gradient at the guess.");
  k.family("shooting", 15000, 400000, shooting);
  k.family("no-promise", 6000, 150000, trap);
  k.family("kkt", 3000, 80000, kkt);
  k.family("ipopt", 1500, 30000, ipopt);
  return k.main(argc, argv);
}
