// USES_SOLVERS
// Box solvers respect the control limits and reach the constrained optimum.
#include "common/solve.hpp"
using namespace vf;

// min 0.5 U'HU + g'U, lb <= U <= ub, by a primal active-set method.
static VectorXd box_minimiser(const MatrixXd& H, const VectorXd& g, const VectorXd& lb, const VectorXd& ub) {
  int n = g.size();
  VectorXd x = VectorXd::Zero(n).cwiseMax(lb).cwiseMin(ub);
  std::vector<int> act(n, 0);
  for (int i = 0; i < n; ++i) act[i] = x[i] == lb[i] ? -1 : x[i] == ub[i] ? 1 : 0;
  for (int it = 0; it < 1000; ++it) {
    std::vector<int> fr;
    for (int i = 0; i < n; ++i)
      if (!act[i]) fr.push_back(i);
    VectorXd gr = H * x + g;
    int m = fr.size(), blk = -1, side = 0;
    if (m) {
      MatrixXd Hf(m, m);
      VectorXd gf(m);
      for (int i = 0; i < m; ++i) {
        gf[i] = gr[fr[i]];
        for (int j = 0; j < m; ++j) Hf(i, j) = H(fr[i], fr[j]);
      }
      VectorXd d = -Hf.ldlt().solve(gf);
      double a = 1.;
      for (int i = 0; i < m; ++i) {
        int v = fr[i];
        if (d[i] > 0 && x[v] + a * d[i] > ub[v]) a = (ub[v] - x[v]) / d[i], blk = v, side = 1;
        if (d[i] < 0 && x[v] + a * d[i] < lb[v]) a = (lb[v] - x[v]) / d[i], blk = v, side = -1;
      }
      for (int i = 0; i < m; ++i) x[fr[i]] += a * d[i];
      if (blk >= 0) {
        x[blk] = side > 0 ? ub[blk] : lb[blk];
        act[blk] = side;
        continue;
      }
      gr = H * x + g;
    }
    int w = -1;
    double worst = -1e-12;
    for (int i = 0; i < n; ++i)
      if (act[i] && -act[i] * gr[i] < worst) worst = -act[i] * gr[i], w = i;
    if (w < 0) return x;
    act[w] = 0;
  }
  throw Discard();
}

struct Limits {
  VectorXd lb, ub;
};
static Limits gen_limits(Src& s, int nu) {
  Limits l;
  l.lb = VectorXd::Constant(nu, -INF), l.ub = VectorXd::Constant(nu, INF);
  double w = s.pick<double>({0.1, 1., 3.});
  for (int i = 0; i < nu; ++i) {
    int k = s.integer(0, 4);
    double m = s.real(w), h = std::fabs(s.real(w));
    if (k == 1 || k >= 3) l.lb[i] = m - h;
    if (k == 2 || k >= 3) l.ub[i] = m + h;
  }
  return l;
}

// In any order, over other limits or none.
static void put_limits(Src& s, Action& m, const Limits& l) {
  if (s.chance(1, 4)) {
    Limits o = gen_limits(s, m.get_nu());
    m.set_u_ub(o.ub), m.set_u_lb(o.lb);
  }
  bool first = s.flip();
  for (int i = 0; i < 2; ++i) {
    bool lower = (i == 0) == first;
    const VectorXd& v = lower ? l.lb : l.ub;
    if (v != (lower ? m.get_u_lb() : m.get_u_ub()) || s.flip()) lower ? m.set_u_lb(v) : m.set_u_ub(v);
  }
}

static void lq(Src& s, Case& c) {
  int kind = s.flip() ? kBoxDDP : kBoxFDDP;
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  LQSpec sp;
  sp.maxT = 5;
  sp.zero_nu = s.chance(1, 5);
  sp.empty = true;
  LQProblem k = gen_lq(s, c, sp);
  int n = k.n();
  VectorXd lb = VectorXd::Constant(n, -INF), ub = -lb;
  std::map<Action*, Limits> lim;
  int iu = 0;
  bool limits = s.chance(9, 10);
  for (int t = 0; t < k.T; ++t) {
    Action* m = k.models[t].get();
    if (!lim.count(m)) {
      lim[m] = gen_limits(s, k.nu[t]);
      if (!limits || s.chance(1, 4)) lim[m].lb.setConstant(-INF), lim[m].ub.setConstant(INF);
      put_limits(s, *m, lim[m]);
    }
    lb.segment(iu, k.nu[t]) = lim[m].lb;
    ub.segment(iu, k.nu[t]) = lim[m].ub;
    iu += k.nu[t];
  }
  if (n == 0) throw Discard();
  VectorXd U = box_minimiser(k.H, k.g, lb, ub);
  double cs = k.cost(U), mag = 1. + std::fabs(cs) + k.g.cwiseAbs().dot(U.cwiseAbs()) + std::fabs(k.c);
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(k.H);
  double lmin = es.eigenvalues().minCoeff(), lmax = es.eigenvalues().maxCoeff();
  if (lmax > 1e5 * lmin) throw Discard();

  auto so = make_solver(kind, k.p);
  Traj xs, us;
  int guess = s.integer(0, 3);
  bool feasible = false, inside = false;
  if (guess)
    for (int v : k.nu) us.push_back(s.vec(v, 2.));
  if (guess == 2) {
    inside = s.chance(3, 4);
    if (inside) {
      int i = 0;
      for (auto& u : us)
        for (int j = 0; j < u.size(); ++j, ++i) u[j] = std::min(std::max(u[j], lb[i]), ub[i]);
    }
    xs = k.p->rollout_us(us);
    feasible = true;
    c.label("feasible-guess");
  } else if (guess == 3) {
    for (int i = 0; i <= k.T; ++i) xs.push_back(s.vec(k.nx, 2.));
    c.label("infeasible-guess");
  }
  c.desc << " guess " << guess << " lb " << lb.transpose() << " ub " << ub.transpose();
  so->set_th_stop(1e-9);
  bool ok = so->solve(xs, us, 300, feasible);
  c.desc << " -> " << so->get_iter() << (ok ? "+" : "-");
  VectorXd V = k.stack(so->get_us());
  if (!ok && !inside) throw Discard();
  if (!ok) fail("converged", "no convergence after " + std::to_string(so->get_iter()) + " iterations, stop " + num(so->get_stop()) + " cost " + num(so->get_cost()) + " optimum " + num(cs) + " us " + str(V) + " vs " + str(U));
  for (int i = 0; i < n; ++i)
    if (V[i] < lb[i] || V[i] > ub[i]) fail("limits", "control " + std::to_string(i) + " " + num(V[i]) + " outside [" + num(lb[i]) + ", " + num(ub[i]) + "]");
  double gap = 1e-7 * mag;
  if (k.cost(V) - cs > gap) fail("optimum", "cost of the controls " + num(k.cost(V)) + " optimum " + num(cs) + " us " + str(V) + " vs " + str(U));
  nearm("us", V, U, std::sqrt(2. * gap / lmin));
  VectorXd gr = k.H * U + k.g;
  auto* d = dynamic_cast<DDP*>(so.get());
  iu = 0;
  int clamped = 0;
  for (int t = 0; t < k.T; ++t)
    for (int j = 0; j < k.nu[t]; ++j, ++iu)
      if ((U[iu] == lb[iu] && gr[iu] > 1e-2 * mag) || (U[iu] == ub[iu] && gr[iu] < -1e-2 * mag)) {
        ++clamped;
        require(d->get_K()[t].row(j).cwiseAbs().maxCoeff() == 0., "clamped-gain", "node " + std::to_string(t));
      }
  if (clamped) c.label("clamped");
  c.nontrivial = clamped || !limits;
}


static std::map<Action*, Limits> set_limits(Src& s, const ProblemCase& k, int num) {
  std::map<Action*, Limits> lim;
  for (auto& m : k.running) {
    int nu = m->get_nu();
    if (!nu || lim.count(m.get())) continue;
    Limits l = gen_limits(s, nu);
    if (num == 0 || s.chance(1, 5)) l.lb.setConstant(-INF), l.ub.setConstant(INF);
    put_limits(s, *m, l);
    lim[m.get()] = l;
  }
  return lim;
}
static void clamp(Traj& us, const ProblemCase& k, const std::map<Action*, Limits>& lim) {
  for (int t = 0; t < k.T(); ++t) {
    auto i = lim.find(k.running[t].get());
    if (i != lim.end()) us[t] = us[t].cwiseMax(i->second.lb).cwiseMin(i->second.ub);
  }
}

// Nonlinear problems: every candidate of a run is within the limits.
static void inside(Src& s, Case& c) {
  int kind = s.flip() ? kBoxDDP : kBoxFDDP;
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  NodeSpec sp;
  sp.cons = s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1., 0.});
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5);
  auto lim = set_limits(s, k, 1);
  auto so = make_solver(kind, k.p);
  auto rec = std::make_shared<Recorder>();
  so->setCallbacks({rec});
  Traj us = k.us(s, s.pick<double>({0.3, 1., 3.})), xs;
  // from a guess with gaps or beyond the limits: every candidate that a step led to
  bool any = s.chance(1, 3);
  if (any) {
    xs = k.xs(s, s.pick<double>({0.3, 1.}));
    c.label("any-guess");
    if (s.flip()) dynamic_cast<DDP*>(so.get())->set_alphas({0.7, 0.3, 0.1});
  } else {
    clamp(us, k, lim);
    if (throws([&] { xs = k.p->rollout_us(us); })) throw Discard();
  }
  for (auto& x : xs)
    if (!(x.cwiseAbs().maxCoeff() < 1e4)) throw Discard();
  so->set_th_stop(1e-9);
  so->solve(xs, us, s.chance(1, 3) ? s.integer(0, 3) : 30, !any, s.chance(1, 4) ? s.logu(1e-9, 1e3) : NAN);
  int active = 0;
  auto check = [&](const Traj& v, const std::string& w) {
    for (int t = 0; t < k.T(); ++t) {
      auto i = lim.find(k.running[t].get());
      if (i == lim.end()) continue;
      for (int j = 0; j < v[t].size(); ++j) {
        double a = i->second.lb[j], b = i->second.ub[j];
        if (!(v[t][j] >= a && v[t][j] <= b))
          fail("limits", w + " node " + std::to_string(t) + " control " + std::to_string(j) + " " + num(v[t][j]) + " outside [" + num(a) + ", " + num(b) + "]");
        active += v[t][j] == a || v[t][j] == b;
      }
    }
  };
  auto stepped = [&](const Traj& v) {
    for (int t = 0; any && t < k.T(); ++t)
      if (!same(v[t], us[t])) return true;
    return !any;
  };
  for (size_t i = 0; i < rec->log.size(); ++i)
    if (stepped(rec->log[i].us)) check(rec->log[i].us, "iteration " + std::to_string(i));
  if (stepped(so->get_us())) check(so->get_us(), "result");
  c.nontrivial = active > 0;
}

// Without limits (or while the candidate has gaps) the gains are those of the
// unconstrained solver, step by step.
static void nolimits(Src& s, Case& c) {
  bool f = s.flip();
  int kind = f ? kBoxFDDP : kBoxDDP;
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  NodeSpec sp;
  sp.cons = s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5);
  set_limits(s, k, 0);
  auto a = make_solver(kind, k.p), b = make_solver(f ? kFDDP : kDDP, k.p);
  dynamic_cast<DDP*>(b.get())->set_alphas(dynamic_cast<DDP*>(a.get())->get_alphas());
  a->set_th_stop(1e-8), b->set_th_stop(1e-8);
  auto ra = std::make_shared<Recorder>(), rb = std::make_shared<Recorder>();
  a->setCallbacks({ra}), b->setCallbacks({rb});
  Traj us = k.us(s), xs = k.xs(s);
  int g = s.integer(0, 2);
  bool feas = false;
  if (g == 1) {
    if (throws([&] { xs = k.p->rollout_us(us); })) throw Discard();
    for (auto& x : xs)
      if (!(x.cwiseAbs().maxCoeff() < 1e4)) throw Discard();
    feas = true;
  }
  if (g == 2) xs.clear();
  int n = s.integer(0, 15);
  bool oa = a->solve(xs, us, n, feas), ob = b->solve(xs, us, n, feas);
  require(oa == ob, "status");
  require(ra->log.size() == rb->log.size(), "iterations", std::to_string(ra->log.size()) + " vs " + std::to_string(rb->log.size()));
  for (size_t i = 0; i < ra->log.size(); ++i) {
    std::string w = "iteration " + std::to_string(i);
    for (int t = 0; t < k.T(); ++t) nearm("us", ra->log[i].us[t], rb->log[i].us[t], 1e-12, w);
    for (int t = 0; t <= k.T(); ++t) nearm("xs", ra->log[i].xs[t], rb->log[i].xs[t], 1e-12, w);
    near("cost", ra->log[i].cost, rb->log[i].cost, 1e-12, w);
  }
  c.nontrivial = ra->log.size() > 0;
}

// The direction at a feasible candidate within the limits: at every node the
// minimiser of the local box QP, gains of the free controls only, and the value
// function of that policy.
static void direction(Src& s, Case& c) {
  int kind = s.flip() ? kBoxDDP : kBoxFDDP;
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  NodeSpec sp;
  sp.cons = s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5);
  auto lim = set_limits(s, k, 1);
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  int n = s.integer(1, 2);
  for (int it = 0; it < n; ++it) {
    Traj us = k.us(s, s.pick<double>({0.3, 1., 3.})), xs;
    clamp(us, k, lim);
    xs = k.p->rollout_us(us);
    for (auto& x : xs)
      if (!(x.cwiseAbs().maxCoeff() < 1e3)) throw Discard();
    so->setCandidate(xs, us, true);
    double reg = s.chance(1, 4) ? 0. : s.logu(1e-9, 10.);
    d->set_preg(reg);
    if (throws([&] { so->computeDirection(true); })) throw Discard();
    double d0 = 0, d1 = 0, ab = 1.;
    for (int t = k.T() - 1; t >= 0; --t) {
      auto m = k.running[t];
      int nu = m->get_nu();
      std::string w = "node " + std::to_string(t);
      auto dt = m->createData();
      m->calc(dt, xs[t], us[t]);
      m->calcDiff(dt, xs[t], us[t]);
      MatrixXd V = d->get_Vxx()[t + 1];
      VectorXd v = d->get_Vx()[t + 1];
      MatrixXd Qxx = dt->Lxx + dt->Fx.transpose() * V * dt->Fx;
      VectorXd Qx = dt->Lx + dt->Fx.transpose() * v;
      MatrixXd Vxx = Qxx;
      VectorXd Vx = Qx;
      if (nu) {
        MatrixXd Quu = dt->Luu + dt->Fu.transpose() * V * dt->Fu, Qxu = dt->Lxu + dt->Fx.transpose() * V * dt->Fu;
        Quu.diagonal().array() += reg;
        VectorXd Qu = dt->Lu + dt->Fu.transpose() * v;
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(Quu);
        double lmin = es.eigenvalues().minCoeff(), lmax = es.eigenvalues().maxCoeff();
        if (lmin < 1e-4 * std::max(1., lmax)) throw Discard();
        VectorXd lb = VectorXd::Constant(nu, -INF), ub = -lb;
        if (lim.count(m.get())) lb = lim[m.get()].lb, ub = lim[m.get()].ub;
        VectorXd du = box_minimiser(Quu, Qu, lb - us[t], ub - us[t]), got = -d->get_k()[t];
        double tol = 2e-5 * (1. + Qu.cwiseAbs().maxCoeff()) / lmin;
        for (int i = 0; i < nu; ++i)
          if (std::fabs(got[i] - du[i]) > tol) fail("k", w + " step " + str(got) + " expected " + str(du));
        VectorXd gr = Quu * du + Qu, gg = Quu * got + Qu;
        MatrixXd K = d->get_K()[t];
        std::vector<int> fr;
        bool sure = true;
        double gs = 1e-4 * (1. + Qu.cwiseAbs().maxCoeff());
        for (int i = 0; i < nu; ++i) {
          bool at = us[t][i] + du[i] - lb[i] < 1e-9 || ub[i] - us[t][i] - du[i] < 1e-9;
          if (at && std::fabs(gr[i]) > gs) {
            c.nontrivial = true;
            c.label("clamped");
            if (K.row(i).cwiseAbs().maxCoeff() != 0.) fail("clamped-gain", w + " control " + std::to_string(i));
          } else if (!at && us[t][i] + du[i] - lb[i] > 2 * tol && ub[i] - us[t][i] - du[i] > 2 * tol) {
            fr.push_back(i);
          } else {
            sure = false;
          }
        }
        if (sure && fr.size()) {
          int q = fr.size();
          MatrixXd A(q, q), B(q, K.cols()), Kf(q, K.cols());
          for (int i = 0; i < q; ++i) {
            for (int j = 0; j < q; ++j) A(i, j) = Quu(fr[i], fr[j]);
            B.row(i) = Qxu.col(fr[i]).transpose();
            Kf.row(i) = K.row(fr[i]);
          }
          nearm("K", Kf, MatrixXd(A.ldlt().solve(B)), 1e-7, w);
        }
        VectorXd kk = d->get_k()[t];
        if (sure) {
          Vxx += K.transpose() * Quu * K - Qxu * K - K.transpose() * Qxu.transpose();
          Vx += K.transpose() * (Quu * kk - Qu) - Qxu * kk;
        }
        d0 += Qu.dot(kk);
        d1 -= kk.dot(Quu * kk);
        ab += std::fabs(Qu.dot(kk)) + std::fabs(kk.dot(Quu * kk));
        if (!sure) {
          Vxx = d->get_Vxx()[t], Vx = d->get_Vx()[t];
          Vxx.diagonal().array() -= reg;
        }
      }
      Vxx.diagonal().array() += reg;
      nearm("Vxx", d->get_Vxx()[t], Vxx, 1e-7, w);
      nearm("Vx", d->get_Vx()[t], Vx, 1e-4, w);
    }
    if (auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(d)) fd->updateExpectedImprovement();
    Eigen::Vector2d e = so->expectedImprovement();
    near("expected", e[0], d0, 1e-8 * ab);
    near("expected", e[1], d1, 1e-8 * ab);
  }
}

int main(int argc, char** argv) {
  Check k("C06",
          "A case is an LQ or nonlinear problem of up to five nodes with limits on any subset of the controls (also "
          "one-sided, also none), a box solver and a guess. LQ results are compared with an active-set solution of the "
          "condensed box QP; candidates of nonlinear runs are checked against the limits; directions at feasible candidates "
          "with the local box QP; runs without limits with the unconstrained solver. Non-trivial: some limit is active (or "
          "there is a run without limits).");
  k.family("lq", 60000, 1500000, lq);
  k.family("inside", 10000, 300000, inside);
  k.family("nolimits", 6000, 150000, nolimits);
  k.family("direction", 20000, 500000, direction);
  return k.main(argc, argv);
}
