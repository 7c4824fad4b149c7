// USES_SOLVERS
// A reported solution is consistent with the problem it was solved for.
#include "common/solve.hpp"
using namespace vf;

static bool shooting(int kind) { return kind <= kIntro; }

static void add_faults(Src& s, Case& c, ProblemCase& k) {
  std::vector<std::shared_ptr<Action>> all = k.running;
  all.push_back(k.terminal);
  for (auto& m : all) {
    auto* n = dynamic_cast<NlAction*>(m.get());
    if (!n || !s.chance(1, 2)) continue;
    n->fault = s.integer(1, 6);
    n->limit = s.logu(0.5, 20.);
    c.label("faults");
    c.desc << " fault" << n->fault << "@" << n->limit;
  }
}
static bool finite(const Traj& t) {
  for (auto& v : t)
    if (!v.allFinite()) return false;
  return true;
}

// Ipopt evaluates the objective before it moves the point back from the bounds it
// relaxed by 1e-8.
static double ctol(const Problem& p, int kind) {
  if (kind != kIpopt) return 1e-12;
  for (auto& m : p.get_runningModels())
    if (m->get_has_control_limits()) return 1e-5;
  return 1e-8;
}

// What must hold between a solver's fields and its problem.
static void consistent(Solver& so, const Problem& p, int kind, const std::string& w) {
  require((int)so.get_xs().size() == (int)p.get_T() + 1 && so.get_us().size() == p.get_T(), "size", w);
  for (size_t i = 0; i <= p.get_T(); ++i) require(so.get_xs()[i].size() == (int)p.get_nx(), "size", w);
  for (size_t i = 0; i < p.get_T(); ++i) require(so.get_us()[i].size() == (int)p.get_runningModels()[i]->get_nu(), "size", w);
  Feas f = feasibility(p, so.get_xs(), so.get_us());
  if (std::isfinite(f.cost)) near("cost", so.get_cost(), f.cost, ctol(p, kind) * (1. + f.cabs), w);
  if (!shooting(kind)) return;
  bool l1 = so.get_feasnorm() == crocoddyl::L1;
  double F = l1 ? f.f1 : f.finf, mag = 1.;
  for (auto& x : so.get_xs()) mag = std::max(mag, x.cwiseAbs().sum());
  if (std::isfinite(F)) near("ffeas", so.get_ffeas(), F, 1e-10 * mag, w);
  if (so.get_is_feasible()) {
    require(same(so.get_xs()[0], p.get_x0()), "initial-state", w);
    require(f.finf <= 1e-11 * mag, "dynamics", w + " gap " + num(f.finf));
  }
}

static void run(Src& s, Case& c, int lo, int hi) {
  int kind = s.integer(lo, hi);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  NodeSpec sp;
  sp.bounds = s.flip();
  sp.cons = kind == kIntro ? s.flip() : s.chance(1, 4);
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1., 0.});
  sp.dyn = s.pick<double>({0.7, 1.5});
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 6);
  bool f = kind != kIpopt && s.chance(1, 3);
  if (f) add_faults(s, c, k);
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  auto rec = std::make_shared<Recorder>();
  auto second = std::make_shared<Recorder>();
  rec->more = [&](Solver& v) { consistent(v, *k.p, kind, "in iteration " + std::to_string(rec->log.size() - 1)); };
  so->setCallbacks({rec, second});
  if (s.flip()) so->set_feasnorm(crocoddyl::L1);
  if (s.chance(1, 3)) so->set_th_acceptstep(s.pick<double>({0.01, 0.5, 0.9}));
  if (s.chance(1, 3)) so->set_th_stop(s.logu(1e-12, 1e-1));
  if (d && s.chance(1, 4)) d->set_alphas(s.flip() ? std::vector<double>{1.} : std::vector<double>{0.7, 0.3});
  if (d && s.chance(1, 4)) d->set_reg_max(s.pick<double>({1e-3, 1e2}));

  int runs = s.integer(1, 2);
  for (int r = 0; r < runs; ++r) {
    rec->log.clear(), second->log.clear();
    Traj us, xs;
    int guess = s.integer(0, 3);
    double us_scale = s.pick<double>({0.3, 1., 3.});
    if (guess) us = k.us(s, us_scale);
    bool feasible = false;
    if (guess == 2) {
      if (throws([&] { xs = k.p->rollout_us(us); }) || !finite(xs)) {
        xs.clear();
      } else {
        feasible = s.flip();
      }
    }
    if (guess == 3) xs = k.xs(s, s.pick<double>({0.3, 1.}));
    // The guess itself has to be evaluable.
    Traj gx = xs, gu = us;
    if (gx.empty())
      for (int i = 0; i <= k.T(); ++i) gx.push_back(k.st->zero());
    if (gu.empty())
      for (auto& m : k.running) gu.push_back(VectorXd::Zero(m->get_nu()));
    if (f) {
      bool bad = throws([&] { bad = !std::isfinite(feasibility(*k.p, gx, gu).f1) || !std::isfinite(feasibility(*k.p, gx, gu).cost); if (bad) throw std::runtime_error("not evaluable"); });
      if (bad) throw Discard();
    }
    int maxiter = s.chance(1, 10) ? 0 : s.chance(1, 3) ? s.integer(1, 3) : s.integer(1, 25);
    double reg = s.chance(1, 4) ? s.logu(1e-9, 1e3) : NAN;
    c.desc << " run: guess " << guess << (feasible ? "F" : "") << " maxiter " << maxiter;
    bool ok = so->solve(xs, us, maxiter, feasible, reg);
    int it = so->get_iter(), n = rec->log.size();
    c.desc << " -> " << it << (ok ? "+" : "-");
    require(it <= maxiter, "limit", std::to_string(it) + " of " + std::to_string(maxiter));
    if (maxiter == 0) {
      for (int i = 0; i <= k.T(); ++i) nearm("no-iteration", so->get_xs()[i], gx[i], kind == kIpopt ? 1e-7 : 0., "xs");
      require(!ok || kind == kIpopt, "no-iteration");
      continue;
    }
    consistent(*so, *k.p, kind, "after the run");
    if (kind == kIpopt) {
      c.nontrivial = c.nontrivial || it > 0;
      continue;
    }
    if (ok)
      require(n == it + 1, "callbacks", std::to_string(n) + " calls, converged in iteration " + std::to_string(it));
    else if (it == maxiter)
      require(n == maxiter, "callbacks", std::to_string(n) + " calls, limit " + std::to_string(maxiter));
    else
      require(n == it || n == it + 1, "callbacks", std::to_string(n) + " calls, stopped in iteration " + std::to_string(it));
    for (int i = 0; i < n; ++i) require((int)rec->log[i].iter == i, "iter", std::to_string(i));
    require(second->log.size() == rec->log.size(), "callbacks", "second callback");
    if (n && (n == it + 1 || it == maxiter)) {
      const Step& t = rec->log.back();
      for (int i = 0; i <= k.T(); ++i) require(same(t.xs[i], so->get_xs()[i]), "last-callback", "xs");
      for (int i = 0; i < k.T(); ++i) require(same(t.us[i], so->get_us()[i]), "last-callback", "us");
      require(same(t.cost, so->get_cost()) && t.feasible == so->get_is_feasible(), "last-callback");
      bool moved = false;
      Traj last = gx;
      for (auto& q : rec->log) moved = moved || !(q.xs == last), last = q.xs;
      if (moved) c.nontrivial = true;
    }
    c.label(ok ? "converged" : it == maxiter ? "limit" : "aborted");
  }
}
static void shoot(Src& s, Case& c) { run(s, c, kDDP, kIntro); }
static void kkt(Src& s, Case& c) { run(s, c, kKKT, kKKT); }
static void ipopt(Src& s, Case& c) { run(s, c, kIpopt, kIpopt); }

int main(int argc, char** argv) {
  Check k("C02",
          "A case is a problem of up to six mixed nodes (nonlinear, LQ, integrated costs and constraints, Lie-group states, "
          "control limits, nodes without controls, models that fail or give NaN away from the guess), a solver with "
          "generated settings and one or two runs from generated guesses with limits from 0 to 25; every callback and the "
          "result are compared with an independent node-by-node evaluation. Non-trivial: a step was accepted.");
  k.family("shooting", 20000, 400000, shoot);
  k.family("kkt", 3000, 60000, kkt);
  k.family("ipopt", 800, 15000, ipopt);
  return k.main(argc, argv);
}
