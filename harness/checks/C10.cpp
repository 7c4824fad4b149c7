// USES_SOLVERS
// Solving depends only on problem, guess and settings, not on history.
#include "common/solve.hpp"
using namespace vf;

// The settings of a solver, by their getters and setters.
struct Settings {
  std::map<std::string, double> v;
  std::vector<double> alphas;
};
static void visit(Solver& so, const std::function<void(const char*, double, const std::function<void(double)>&)>& f) {
  f("acceptstep", so.get_th_acceptstep(), [&](double v) { so.set_th_acceptstep(v); });
  f("gaptol", so.get_th_gaptol(), [&](double v) { so.set_th_gaptol(v); });
  f("feasnorm", so.get_feasnorm(), [&](double v) { so.set_feasnorm(v ? crocoddyl::L1 : crocoddyl::LInf); });
  auto* ip = dynamic_cast<crocoddyl::SolverIpopt*>(&so);
  f("stop", so.get_th_stop(), [&so, ip](double v) { ip ? ip->set_th_stop(v) : so.set_th_stop(v); });
  if (auto* d = dynamic_cast<DDP*>(&so)) {
    f("inc", d->get_reg_incfactor(), [d](double v) { d->set_reg_incfactor(v); });
    f("dec", d->get_reg_decfactor(), [d](double v) { d->set_reg_decfactor(v); });
    f("min", d->get_reg_min(), [d](double v) { d->set_reg_min(v); });
    f("max", d->get_reg_max(), [d](double v) { d->set_reg_max(v); });
    f("stepdec", d->get_th_stepdec(), [d](double v) { d->set_th_stepdec(v); });
    f("stepinc", d->get_th_stepinc(), [d](double v) { d->set_th_stepinc(v); });
    f("grad", d->get_th_grad(), [d](double v) { d->set_th_grad(v); });
  }
  if (auto* d = dynamic_cast<crocoddyl::SolverFDDP*>(&so)) f("negstep", d->get_th_acceptnegstep(), [d](double v) { d->set_th_acceptnegstep(v); });
  if (auto* d = dynamic_cast<crocoddyl::SolverIntro*>(&so)) {
    f("equality", d->get_equality_solver(), [d](double v) { d->set_equality_solver(v == 0 ? crocoddyl::LuNull : v == 1 ? crocoddyl::QrNull : crocoddyl::Schur); });
    f("feas", d->get_th_feas(), [d](double v) { d->set_th_feas(v); });
    f("rho", d->get_rho(), [d](double v) { d->set_rho(v); });
  }
}
static Settings read(Solver& so) {
  Settings q;
  visit(so, [&](const char* n, double v, const std::function<void(double)>&) { q.v[n] = v; });
  if (auto* d = dynamic_cast<DDP*>(&so)) q.alphas = d->get_alphas();
  return q;
}
static void write(Solver& so, const Settings& q) {
  visit(so, [&](const char* n, double, const std::function<void(double)>& set) { set(q.v.at(n)); });
  if (auto* d = dynamic_cast<DDP*>(&so)) d->set_alphas(q.alphas);
}
static Settings draw(Src& s, Settings q, int den) {
  auto put = [&](const char* n, double v) {
    if (q.v.count(n) && s.chance(1, den)) q.v[n] = v;
  };
  put("acceptstep", s.pick<double>({1e-4, 0.1, 0.5, 0.99}));
  put("gaptol", s.logu(1e-16, 1e-2));
  put("feasnorm", s.integer(0, 1));
  put("stop", s.logu(1e-12, 1e-1));
  put("inc", s.uni(1.5, 20.));
  put("dec", s.uni(1.5, 20.));
  put("min", s.logu(1e-12, 1e-3));
  put("max", s.logu(1e-1, 1e9));
  put("stepdec", s.uni(0.01, 1.));
  put("stepinc", s.uni(0.01, 1.));
  put("grad", s.logu(1e-12, 1e-2));
  put("negstep", s.uni(0., 3.));
  put("equality", s.integer(0, 2));
  put("feas", s.logu(1e-8, 1e-2));
  put("rho", s.uni(0.1, 0.9));
  if (!q.alphas.empty() && s.chance(1, den)) q.alphas = s.flip() ? std::vector<double>{1., 0.3} : std::vector<double>{0.9, 0.5, 0.1, 0.01};
  return q;
}

struct Args {
  Traj xs, us;
  int maxiter;
  bool feasible;
  double reg;
};
static Args draw_args(Src& s, const ProblemCase& k, int max) {
  Args a;
  int guess = s.integer(0, 4);
  double sc = s.pick<double>({0.3, 1., 2.});
  a.feasible = false;
  if (guess) a.us = k.us(s, sc);
  if (guess == 2) {
    Traj x;
    if (!throws([&] { x = k.p->rollout_us(a.us); })) a.xs = x, a.feasible = s.flip();
  }
  if (guess == 3) a.xs = k.xs(s, s.pick<double>({0.3, 1.}));
  if (guess == 4) {
    // where another solver got to: there may be nothing left to gain
    auto o = make_solver(kDDP, std::make_shared<Problem>(k.x0, k.running, k.terminal));
    o->set_th_stop(s.logu(1e-16, 1e-6));
    if (!throws([&] { o->solve({}, a.us, 50); }) && o->get_is_feasible()) a.xs = o->get_xs(), a.us = o->get_us(), a.feasible = s.flip();
  }
  a.maxiter = s.chance(1, 8) ? 0 : s.integer(1, max);
  a.reg = s.chance(1, 3) ? s.logu(1e-9, 1e2) : NAN;
  return a;
}

// Everything a run shows.
struct Result {
  bool ok = false, thrown = false;
  std::string what;
  std::vector<Step> log;
  Traj xs, us, fs, k, Vx;
  std::vector<MatrixXd> K;
  double cost, stop, ffeas, gfeas, hfeas;
  bool feasible;
  size_t iter;
  // first direction: smallest eigenvalue of the control Hessians, controls without feedback
  double qmin = INF;
  std::vector<bool> fixed;
};
static Result run(Solver& so, const Args& a, const std::function<void(Solver&)>& more = nullptr) {
  Result r;
  auto rec = std::make_shared<Recorder>();
  rec->more = [&](Solver& v) {
    auto* d = dynamic_cast<DDP*>(&v);
    if (d && r.fixed.empty())
      for (size_t t = 0; t < d->get_Quu().size(); ++t) {
        if (!d->get_Quu()[t].size() || !d->get_Quu()[t].allFinite()) continue;
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(d->get_Quu()[t]);
        r.qmin = std::min(r.qmin, es.eigenvalues().minCoeff());
        for (int j = 0; j < d->get_K()[t].rows(); ++j) r.fixed.push_back(d->get_K()[t].row(j).isZero(0.));
      }
    if (more) more(v);
  };
  if (!dynamic_cast<crocoddyl::SolverIpopt*>(&so)) so.setCallbacks({rec});
  try {
    r.ok = so.solve(a.xs, a.us, a.maxiter, a.feasible, a.reg);
  } catch (const std::exception& e) {
    r.thrown = true;
  }
  so.setCallbacks({});
  r.log = rec->log;
  r.xs = so.get_xs(), r.us = so.get_us(), r.fs = so.get_fs();
  r.cost = so.get_cost(), r.stop = so.get_stop(), r.iter = so.get_iter(), r.feasible = so.get_is_feasible();
  r.ffeas = so.get_ffeas(), r.gfeas = so.get_gfeas(), r.hfeas = so.get_hfeas();
  if (auto* d = dynamic_cast<DDP*>(&so)) {
    r.k = d->get_k(), r.Vx = d->get_Vx();
    for (auto& K : d->get_K()) r.K.push_back(K);
  }
  return r;
}
static void eq(const std::string& w, const char* what, double a, double b) {
  if (!same(a, b)) fail("history", w + " " + what + " " + num(a) + " vs " + num(b));
}
static void eqs(const std::string& w, const char* what, const Traj& a, const Traj& b) {
  require(a.size() == b.size(), "history", w + " size of " + what);
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i])) fail("history", w + " " + what + " " + std::to_string(i) + ": " + str(a[i]) + " vs " + str(b[i]));
}
// iterated: a direction was computed, so measures and gains are the run's own
static void compare(const Result& a, const Result& b, const std::string& w0, int kind) {
  std::string w = w0 + " " + solver_name[kind];
  require(a.thrown == b.thrown, "history", w + " thrown " + std::to_string(a.thrown) + " " + std::to_string(b.thrown));
  size_t n = std::min(a.log.size(), b.log.size());
  for (size_t i = 0; i < n; ++i) {
    const Step &p = a.log[i], &q = b.log[i];
    std::string v = w + " iteration " + std::to_string(i);
    eq(v, "steplength", p.alpha, q.alpha);
    eqs(v, "xs", p.xs, q.xs), eqs(v, "us", p.us, q.us);
    eq(v, "cost", p.cost, q.cost), eq(v, "stop", p.stop, q.stop);
    if (kind != kKKT) eq(v, "preg", p.preg, q.preg), eq(v, "dreg", p.dreg, q.dreg);
    eq(v, "ffeas", p.ffeas, q.ffeas), eq(v, "gfeas", p.gfeas, q.gfeas), eq(v, "hfeas", p.hfeas, q.hfeas);
    eq(v, "dV", p.dV, q.dV), eq(v, "dVexp", p.dVexp, q.dVexp), eq(v, "d0", p.d0, q.d0), eq(v, "d1", p.d1, q.d1);
    if (kind == kIntro) eq(v, "merit", p.merit, q.merit);
    require(p.feasible == q.feasible, "history", v + " feasible");
  }
  require(a.log.size() == b.log.size(), "history", w + " iterations " + std::to_string(a.log.size()) + " vs " + std::to_string(b.log.size()));
  if (a.thrown) return;
  require(a.ok == b.ok && a.iter == b.iter, "history", w + " outcome " + std::to_string(a.ok) + "/" + std::to_string(a.iter) + " vs " + std::to_string(b.ok) + "/" + std::to_string(b.iter));
  eqs(w, "xs", a.xs, b.xs), eqs(w, "us", a.us, b.us);
  require(a.feasible == b.feasible, "history", w + " feasible");
  if (n == 0 && kind != kIpopt) return;
  eq(w, "cost", a.cost, b.cost);
  if (kind == kIpopt) return;
  eq(w, "stop", a.stop, b.stop);
  eq(w, "ffeas", a.ffeas, b.ffeas), eq(w, "gfeas", a.gfeas, b.gfeas), eq(w, "hfeas", a.hfeas, b.hfeas);
  eqs(w, "k", a.k, b.k), eqs(w, "Vx", a.Vx, b.Vx);
  for (size_t i = 0; i < a.K.size(); ++i) require(same(a.K[i], b.K[i]), "history", w + " K");
}
// The QPs of the box solvers start from the last gains, so runs agree to the
// tolerance of those QPs as long as they take the same decisions.
static void compare_box(const Result& a, const Result& b, const std::string& w0, int kind) {
  std::string w = w0 + " " + solver_name[kind];
  size_t n = std::min(a.log.size(), b.log.size());
  // nearly degenerate QPs can end in different active sets
  if (a.fixed != b.fixed || std::min(a.qmin, b.qmin) < 0.02) return;
  for (size_t i = 0; i < n; ++i) {
    const Step &p = a.log[i], &q = b.log[i];
    std::string v = w + " iteration " + std::to_string(i);
    double mag = 1. + std::fabs(q.cost) + std::fabs(q.dVexp);
    for (auto& x : q.xs) mag = std::max(mag, x.cwiseAbs().maxCoeff());
    if (i == 0) {
      // decisions that hang on the last digits are not compared
      bool close = std::fabs(q.dV) < 1e-6 * mag || std::fabs(q.dVexp) < 1e-6 * mag;
      if (close || !(mag < 1e3)) return;
      if (std::fabs(p.d0 - q.d0) > 1e-3 * mag) fail("history", v + " expectation " + num(p.d0) + " vs " + num(q.d0));
    }
    if (p.alpha != q.alpha || p.preg != q.preg) return;
    for (size_t t = 0; t < q.xs.size(); ++t) nearm("history", p.xs[t], q.xs[t], 1e-3 * mag, v + " xs");
    for (size_t t = 0; t < q.us.size(); ++t) nearm("history", p.us[t], q.us[t], 1e-3 * mag, v + " us");
    if (i == 0) {
      near("history", p.cost, q.cost, 1e-3 * mag, v + " cost");
      require(p.feasible == q.feasible, "history", v + " feasible");
      near("history", p.ffeas, q.ffeas, 1e-3 * mag, v + " ffeas");
      near("history", p.gfeas, q.gfeas, 1e-3 * mag, v + " gfeas");
      near("history", p.hfeas, q.hfeas, 1e-3 * mag, v + " hfeas");
    }
    return;
  }
}

static ProblemCase gen(Src& s, Case& c, int kind) {
  NodeSpec sp;
  sp.bounds = s.flip();
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1., 0.});
  sp.dyn = s.pick<double>({0.7, 1.2});
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, kind == kIpopt ? 3 : 4, s.flip());
  c.desc << " " << solver_name[kind];
  c.label(solver_name[kind]);
  return k;
}
static std::shared_ptr<Solver> make(int kind, std::shared_ptr<Problem> p) {
  auto so = make_solver(kind, p);
  if (auto* i = dynamic_cast<crocoddyl::SolverIntro*>(so.get())) i->set_zero_upsilon(true);
  if (auto* i = dynamic_cast<crocoddyl::SolverIpopt*>(so.get())) i->setStringIpoptOption("sb", "yes");
  return so;
}
static void edit(Src& s, Case& c, ProblemCase& k) {
  NodeSpec sp;
  sp.bounds = s.flip(), sp.zero_nu = true;
  std::string d;
  int q = s.integer(k.T() ? 0 : 4, 6);
  c.desc << " edit" << q;
  auto node = [&] { return gen_node(s, k.st, sp, s.integer(0, 3), &d); };
  if (q == 0 || q == 1) {
    int t = s.integer(0, k.T() - 1);
    k.running[t] = node();
    if (q)
      k.p->updateModel(t, k.running[t]);
    else
      k.p->updateNode(t, k.running[t], k.running[t]->createData());
  } else if (q == 2 || q == 3) {
    int n = s.integer(1, k.T());
    for (int i = 0; i < n; ++i) {
      auto m = s.flip() ? k.running[0] : node();
      q == 2 ? k.p->circularAppend(m, m->createData()) : k.p->circularAppend(m);
      k.running.erase(k.running.begin());
      k.running.push_back(m);
    }
  } else if (q == 4) {
    k.terminal = gen_node(s, k.st, sp, s.integer(1, 3), &d);
    k.p->updateModel(k.T(), k.terminal);
  } else if (q == 5) {
    std::vector<std::shared_ptr<Action>> v;
    for (int i = 0; i < k.T(); ++i) v.push_back(node());
    k.running = v;
    k.p->set_runningModels(v);
  } else {
    k.x0 = gen_x(s, *k.st, 0.5);
    k.p->set_x0(k.x0);
  }
}

static void used_solver(Src& s, Case& c, int kind) {
  ProblemCase k = gen(s, c, kind);
  auto A = make(kind, k.p);
  Settings def = read(*A);
  int max = kind == kIpopt ? 5 : 8;
  int n = s.integer(1, 4);
  for (int i = 0; i < n; ++i) {
    int op = s.integer(0, 5);
    c.desc << " " << op;
    if (op == 0) {  // other settings, restored at the end
      write(*A, draw(s, def, 3));
    } else if (op == 1) {  // evaluations at some candidate
      Traj xs = k.xs(s), us = k.us(s);
      throws([&] {
        k.p->is_updated();  // the problem may have been edited
        if (kind != kIpopt) A->solve(xs, us, 0);
        A->setCandidate(xs, us, s.flip());
        A->set_preg(s.logu(1e-9, 10.)), A->set_dreg(s.logu(1e-9, 10.));
        A->computeDirection(true);
        if (s.flip()) A->tryStep(s.uni(0., 1.));
        if (s.flip()) A->stoppingCriteria();
      });
    } else if (op == 2) {  // models that fail in the middle of a run
      std::vector<std::shared_ptr<NlAction>> nl;
      for (auto& m : k.running)
        if (auto a = std::dynamic_pointer_cast<NlAction>(m)) nl.push_back(a);
      if (auto a = std::dynamic_pointer_cast<NlAction>(k.terminal)) nl.push_back(a);
      for (auto& a : nl)
        if (s.flip()) a->fault = s.pick<int>({1, 2, 3, 4, 5, 6}), a->limit = s.pick<double>({0., 0.5, 1., 3.});
      Result r = run(*A, draw_args(s, k, max));
      for (auto& a : nl) a->fault = 0;
      if (r.thrown) c.label("failed-run");
    } else if (op == 3) {  // an interrupted run
      int stop = s.integer(0, 3), q = 0;
      Result r = run(*A, draw_args(s, k, max), [&](Solver&) {
        if (q++ == stop) throw std::runtime_error("interrupted");
      });
      if (r.thrown) c.label("interrupted");
    } else if (op == 4) {
      edit(s, c, k);
      c.label("edited");
    } else {
      run(*A, draw_args(s, k, max));
    }
  }
  if (A->get_iter() > 0) c.nontrivial = true;
  Settings fin = draw(s, def, 6);
  if (s.chance(1, 3)) edit(s, c, k), c.label("edited-last");
  Args a = draw_args(s, k, kind == kIpopt ? 8 : 12);
  write(*A, fin);
  auto fresh = std::make_shared<Problem>(k.x0, k.running, k.terminal);
  auto B = make(kind, fresh);
  write(*B, fin);
  c.desc << " run: " << a.xs.size() << a.us.size() << (a.feasible ? "F" : "") << " maxiter " << a.maxiter << " reg " << a.reg;
  Result b = run(*B, a), r = run(*A, a);
  bool box = false;  // QPs to be solved
  if (kind == kBoxDDP || kind == kBoxFDDP)
    for (auto& m : k.running) box = box || m->get_has_control_limits();
  if (b.thrown) c.label("thrown");
  if (box)
    compare_box(r, b, "used solver", kind);
  else
    compare(r, b, "used solver", kind);
  // and again
  Result e = run(*A, a);
  if (box)
    compare_box(e, b, "second call", kind);
  else
    compare(e, b, "second call", kind);
}
static void used(Src& s, Case& c) { used_solver(s, c, s.integer(kDDP, kKKT)); }
static void used_ipopt(Src& s, Case& c) { used_solver(s, c, kIpopt); }

// Two solvers with problems of their own that share the models, one run within the
// other's callbacks.
static void nested(Src& s, Case& c) {
  int kind = s.integer(kDDP, kKKT), other = s.integer(kDDP, kKKT);
  ProblemCase k = gen(s, c, kind);
  c.desc << " within " << solver_name[other];
  auto problem = [&] { return std::make_shared<Problem>(k.x0, k.running, k.terminal); };
  auto A = make(kind, problem()), B = make(other, k.p), C = make(kind, problem());
  ProblemCase k2 = k;
  k2.x0 = gen_x(s, *k.st, 0.5);
  k2.p = std::make_shared<Problem>(k2.x0, k2.running, k2.terminal);
  auto D = make(other, k2.p);
  Args a = draw_args(s, k, 10);
  std::vector<Args> b;
  for (int i = 0; i < 3; ++i) b.push_back(draw_args(s, k, 2));
  Result want = run(*A, a);
  int q = 0;
  Result got = run(*C, a, [&](Solver&) {
    throws([&] { (q % 2 ? B : D)->solve(b[q % 3].xs, b[q % 3].us, b[q % 3].maxiter, b[q % 3].feasible, b[q % 3].reg); });
    ++q;
  });
  c.nontrivial = q > 0;
  compare(got, want, "nested", kind);
}

// One problem, several solvers taking turns, the problem edited in between: each
// gives what it would give alone on a problem of its own.
static void turns(Src& s, Case& c) {
  int n = s.integer(2, 3);
  std::vector<int> kinds;
  for (int i = 0; i < n; ++i) kinds.push_back(s.pick<int>({kDDP, kFDDP, kIntro, kKKT}));
  ProblemCase k = gen(s, c, kinds[0]);
  std::vector<std::shared_ptr<Solver>> so;
  for (int q : kinds) so.push_back(make(q, k.p));
  int steps = s.integer(2, 5);
  for (int i = 0; i < steps; ++i) {
    if (s.chance(1, 3)) edit(s, c, k), c.label("edited");
    int q = s.integer(0, n - 1);
    c.desc << " " << solver_name[kinds[q]];
    Args a = draw_args(s, k, 6);
    auto B = make(kinds[q], std::make_shared<Problem>(k.x0, k.running, k.terminal));
    Result want = run(*B, a), got = run(*so[q], a);
    compare(got, want, "turn " + std::to_string(i), kinds[q]);
    if (i && want.log.size()) c.nontrivial = true;
  }
}

int main(int argc, char** argv) {
  Check k("C10",
          "A case is a problem of up to four mixed nodes, a solver of any kind and a history of up to four runs, runs with "
          "failing models, runs interrupted by a callback, other settings, single solver operations and problem edits, and a "
          "final run (guess, limit, regularization, settings) that is compared iteration by iteration, bit by bit, with the "
          "one of a new solver on a new problem (box solvers: to the tolerance of their warm-started QPs); or runs nested in "
          "another solver's callbacks; or solvers taking turns on a problem edited in between. Non-trivial: iterations "
          "happened before.");
  k.family("used", 30000, 250000, used);
  k.family("nested", 8000, 80000, nested);
  k.family("turns", 10000, 100000, turns);
  k.family("used-ipopt", 600, 6000, used_ipopt);
  return k.main(argc, argv);
}
