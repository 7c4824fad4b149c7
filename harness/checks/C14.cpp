// USES_SOLVERS
// VARIANT omp
// The number of threads never changes results.
#include <omp.h>
#include <atomic>
#include "common/solve.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
using namespace vf;

// A model that notes the team that evaluates it, around another model.
struct Watch : Action {
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ActionModelBase, Watch)
  std::shared_ptr<Action> m;
  std::atomic<int> team{0}, calls{0}, inside{0}, most{0};
  int spin;
  Watch(std::shared_ptr<Action> m_, int spin_) : Action(m_->get_state(), m_->get_nu(), m_->get_nr(), m_->get_ng(), m_->get_nh(), m_->get_ng_T(), m_->get_nh_T()), m(m_), spin(spin_) {
    g_lb_ = m->get_g_lb(), g_ub_ = m->get_g_ub();
  }
  void note() {
    int n = omp_get_num_threads(), o = team;
    while (o < n && !team.compare_exchange_weak(o, n)) {
    }
    ++calls;
    int k = ++inside;
    o = most;
    while (o < k && !most.compare_exchange_weak(o, k)) {
    }
    for (volatile int i = 0; i < spin; ++i) {
    }
    --inside;
  }
  void calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override { note(), m->calc(d, x, u); }
  void calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) override { m->calc(d, x); }
  void calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override { note(), m->calcDiff(d, x, u); }
  void calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) override { m->calcDiff(d, x); }
  std::shared_ptr<ActionData> createData() override { return m->createData(); }
  bool checkData(const std::shared_ptr<ActionData>& d) override { return m->checkData(d); }
};

// Many nodes of few models, so that models are used by several threads at once.
static ProblemCase gen(Src& s, Case& c, int maxT, bool limits, bool extra) {
  g_pause = s.flip();
  ProblemCase k;
  k.st = gen_state(s, 2, s.flip());
  int T = s.chance(1, 25) ? 0 : s.integer(1, maxT), pool = s.integer(1, 3);
  NodeSpec sp;
  sp.bounds = limits;
  sp.zero_nu = s.chance(1, 5);
  bool sn = s.flip();
  int nu0 = s.integer(1, 3);
  std::vector<std::shared_ptr<Action>> ms;
  c.desc << "nx=" << k.st->get_nx() << " T=" << T << " [";
  for (int i = 0; i < pool; ++i) {
    std::string d;
    auto m = gen_node(s, k.st, sp, sn ? nu0 : s.integer(sp.zero_nu ? 0 : 1, 3), &d);
    if (extra && s.chance(1, 5) && m->get_nu()) m = std::make_shared<crocoddyl::ActionModelNumDiffTpl<double>>(m, s.flip()), d += "nd";
    ms.push_back(m);
    c.desc << " " << d;
  }
  for (int i = 0; i < T; ++i) k.running.push_back(ms[s.integer(0, pool - 1)]);
  std::string d;
  if (s.flip() && ms[0]->get_nu()) {
    k.terminal = ms[0];
  } else {
    k.terminal = gen_node(s, k.st, sp, s.integer(1, 3), &d);
  }
  c.desc << " | " << d << " ]";
  k.x0 = gen_x(s, *k.st, 0.5);
  k.p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
  return k;
}
static int gen_threads(Src& s) { return s.pick<int>({1, 2, 3, 4, 5, 8, 13}); }
static void set(Problem& p, int n) {
  p.set_nthreads(n);
  size_t want = n < 1 ? CROCODDYL_WITH_NTHREADS : n;
  require(p.get_nthreads() == want, "reported", std::to_string(p.get_nthreads()) + " after setting " + std::to_string(n));
}

// Node data: evaluated alone, and by problems with any number of threads.
static void nodes(Src& s, Case& c) {
  ProblemCase k = gen(s, c, 40, true, true);
  int T = k.T();
  Traj xs = k.xs(s), us = k.us(s);
  // evaluated alone: values, and values with derivatives
  std::vector<std::shared_ptr<ActionData>> ref;
  double cost = 0., mag = 1.;
  for (int t = 0; t <= T; ++t) {
    auto m = t < T ? k.running[t] : k.terminal;
    ref.push_back(m->createData());
    t < T ? m->calc(ref[t], xs[t], us[t]) : m->calc(ref[t], xs[t]);
    t < T ? m->calcDiff(ref[t], xs[t], us[t]) : m->calcDiff(ref[t], xs[t]);
    cost += ref[t]->cost, mag += std::fabs(ref[t]->cost);
  }
  bool statics = s.chance(1, 3);
  Traj qs;
  if (statics) {
    for (int t = 0; t < T; ++t) {
      VectorXd u = VectorXd::Zero(k.running[t]->get_nu());
      auto d = k.running[t]->createData();
      if (throws([&] { k.running[t]->quasiStatic(d, u, xs[t]); })) {
        statics = false;
        break;
      }
      qs.push_back(u);
    }
  }
  int rounds = s.integer(2, 6);
  bool own = s.flip();  // one problem with changing threads, or a new one each time
  require(k.p->get_nthreads() == CROCODDYL_WITH_NTHREADS, "default");
  for (int r = 0; r < rounds; ++r) {
    int n = s.chance(1, 8) ? s.integer(-1, 0) : gen_threads(s);
    if (own) k.p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
    set(*k.p, n);
    std::string w = std::to_string(n) + " threads, ";
    c.desc << " " << n;
    if (n > 1 && T > 1) c.nontrivial = true;
    if (s.chance(1, 2)) {
      Traj ys = k.xs(s), vs = k.us(s);
      k.p->calc(ys, vs);
      if (s.flip()) k.p->calcDiff(ys, vs);
    }
    for (int again = 0; again < 3; ++again) {
      double v = k.p->calc(xs, us);
      near("cost", v, cost, 1e-13 * mag * (T + 1), w + "calc");
      for (int t = 0; t <= T; ++t)
        same_data("node-values", *(t < T ? k.p->get_runningDatas()[t] : k.p->get_terminalData()), *ref[t], 1, t == T, w + "node " + std::to_string(t));
      v = k.p->calcDiff(xs, us);
      near("cost", v, cost, 1e-13 * mag * (T + 1), w + "calcDiff");
      for (int t = 0; t <= T; ++t)
        same_data("node-derivatives", *(t < T ? k.p->get_runningDatas()[t] : k.p->get_terminalData()), *ref[t], 3, t == T, w + "node " + std::to_string(t));
      if (statics) {
        Traj q = k.p->quasiStatic_xs(Traj(xs.begin(), xs.end() - 1));
        for (int t = 0; t < T; ++t) require(same(q[t], qs[t]), "quasi-static", w + "node " + std::to_string(t));
        c.label("quasi-static");
      }
    }
  }
  if (T > 8) c.label("long");
}

// Runs of the solvers.
static void runs_of(Src& s, Case& c, int kind) {
  ProblemCase k = gen(s, c, kind == kIpopt ? 4 : 12, s.flip(), false);
  c.label(solver_name[kind]);
  c.desc << " " << solver_name[kind];
  Traj us, xs;
  int guess = s.integer(0, 2);
  if (guess) us = k.us(s, 0.5);
  if (guess == 2) xs = k.xs(s, 0.5);
  int maxiter = s.integer(1, kind == kIpopt ? 6 : 10), eqs = s.integer(0, 2);
  struct R {
    bool ok;
    Traj xs, us;
    double cost;
    std::vector<Step> log;
  };
  auto run = [&](int n) {
    auto p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
    set(*p, n);
    auto so = make_solver(kind, p);
    if (auto* i = dynamic_cast<crocoddyl::SolverIntro*>(so.get())) i->set_equality_solver(eqs == 0 ? crocoddyl::LuNull : eqs == 1 ? crocoddyl::QrNull : crocoddyl::Schur);
    if (auto* i = dynamic_cast<crocoddyl::SolverIpopt*>(so.get())) i->setStringIpoptOption("sb", "yes");
    auto rec = std::make_shared<Recorder>();
    so->setCallbacks({rec});
    R r;
    r.ok = so->solve(xs, us, maxiter);
    r.xs = so->get_xs(), r.us = so->get_us(), r.cost = so->get_cost(), r.log = rec->log;
    return r;
  };
  R ref = run(1);
  int rounds = s.integer(1, 3);
  for (int r = 0; r < rounds; ++r) {
    int n = gen_threads(s);
    c.desc << " " << n;
    if (n > 1 && k.T() > 1) c.nontrivial = true;
    R a = run(n);
    std::string w = std::string(solver_name[kind]) + " with " + std::to_string(n) + " threads";
    // the order of the cost's sum may differ, so decisions that hang on it may
    double mag = 1.;
    for (auto& q : ref.log)
      if (std::isfinite(q.cost)) mag = std::max(mag, std::fabs(q.cost));
    bool decided = true;
    for (size_t i = 0; decided && i < std::min(a.log.size(), ref.log.size()); ++i) {
      const Step &p = a.log[i], &q = ref.log[i];
      if (p.alpha != q.alpha || p.preg != q.preg) {
        decided = std::fabs(q.dV) > 1e-9 * mag && std::fabs(q.dVexp) > 1e-9 * mag;
        if (decided) fail("run", w + " iteration " + std::to_string(i) + " step length " + num(p.alpha) + " vs " + num(q.alpha));
        break;
      }
      for (size_t t = 0; t < q.xs.size(); ++t)
        if (!same(p.xs[t], q.xs[t])) fail("run", w + " iteration " + std::to_string(i) + " state " + std::to_string(t));
      for (size_t t = 0; t < q.us.size(); ++t)
        if (!same(p.us[t], q.us[t])) fail("run", w + " iteration " + std::to_string(i) + " control " + std::to_string(t));
      auto close = [&](double x, double y, double tol) {
        if (!same(x, y)) near("run", x, y, tol, w);
      };
      close(p.cost, q.cost, 1e-10 * mag);
      close(p.ffeas, q.ffeas, 1e-12 * (1. + q.ffeas));
      close(p.hfeas, q.hfeas, 1e-12 * (1. + q.hfeas));
      close(p.gfeas, q.gfeas, 1e-12 * (1. + q.gfeas));
    }
    if (!decided) continue;
    if (kind == kIpopt) {  // its line search may amplify the last digits of the cost
      if (a.ok == ref.ok && a.ok) {
        for (size_t t = 0; t < a.xs.size(); ++t) nearm("run", a.xs[t], ref.xs[t], 1e-3, w);
        near("run", a.cost, ref.cost, 1e-5 * (1. + std::fabs(ref.cost)), w);
      }
      continue;
    }
    require(a.log.size() == ref.log.size() && a.ok == ref.ok, "run", w + " outcome");
    for (size_t t = 0; t < a.xs.size(); ++t) require(same(a.xs[t], ref.xs[t]), "run", w + " states");
    for (size_t t = 0; t < a.us.size(); ++t) require(same(a.us[t], ref.us[t]), "run", w + " controls");
  }
}
static void solvers(Src& s, Case& c) { runs_of(s, c, s.integer(kDDP, kKKT)); }
static void ipopt(Src& s, Case& c) { runs_of(s, c, kIpopt); }

// The callbacks of the Ipopt transcription.
static void transcription(Src& s, Case& c) {
  NodeSpec sp;
  sp.cons = false;
  g_pause = s.flip();
  ProblemCase k = gen_problem(s, c, sp, 12, s.flip());
  Traj rx = k.xs(s), ru = k.us(s);
  auto answers = [&](int n, const VectorXd& w0) {
    auto p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
    set(*p, n);
    Ipopt::SmartPtr<crocoddyl::IpoptInterface> I = new crocoddyl::IpoptInterface(p);
    I->set_xs(rx), I->set_us(ru);
    int nv, m, nj, nh;
    Ipopt::TNLP::IndexStyleEnum st;
    I->get_nlp_info(nv, m, nj, nh, st);
    VectorXd w = w0.head(nv), f(1), gr(nv), g(m), J(nj), H(nh), l = VectorXd::Zero(m);
    I->eval_f(nv, w.data(), true, f[0]);
    I->eval_grad_f(nv, w.data(), true, gr.data());
    I->eval_g(nv, w.data(), true, m, g.data());
    I->eval_jac_g(nv, w.data(), true, m, nj, NULL, NULL, J.data());
    I->eval_h(nv, w.data(), true, 1.5, m, l.data(), true, nh, NULL, NULL, H.data());
    return Traj{gr, g, J, H, f};
  };
  VectorXd w = s.vec(13 * 16, 1.);
  if ((int)w.size() < k.T() * (int)(k.st->get_ndx() + 3) + (int)k.st->get_ndx()) throw Discard();
  Traj ref = answers(1, w);
  for (int r = 0; r < 3; ++r) {
    int n = gen_threads(s);
    if (n > 1 && k.T() > 1) c.nontrivial = true;
    Traj a = answers(n, w);
    for (int i = 0; i < 4; ++i) require(same(a[i], ref[i]), "transcription", std::string(i == 0 ? "gradient" : i == 1 ? "constraints" : i == 2 ? "jacobian" : "hessian") + " with " + std::to_string(n) + " threads");
    near("transcription", a[4][0], ref[4][0], 1e-12 * (1. + std::fabs(ref[4][0])), "objective");
  }
}

// The number set is the number used, every node is evaluated once, and errors of
// the models are raised to the caller.
static void team(Src& s, Case& c) {
  auto st = gen_state(s, 2, s.flip());
  ModelSpec ms;
  int nu = s.integer(1, 2), T = s.integer(1, 16);
  auto inner = gen_nlaction(s, st, nu, ms);
  auto w = std::make_shared<Watch>(inner, 200);
  std::vector<std::shared_ptr<Action>> rm(T, w);
  auto term = gen_nlaction(s, st, nu, ms);
  Problem p(gen_x(s, *st, 0.5), rm, term);
  Traj xs, us;
  for (int i = 0; i <= T; ++i) xs.push_back(gen_x(s, *st, 1.));
  for (int i = 0; i < T; ++i) us.push_back(s.vec(nu, 1.));
  int rounds = s.integer(1, 4);
  for (int r = 0; r < rounds; ++r) {
    int n = gen_threads(s);
    set(p, n);
    c.desc << " " << n << "/" << T;
    w->team = 0, w->calls = 0, w->most = 0;
    p.calc(xs, us);
    require(w->calls == T, "calls", std::to_string(w->calls) + " of " + std::to_string(T));
    if (w->team != n && omp_get_thread_limit() >= 64 && !omp_get_dynamic()) fail("takes-effect", std::to_string(w->team) + " threads in calc instead of " + std::to_string(n));
    require(w->most <= n, "takes-effect", std::to_string(w->most) + " nodes at once with " + std::to_string(n) + " threads");
    w->team = 0, w->calls = 0;
    p.calcDiff(xs, us);
    require(w->calls == T, "calls", std::to_string(w->calls) + " of " + std::to_string(T));
    if (w->team != n && omp_get_thread_limit() >= 64 && !omp_get_dynamic()) fail("takes-effect", std::to_string(w->team) + " threads in calcDiff instead of " + std::to_string(n));
    if (s.flip()) {
      // a node that cannot be evaluated
      Traj bad = us;
      int t = s.integer(0, T - 1);
      bad[t] = VectorXd::Zero(nu + 1);
      inner->fault = s.flip() ? 1 : 0, inner->limit = -1.;
      std::string a, b;
      require(throws([&] { p.calc(xs, inner->fault ? us : bad); }), "raised", "calc");
      inner->fault = 0;
      p.calc(xs, us);
      c.label("raised");
    }
    if (n > 1) c.nontrivial = true;
  }
  // copies keep the number
  Problem q(p);
  require(q.get_nthreads() == p.get_nthreads(), "copy");
}

int main(int argc, char** argv) {
  Check k("C14",
          "A case is a problem of up to 40 nodes that share one to three models (nonlinear, LQ, integrated costs and "
          "constraints, numerically differentiated), evaluated with several numbers of threads from 1 to 13, repeatedly; "
          "or a solver run or an Ipopt transcription with several numbers of threads. Node data and iterates are compared "
          "bit by bit with serial evaluation. Non-trivial: more than one thread and more than one node.");
  k.family("nodes", 2500, 60000, nodes);
  k.family("solvers", 1200, 30000, solvers);
  k.family("ipopt", 60, 1500, ipopt);
  k.family("transcription", 600, 15000, transcription);
  k.family("team", 1500, 40000, team);
  return k.main(argc, argv);
}
