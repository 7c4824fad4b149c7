// USES_SOLVERS
// Line search and regularization keep a run monotone and bounded.
#include "common/solve.hpp"
using namespace vf;

struct Try {
  double alpha, dV, d0, d1;
  bool threw;
};
struct Trace {
  std::vector<Try> tries;
  int failed = 0, directions = 0;
};
// Records what the run asks for; results are the solver's own.
template <class B>
struct Spy : B {
  explicit Spy(std::shared_ptr<Problem> p) : B(p) {}
  void computeDirection(const bool r) override {
    ++tr.directions;
    try {
      B::computeDirection(r);
    } catch (...) {
      ++tr.failed;
      throw;
    }
  }
  double tryStep(const double a) override {
    Try t{a, 0, 0, 0, true};
    tr.tries.push_back(t);
    double v = B::tryStep(a);
    t.threw = false;
    t.dV = v;
    Eigen::Vector2d d = B::expectedImprovement();
    t.d0 = d[0], t.d1 = d[1];
    tr.tries.back() = t;
    return v;
  }
  Trace tr;
};
struct Any {
  std::shared_ptr<DDP> so;
  Trace* tr;
};
template <class B>
static Any spy(std::shared_ptr<Problem> p) {
  auto s = std::make_shared<Spy<B>>(p);
  return {s, &s->tr};
}

// A terminal cost on one component of the state only.
class OneState : public Action {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ActionModelBase, OneState)
  OneState(std::shared_ptr<State> st, int i) : Action(st, 1, 0), i(i) {}
  void calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>&) override { calc(d, x); }
  void calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) override {
    d->xnext = x;
    d->cost = 0.5 * x[i] * x[i];
  }
  void calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>&) override { calcDiff(d, x); }
  void calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) override {
    d->Fx.setIdentity();
    d->Lx.setZero(), d->Lxx.setZero();
    d->Lx[i] = x[i], d->Lxx(i, i) = 1.;
  }
  int i;
};

static bool finite(const Traj& t) {
  for (auto& v : t)
    if (!v.allFinite()) return false;
  return true;
}

static void run(Src& s, Case& c) {
  int kind = s.integer(kDDP, kBoxFDDP);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  bool fddp = kind == kFDDP || kind == kBoxFDDP;
  NodeSpec sp;
  sp.bounds = s.flip();
  sp.cons = s.chance(1, 5);
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1., 0.});
  sp.dyn = s.pick<double>({0.7, 1.5});
  sp.share_terminal = false;
  bool vec = s.chance(2, 3);
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5, !vec);
  bool faults = s.chance(2, 3);
  if (faults) {
    for (auto& m : k.running) {
      auto* n = dynamic_cast<NlAction*>(m.get());
      if (!n || !s.flip()) continue;
      n->fault = s.integer(1, 6);
      n->limit = s.logu(0.3, 10.);
      c.label("faults");
      c.desc << " fault" << n->fault << "@" << n->limit;
    }
    if (!dynamic_cast<LieState*>(k.st.get()) && s.flip()) {
      if (s.flip()) {  // the last step can fail unseen by the cost
        ModelSpec ms;
        ms.eps = sp.eps, ms.dyn = sp.dyn, ms.reg = sp.reg;
        auto m = gen_nlaction(s, k.st, s.integer(1, 2), ms);
        m->fault = s.integer(5, 6);
        m->limit = s.logu(0.3, 5.);
        if (k.T()) k.running.back() = m;
      }
      k.terminal = std::make_shared<OneState>(k.st, s.integer(0, k.st->get_nx() - 1));
      k.p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
      c.desc << " one-state";
    }
  }
  Any a = kind == kDDP ? spy<DDP>(k.p) : kind == kFDDP ? spy<crocoddyl::SolverFDDP>(k.p) : kind == kBoxDDP ? spy<crocoddyl::SolverBoxDDP>(k.p) : spy<crocoddyl::SolverBoxFDDP>(k.p);
  DDP& so = *a.so;
  auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(&so);
  // what is configured
  double inc = so.get_reg_incfactor(), dec = so.get_reg_decfactor(), rmin = so.get_reg_min(), rmax = so.get_reg_max();
  double acc = so.get_th_acceptstep(), grad = so.get_th_grad(), sinc = so.get_th_stepinc(), sdec = so.get_th_stepdec();
  double neg = fd ? fd->get_th_acceptnegstep() : 0.;
  std::vector<double> al = so.get_alphas();

  int runs = s.integer(1, 3);
  for (int r = 0; r < runs; ++r) {
    if (s.chance(1, 3)) so.set_reg_incfactor(inc = s.uni(1.1, 20.));
    if (s.chance(1, 3)) so.set_reg_decfactor(dec = s.uni(1.1, 20.));
    if (s.chance(1, 3)) so.set_reg_min(rmin = s.chance(1, 3) ? 0. : s.logu(1e-12, 1e-2));
    if (s.chance(1, 3)) so.set_reg_max(rmax = s.logu(1e-1, 1e9));
    if (s.chance(1, 3)) so.set_th_acceptstep(acc = s.pick<double>({0.01, 0.3, 0.5, 0.9, 1.}));
    if (s.chance(1, 4)) so.set_th_grad(grad = s.pick<double>({0., 1e-6, 1e-9}));
    if (s.chance(1, 4)) so.set_th_stepinc(sinc = s.pick<double>({0.001, 0.1, 0.5}));
    if (s.chance(1, 4)) so.set_th_stepdec(sdec = s.pick<double>({0.1, 0.5, 0.9}));
    if (fd && s.chance(1, 3)) fd->set_th_acceptnegstep(neg = s.pick<double>({0., 1., 2., 5.}));
    if (s.chance(1, 4)) {
      al.clear();
      double v = s.flip() ? 1. : s.uni(0.3, 1.);
      for (int i = 0, n = s.integer(1, 8); i < n; ++i, v *= s.uni(0.2, 0.8)) al.push_back(v);
      so.set_alphas(al);
    }
    Traj us = k.us(s, s.pick<double>({0.3, 1., 3.})), xs;
    bool feasible = s.chance(3, 4);
    if (feasible) {
      if (throws([&] { xs = k.p->rollout_us(us); }) || !finite(xs)) throw Discard();
    } else {
      xs = k.xs(s, s.pick<double>({0.3, 1.}));
    }
    double cost = NAN;
    if (throws([&] { cost = feasibility(*k.p, xs, us).cost; }) || !std::isfinite(cost) || std::fabs(cost) > 1e8) throw Discard();
    double reg = s.chance(1, 3) ? rmin + s.uni(0., 1.) * (std::min(rmax, 1e3) - rmin) : NAN;
    double preg = std::isnan(reg) ? rmin : reg;
    Traj pxs = xs, pus = us;
    bool pf = feasible;
    int iters = 0, accepted = 0;
    Trace& tr = *a.tr;
    tr = Trace();
    auto rec = std::make_shared<Recorder>();
    rec->more = [&](Solver&) {
      const Step& q = rec->log.back();
      std::string w = "run " + std::to_string(r) + " iteration " + std::to_string(iters++);
      require(!tr.tries.empty(), "tried", w);
      // step lengths: the list in its order, up to the first that passes the test
      require(tr.tries.size() <= al.size(), "step-list", w);
      bool took = false;
      for (size_t i = 0; i < tr.tries.size(); ++i) {
        const Try& t = tr.tries[i];
        require(t.alpha == al[i], "step-list", w + " tried " + num(t.alpha));
        double e = t.alpha * (t.d0 + 0.5 * t.alpha * t.d1);
        bool pass = !t.threw;
        if (pass && !std::isfinite(t.dV)) pass = false;
        if (pass) {
          if (e >= 0)
            pass = std::fabs(t.d0) < grad || t.dV > acc * e || (!fddp && !pf);
          else
            pass = fddp && !pf && t.dV > neg * e;
        }
        bool last = i + 1 == tr.tries.size();
        if (pass != (last && (tr.tries.size() < al.size() || pass)))
          fail("line-search", w + " step " + num(t.alpha) + (pass ? " passes the test but the search went on" : " does not pass the test but the search stopped") + " dV " + num(t.dV) + " dVexp " + num(e));
        took = last && pass;
      }
      double alpha = tr.tries.back().alpha;
      require(q.alpha == alpha, "steplength", w);
      bool moved = false;
      for (size_t i = 0; i < q.us.size(); ++i) moved = moved || !same(q.us[i], pus[i]);
      for (size_t i = 0; i < q.xs.size(); ++i) moved = moved || !same(q.xs[i], pxs[i]);
      if (!took && moved) fail("rejected", w + ": the candidate changed though no step passed");
      accepted += took;
      // the candidate is sane and not worse
      require(finite(q.xs) && finite(q.us), "finite", w);
      Feas f;
      if (throws([&] { f = feasibility(*k.p, q.xs, q.us); })) fail("evaluable", w);
      require(std::isfinite(f.cost) && std::isfinite(f.f1), "finite-cost", w);
      double d0 = tr.tries.back().d0;
      if (pf && !(std::fabs(d0) < grad) && f.cost > cost + 1e-11 * (1. + f.cabs)) fail("monotone", w + " cost " + num(f.cost) + " after " + num(cost));
      // regularization
      double p = preg;
      bool open = false;  // no factor grows it from zero
      auto grow = [&] { open = open || p == 0., p = std::min(p * inc, rmax); };
      for (int i = 0; i < tr.failed; ++i) grow();
      if (alpha > sdec) p = std::max(p / dec, rmin);
      if (alpha <= sinc) grow();
      require(q.preg >= rmin && q.preg <= rmax, "regularization-range", w + " " + num(q.preg));
      if (!open && std::fabs(q.preg - p) > 1e-12 * p) fail("regularization", w + " " + num(q.preg) + " expected " + num(p) + " from " + num(preg));
      require(q.dreg == q.preg, "regularization-dual", w);
      if (alpha <= sinc && !open && q.preg == rmax) fail("regularization-limit", w + " the run went on at the maximum " + num(rmax));
      if (tr.failed) c.label("direction-failed");
      if (alpha <= sinc) c.label("reg-increased");
      for (auto& t : tr.tries)
        if (t.threw) c.label("step-threw");
      if (!took) c.label("no-step");
      preg = q.preg, cost = f.cost, pxs = q.xs, pus = q.us, pf = q.feasible;
      tr = Trace();
    };
    so.setCallbacks({rec});
    so.set_th_stop(s.logu(1e-12, s.chance(1, 4) ? 1e2 : 1e-4));
    int maxiter = s.integer(1, 25);
    if (so.solve(xs, us, maxiter, feasible, reg)) {
      // nothing was left to do after the last iteration
      require(iters > 0 && tr.directions == 0 && tr.tries.empty(), "status", "convergence is reported by a run that was given up");
      require(so.get_stop() < so.get_th_stop(), "status", "stop " + num(so.get_stop()));
      c.label("converged");
    } else {
      bool end = iters == maxiter;
      if (!end && !(so.get_preg() >= rmax)) fail("status", "the run ended at iteration " + std::to_string(iters) + " with neither limit reached");
    }
    c.desc << " run" << (feasible ? "F " : " ") << iters;
    if (accepted > 1 || (faults && accepted)) c.nontrivial = true;
    // the end of the run
    require(so.get_preg() >= rmin && so.get_preg() <= rmax, "regularization-range", "end " + num(so.get_preg()));
    require(so.get_dreg() >= rmin && so.get_dreg() <= rmax, "regularization-range", "end, dual " + num(so.get_dreg()));
    if (so.get_cost() == so.get_cost()) {
      Feas f;
      if (throws([&] { f = feasibility(*k.p, so.get_xs(), so.get_us()); })) fail("evaluable", "result");
      require(finite(so.get_xs()) && finite(so.get_us()) && std::isfinite(f.cost), "finite", "result");
      if (feasible && grad == 0. && f.cost > cost + 1e-11 * (1. + f.cabs)) fail("monotone", "result");
    }
  }
}

// The equality-constrained solver: steps by its merit function, the same rules
// for regularization, which changes after an iteration was reported.
struct IntroTry {
  double alpha, dV, d0, d1, h, penalty;
  bool threw;
};
struct IntroSpy : crocoddyl::SolverIntro {
  typedef crocoddyl::SolverIntro B;
  explicit IntroSpy(std::shared_ptr<Problem> p) : B(p) {}
  void computeDirection(const bool r) override {
    regs.push_back(preg_);
    require(dreg_ == preg_, "regularization-dual", num(dreg_));
    try {
      B::computeDirection(r);
    } catch (...) {
      ++failed;
      throw;
    }
    now = hfeas_;
  }
  const Eigen::Vector2d& expectedImprovement() override {
    const Eigen::Vector2d& d = B::expectedImprovement();
    if (tries.empty()) asked = d[0] + 0.5 * d[1];
    return d;
  }
  double tryStep(const double a) override {
    IntroTry t{a, 0, 0, 0, 0, upsilon_, true};
    tries.push_back(t);
    t.dV = B::tryStep(a);
    t.threw = false;
    Eigen::Vector2d d = B::expectedImprovement();
    t.d0 = d[0], t.d1 = d[1], t.h = hfeas_try_;
    tries.back() = t;
    return t.dV;
  }
  std::vector<IntroTry> tries;
  std::vector<double> regs;
  int failed = 0;
  double asked = 0;  // expected change of the cost by a full step
  double now = 0;  // equality violation of the candidate
};
static void intro(Src& s, Case& c) {
  NodeSpec sp;
  sp.zero_nu = s.chance(1, 6);
  sp.cons = s.chance(3, 4);
  sp.eps = s.pick<double>({0.3, 1., 2., 0.});
  sp.dyn = s.pick<double>({0.7, 1.5});
  sp.share_terminal = false;
  ProblemCase k = gen_problem(s, c, sp, 4, !s.chance(2, 3));
  if (s.chance(1, 3))
    for (auto& m : k.running)
      if (auto* n = dynamic_cast<NlAction*>(m.get())) n->fault = s.pick<int>({0, 1, 4}), n->limit = s.logu(0.3, 10.);
  IntroSpy so(k.p);
  double inc = so.get_reg_incfactor(), dec = so.get_reg_decfactor(), rmin = so.get_reg_min(), rmax = so.get_reg_max();
  double acc = so.get_th_acceptstep(), grad = so.get_th_grad(), sinc = so.get_th_stepinc(), sdec = so.get_th_stepdec();
  double neg = so.get_th_acceptnegstep(), rho = so.get_rho();
  std::vector<double> al = so.get_alphas();
  double penalty = so.get_upsilon();
  require(penalty == 0., "penalty", "new solver");
  int runs = s.integer(1, 3);
  for (int r = 0; r < runs; ++r) {
    if (s.chance(1, 3)) so.set_reg_incfactor(inc = s.uni(1.1, 20.));
    if (s.chance(1, 3)) so.set_reg_decfactor(dec = s.uni(1.1, 20.));
    if (s.chance(1, 3)) so.set_reg_min(rmin = s.logu(1e-12, 1e-2));
    if (s.chance(1, 3)) so.set_reg_max(rmax = s.logu(1e-1, 1e9));
    if (s.chance(1, 3)) so.set_th_acceptstep(acc = s.pick<double>({1e-3, 0.1, 0.5, 0.99}));
    if (s.chance(1, 4)) so.set_th_grad(grad = s.pick<double>({0., 1e-6, 1e-9}));
    if (s.chance(1, 3)) so.set_th_stepinc(sinc = s.pick<double>({0.001, 0.1, 0.5}));
    if (s.chance(1, 4)) so.set_th_stepdec(sdec = s.pick<double>({0.1, 0.5, 0.9}));
    if (s.chance(1, 3)) so.set_th_acceptnegstep(neg = s.pick<double>({0., 1., 2., 5.}));
    if (s.chance(1, 3)) so.set_rho(rho = s.pick<double>({0.1, 0.3, 0.5, 0.9}));
    bool fresh = s.chance(1, 3);
    so.set_zero_upsilon(fresh);
    if (s.chance(1, 3)) {
      al.clear();
      double v = s.flip() ? 1. : s.uni(0.3, 1.);
      for (int i = 0, n = s.integer(1, 8); i < n; ++i, v *= s.uni(0.2, 0.8)) al.push_back(v);
      so.set_alphas(al);
    }
    Traj us = k.us(s, s.pick<double>({0.3, 1., 3.})), xs = k.xs(s, s.pick<double>({0.3, 1.}));
    bool feasible = s.flip();
    if (feasible && (throws([&] { xs = k.p->rollout_us(us); }) || !finite(xs))) throw Discard();
    double cost = NAN;
    if (throws([&] { cost = feasibility(*k.p, xs, us).cost; }) || !std::isfinite(cost) || std::fabs(cost) > 1e8) throw Discard();
    double preg = rmin;
    if (fresh) penalty = 0.;
    int iters = 0;
    bool over = false, grew = false;
    Traj pxs = xs, pus = us;
    so.tries.clear(), so.regs.clear(), so.failed = 0;
    auto rec = std::make_shared<Recorder>();
    auto directions = [&](const std::string& w) {
      for (double v : so.regs) {
        require(v >= rmin && v <= rmax, "regularization-range", w + num(v));
        if (std::fabs(v - preg) > 1e-12 * preg) fail("regularization", w + num(v) + " expected " + num(preg));
        preg = std::min(preg * inc, rmax);
      }
      if (!so.regs.empty()) preg = so.regs.back();
    };
    rec->more = [&](Solver&) {
      const Step& q = rec->log.back();
      std::string w = "run " + std::to_string(r) + " iteration " + std::to_string(iters) + " ";
      require(!over, "regularization-limit", w + "went on at the maximum");
      directions(w);
      require((int)so.regs.size() == so.failed + 1, "directions", w);
      require(!so.tries.empty() && so.tries.size() <= al.size(), "step-list", w);
      double u = so.tries[0].penalty;
      const IntroTry* any = nullptr;
      for (auto& t : so.tries)
        if (!t.threw && !any) any = &t;
      require(u >= penalty, "penalty-shrinks", w + num(u) + " after " + num(penalty));
      double up = penalty;
      if (iters > 0 && so.now != 0.) up = std::max(up, so.asked / ((1. - rho) * so.now));
      if (std::fabs(u - up) > 1e-12 * up) fail("penalty", w + num(u) + " expected " + num(up) + " after " + num(penalty));
      penalty = u;
      bool took = false;
      for (size_t i = 0; i < so.tries.size(); ++i) {
        const IntroTry& t = so.tries[i];
        require(t.alpha == al[i] && t.penalty == u, "step-list", w + num(t.alpha));
        double e = t.alpha * (t.d0 + 0.5 * t.alpha * t.d1), df = so.now - t.h, me = e + t.alpha * u * df;
        bool pass = !t.threw && (me >= 0 ? std::fabs(t.d0) < grad || t.dV + u * df > acc * me : t.dV > neg * e);
        bool last = i + 1 == so.tries.size();
        double tight = 1e-12 * (1. + std::fabs(cost) + u * (so.now + t.h));
        bool edge = !t.threw && (std::fabs(me) < tight || std::fabs(t.dV + u * df - acc * me) < tight || std::fabs(t.dV - neg * e) < tight);
        bool ended = last && so.tries.size() < al.size();
        if (edge) pass = last ? ended || pass : false;
        if (pass != (last && (ended || pass)))
          fail("line-search", w + "step " + num(t.alpha) + (pass ? " passes the test but the search went on" : " does not pass the test but the search stopped") + " merit " + num(t.dV + u * df) + " expected " + num(me));
        if (edge && last && !ended) throw Discard();
        took = last && pass;
      }
      const IntroTry& t = so.tries.back();
      require(q.alpha == t.alpha, "steplength", w);
      bool moved = false;
      for (size_t i = 0; i < q.us.size(); ++i) moved = moved || !same(q.us[i], pus[i]);
      for (size_t i = 0; i < q.xs.size(); ++i) moved = moved || !same(q.xs[i], pxs[i]);
      if (!took && moved) fail("rejected", w + "the candidate changed though no step passed");
      if (took) c.label("accepted"), c.nontrivial = true;
      if (took && any) {
        Feas f = feasibility(*k.p, q.xs, q.us);
        if (std::fabs(q.cost - f.cost) > 1e-9 * (1. + f.cabs)) fail("cost", w + num(q.cost) + " " + num(f.cost));
        if (std::fabs(q.merit - (q.cost + u * q.hfeas)) > 1e-12 * (1. + std::fabs(q.merit))) fail("merit", w + num(q.merit));
      }
      // afterwards
      if (t.threw) {
        throw Discard();  // what is left of the step before
      }
      if (t.alpha > sdec && t.dV >= 0.) preg = std::max(preg / dec, rmin);
      if (t.alpha <= sinc || std::fabs(t.d1) <= so.get_th_feas()) {
        over = preg == rmax;
        preg = std::min(preg * inc, rmax), grew = true;
        c.label("reg-increased");
      }
      if (so.failed) c.label("direction-failed");
      if (u > 0.) c.label("penalty");
      pxs = q.xs, pus = q.us, cost = q.cost;
      so.tries.clear(), so.regs.clear(), so.failed = 0;
      ++iters;
    };
    so.setCallbacks({rec});
    so.set_th_stop(s.logu(1e-12, 1e-4));
    int maxiter = s.integer(1, 20);
    bool ok = so.solve(xs, us, maxiter, feasible);
    directions("end ");
    require(so.tries.empty(), "unreported");
    if (!ok && iters < maxiter) require(over || so.get_preg() >= rmax, "status", "the run ended at iteration " + std::to_string(iters) + " with neither limit reached");
    if (ok) require(!over, "status", "converged at the maximum"), c.label("converged");
    if (over) require(iters > 0 && !ok, "regularization-limit", "end");
    penalty = so.get_upsilon();
    c.desc << " run" << iters;
    (void)grew;
  }
}

// Setters: the documented ranges, boundaries included; a rejected value changes nothing.
static void setters(Src& s, Case& c) {
  int kind = s.integer(kDDP, kIntro);
  c.desc << solver_name[kind];
  c.label(solver_name[kind]);
  Case sub;
  NodeSpec sp;
  sp.lib = false;
  ProblemCase k = gen_problem(s, sub, sp, 1);
  auto so = make_solver(kind, k.p);
  DDP& d = *dynamic_cast<DDP*>(so.get());
  auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(&d);
  auto* in = dynamic_cast<crocoddyl::SolverIntro*>(&d);
  struct Par {
    const char* name;
    std::function<void(double)> set;
    std::function<double()> get;
    std::function<bool(double)> ok;
  };
  auto factor = [](double v) { return v > 1.; };
  auto nonneg = [](double v) { return v >= 0.; };
  auto unit = [](double v) { return v > 0. && v <= 1.; };
  auto pos = [](double v) { return v > 0.; };
  std::vector<Par> ps = {
      {"reg_incfactor", [&](double v) { d.set_reg_incfactor(v); }, [&] { return d.get_reg_incfactor(); }, factor},
      {"reg_decfactor", [&](double v) { d.set_reg_decfactor(v); }, [&] { return d.get_reg_decfactor(); }, factor},
      {"reg_min", [&](double v) { d.set_reg_min(v); }, [&] { return d.get_reg_min(); }, nonneg},
      {"reg_max", [&](double v) { d.set_reg_max(v); }, [&] { return d.get_reg_max(); }, nonneg},
      {"th_stepdec", [&](double v) { d.set_th_stepdec(v); }, [&] { return d.get_th_stepdec(); }, unit},
      {"th_stepinc", [&](double v) { d.set_th_stepinc(v); }, [&] { return d.get_th_stepinc(); }, unit},
      {"th_grad", [&](double v) { d.set_th_grad(v); }, [&] { return d.get_th_grad(); }, nonneg},
      {"th_acceptstep", [&](double v) { d.set_th_acceptstep(v); }, [&] { return d.get_th_acceptstep(); }, unit},
      {"th_stop", [&](double v) { d.set_th_stop(v); }, [&] { return d.get_th_stop(); }, pos},
      {"th_gaptol", [&](double v) { d.set_th_gaptol(v); }, [&] { return d.get_th_gaptol(); }, nonneg},
      {"preg", [&](double v) { d.set_preg(v); }, [&] { return d.get_preg(); }, nonneg},
      {"dreg", [&](double v) { d.set_dreg(v); }, [&] { return d.get_dreg(); }, nonneg},
  };
  if (fd) ps.push_back({"th_acceptnegstep", [&](double v) { fd->set_th_acceptnegstep(v); }, [&] { return fd->get_th_acceptnegstep(); }, nonneg});
  if (in) ps.push_back({"rho", [&](double v) { in->set_rho(v); }, [&] { return in->get_rho(); }, unit});
  std::vector<double> now;
  for (auto& p : ps) now.push_back(p.get());
  int n = s.integer(1, 6);
  for (int i = 0; i < n; ++i) {
    int j = s.integer(0, ps.size() - 1);
    double v = s.pick<double>({0., 1., -1., 0.5, 1.5, 1e-12, -1e-12, 1. + 1e-9, 1. - 1e-9, 10., 1e9, s.real(3.)});
    c.desc << " " << ps[j].name << "=" << v;
    bool threw = throws([&] { ps[j].set(v); });
    if (threw == ps[j].ok(v)) fail("range", std::string(ps[j].name) + " " + num(v) + (threw ? " rejected" : " accepted"));
    if (!threw) now[j] = v;
    for (size_t q = 0; q < ps.size(); ++q) require(ps[q].get() == now[q], "effect", ps[q].name);
    if (threw) c.label("rejected");
  }
  // the list of step lengths
  std::vector<double> al, was = d.get_alphas();
  int m = s.integer(0, 4);
  for (int i = 0; i < m; ++i) al.push_back(s.pick<double>({1., 0.5, 0.25, 0.1, 0., -0.5, 0.9}));
  bool ok = m > 0;
  for (int i = 0; i < m; ++i) ok = ok && al[i] > 0. && (i == 0 || al[i] < al[i - 1]);
  bool threw = throws([&] { d.set_alphas(al); });
  require(threw != ok, "alphas", ok ? "rejected" : "accepted");
  require(d.get_alphas() == (ok ? al : was), "alphas-effect");
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  Check k("C05",
          "A case is a problem of up to five mixed nodes, possibly with models that throw or give NaN or infinity beyond a "
          "range (in the cost, in the whole next state or in one component), one of the four solvers, up to three runs with "
          "changed settings from feasible or infeasible guesses. Every line search and regularization step is replayed by a "
          "reference, and so are the merit function and penalty of the equality-constrained solver. Setters: values on and around their bounds. Non-trivial: some steps were accepted.");
  k.family("run", 15000, 400000, run);
  k.family("intro", 5000, 100000, intro);
  k.family("setters", 3000, 30000, setters);
  return k.main(argc, argv);
}
