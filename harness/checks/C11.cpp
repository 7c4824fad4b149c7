// USES_SOLVERS
// Feasibility and stopping measures equal their definitions.
#include "common/solve.hpp"
using namespace vf;

// Generated problems whose inequality bounds are used.
static ProblemCase gen(Src& s, Case& c, int kind) {
  NodeSpec sp;
  sp.zero_nu = s.chance(1, 5) && kind != kKKT;
  sp.share_terminal = false;  // see the family shared
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5);
  std::vector<std::shared_ptr<Action>> all = k.running;
  all.push_back(k.terminal);
  for (auto& m : all) {
    auto* n = dynamic_cast<NlAction*>(m.get());
    if (!n) continue;
    int ng = std::max(n->get_ng(), n->get_ng_T());
    VectorXd lb = VectorXd::Constant(ng, -INF), ub = VectorXd::Constant(ng, INF);
    for (int i = 0; i < ng; ++i) {
      if (s.flip()) lb[i] = s.real();
      if (s.flip()) ub[i] = std::isfinite(lb[i]) ? lb[i] + s.uni(0., 1.) : s.real();
    }
    n->set_g_lb(lb);
    n->set_g_ub(ub);
  }
  return k;
}
static double pickn(bool l1, double a, double b) { return l1 ? a : b; }

static void measures(Src& s, Case& c) {
  int kind = s.integer(kDDP, kKKT);
  c.desc << solver_name[kind] << " ";
  c.label(solver_name[kind]);
  ProblemCase k = gen(s, c, kind);
  auto so = make_solver(kind, k.p);
  require(so->get_feasnorm() == crocoddyl::LInf, "default-norm");
  bool l1 = false;
  int n = s.integer(1, 4);
  for (int it = 0; it < n; ++it) {
    if (s.flip()) {
      l1 = s.flip();
      so->set_feasnorm(l1 ? crocoddyl::L1 : crocoddyl::LInf);
      require(so->get_feasnorm() == (l1 ? crocoddyl::L1 : crocoddyl::LInf), "norm");
    }
    if (s.chance(1, 4)) k.p->set_x0(gen_x(s, *k.st, 1.));
    Traj xs = k.xs(s), us = k.us(s);
    if (s.chance(1, 4)) xs = k.p->rollout_us(us);
    so->setCandidate(xs, us, false);
    k.p->calc(xs, us);
    Feas f = feasibility(*k.p, xs, us);
    double F = pickn(l1, f.f1, f.finf), G = pickn(l1, f.g1, f.ginf), H = pickn(l1, f.h1, f.hinf);
    c.desc << " " << (l1 ? "L1" : "LInf");
    for (int r = 0; r < 4; ++r) switch (s.integer(0, 2)) {
        case 0:
          near("dynamic", so->computeDynamicFeasibility(), F, 1e-10);
          for (size_t i = 0; i < f.fs.size(); ++i) nearm("gap", so->get_fs()[i], f.fs[i], 1e-9, std::to_string(i));
          break;
        case 1:
          near("inequality", so->computeInequalityFeasibility(), G, 1e-12);
          break;
        default:
          near("equality", so->computeEqualityFeasibility(), H, 1e-12);
      }
    if (G > 0) c.label("violated-inequality");
    if (F > 0) c.nontrivial = true;
    auto* d = dynamic_cast<DDP*>(so.get());
    if (!d || s.flip()) continue;
    // the same measures as a direction is computed, and the stopping measure
    d->set_preg(s.flip() ? 1e-9 : 1.);
    bool ok = !throws([&] { d->computeDirection(true); });
    near("ffeas", d->get_ffeas(), F, 1e-10);
    near("gfeas", d->get_gfeas(), G, 1e-12);
    near("hfeas", d->get_hfeas(), H, 1e-12);
    near("cost", d->get_cost(), f.cost, 1e-11 * (1. + f.cabs));
    if (!ok) continue;
    c.label("direction");
    if (auto* fd = dynamic_cast<crocoddyl::SolverFDDP*>(d)) fd->updateExpectedImprovement();
    Eigen::Vector2d e = d->expectedImprovement();
    require(same(e, d->get_d()), "get_d");
    double stop = std::fabs(e[0] + 0.5 * e[1]);
    if (kind == kIntro) stop = std::max(stop, H);
    double got = d->stoppingCriteria();
    near("stop", got, stop, 1e-12);
    require(got == d->get_stop(), "get_stop");
  }
}

// One model with constraints at running nodes and the terminal one.
static void shared(Src& s, Case& c) {
  NodeSpec sp;
  auto st = gen_state(s, 2, false);
  std::string d;
  std::shared_ptr<Action> m = gen_node(s, st, sp, s.integer(1, 2), &d);
  int T = s.integer(1, 2);
  c.desc << d << " T=" << T;
  auto p = std::make_shared<Problem>(gen_x(s, *st, 1.), std::vector<std::shared_ptr<Action>>(T, m), m);
  Traj xs, us;
  for (int i = 0; i <= T; ++i) xs.push_back(gen_x(s, *st, 1.));
  for (int i = 0; i < T; ++i) us.push_back(s.vec(m->get_nu(), 1.));
  auto so = make_solver(kDDP, p);
  so->setCandidate(xs, us, false);
  p->calc(xs, us);
  Feas f = feasibility(*p, xs, us);
  c.nontrivial = f.ginf > 0;
  if (c.nontrivial) c.label("violated-inequality");
  // a manager's bounds are those of its last evaluation
  auto b = std::make_pair(m->get_g_lb(), m->get_g_ub());
  auto dd = m->createData();
  m->calc(dd, xs[0], us[0]);
  bool same_bounds = same(b.first, m->get_g_lb()) && same(b.second, m->get_g_ub());
  m->calc(dd, xs[T]);
  if (!same_bounds) c.label("bounds-differ");
  near(same_bounds ? "inequality" : "shared-terminal-bounds", so->computeInequalityFeasibility(), f.ginf, 1e-12);
  near("dynamic", so->computeDynamicFeasibility(), f.finf, 1e-10);
  near("equality", so->computeEqualityFeasibility(), f.hinf, 1e-12);
}

// What callbacks see along a run.
static void runs(Src& s, Case& c) {
  int kind = s.integer(kDDP, kIntro);
  c.desc << solver_name[kind] << " ";
  c.label(solver_name[kind]);
  ProblemCase k = gen(s, c, kind);
  auto so = make_solver(kind, k.p);
  auto* d = dynamic_cast<DDP*>(so.get());
  auto* in = dynamic_cast<crocoddyl::SolverIntro*>(d);
  bool l1 = s.flip();
  d->set_feasnorm(l1 ? crocoddyl::L1 : crocoddyl::LInf);
  Traj us = k.us(s, 0.3), xs = s.flip() ? k.p->rollout_us(us) : k.xs(s, 0.5);
  double acc = s.pick<double>({0.1, 0.3, 0.01});
  d->set_th_acceptstep(acc);
  auto rec = std::make_shared<Recorder>();
  Traj last = xs;
  rec->more = [&](Solver& v) {
    const Step& t = rec->log.back();
    double stop = std::fabs(t.d0 + 0.5 * t.d1);
    if (in) stop = std::max(stop, t.hfeas);
    near("stop", t.stop, stop, 1e-12);
    near("dVexp", t.dVexp, t.alpha * (t.d0 + 0.5 * t.alpha * t.d1), 1e-12);
    bool moved = t.xs != last;
    if (in && moved) near("merit", t.merit, t.cost + in->get_upsilon() * t.hfeas, 1e-12);
    if (moved) {
      Feas f = feasibility(*k.p, t.xs, t.us);
      double tol = 1e-9 * (1. + f.cabs);
      near("cost", t.cost, f.cost, tol, "iteration " + std::to_string(t.iter));
      near("ffeas", t.ffeas, pickn(l1, f.f1, f.finf), 1e-9, "iteration " + std::to_string(t.iter));
      near("gfeas", t.gfeas, pickn(l1, f.g1, f.ginf), 1e-9, "iteration " + std::to_string(t.iter));
      near("hfeas", t.hfeas, pickn(l1, f.h1, f.hinf), 1e-9, "iteration " + std::to_string(t.iter));
      c.nontrivial = true;
    }
    last = t.xs;
  };
  d->setCallbacks({rec});
  d->solve(xs, us, s.integer(1, 12), false);
}

int main(int argc, char** argv) {
  Check k("C11",
          "A case is a solver on a problem of up to five nodes of mixed kinds with equality and bounded inequality "
          "constraints, and candidates (random or rollouts), norms and initial states in sequence; feasibilities are "
          "compared with sums and maxima over nodes evaluated alone, stopping, merit and expected-improvement quantities "
          "with their formulas, also as seen by callbacks. Non-trivial: gaps are not zero, or a step was accepted.");
  k.family("measures", 12000, 300000, measures);
  k.family("shared", 1500, 20000, shared);
  k.family("runs", 3000, 80000, runs);
  return k.main(argc, argv);
}
