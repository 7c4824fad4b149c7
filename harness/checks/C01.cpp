// USES_SOLVERS
// Every solver finds the unique optimum of strictly convex LQ problems.
#include "common/solve.hpp"
using namespace vf;

static void lq(Src& s, Case& c, int lo, int hi) {
  int kind = s.integer(lo, hi);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind] << " ";
  LQSpec sp;
  sp.maxT = s.chance(1, 10) ? 25 : 6;
  sp.maxnx = s.chance(1, 10) ? 8 : 4;
  sp.dyn = sp.maxT > 6 || sp.maxnx > 4 ? 0.4 : 0.9;
  sp.convex = s.pick<double>({0.1, 0.01, 1.});
  sp.zero_nu = s.chance(1, 4);
  sp.empty = true;
  LQProblem k = gen_lq(s, c, sp);
  VectorXd U = k.minimiser();
  double cs = k.cost(U);
  double mag = 1. + std::fabs(cs) + k.g.cwiseAbs().dot(U.cwiseAbs()) + std::fabs(k.c);
  // conditioning of the condensed problem bounds what the reference itself is worth
  double lmin = 1., lmax = 1.;
  if (k.n()) {
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(k.H);
    lmin = es.eigenvalues().minCoeff(), lmax = es.eigenvalues().maxCoeff();
  }
  if (lmax > 1e8 * lmin) throw Discard();

  auto so = make_solver(kind, k.p);
  Traj xs, us;
  int guess = s.integer(0, 3);
  bool feasible = false;
  double gs = s.pick<double>({1., 10., 0.});
  if (guess == 1 || guess == 2)
    for (int v : k.nu) us.push_back(s.vec(v, gs));
  if (guess == 2) {
    xs = k.p->rollout_us(us);
    feasible = kind != kKKT || s.flip();
    c.label("feasible-guess");
  } else if (guess == 3) {
    for (int i = 0; i <= k.T; ++i) xs.push_back(s.vec(k.nx, gs));
    if (s.flip())
      for (int v : k.nu) us.push_back(s.vec(v, gs));
    if (s.flip()) xs[0] = k.x0;
    c.label("infeasible-guess");
  }
  c.desc << " guess " << guess;
  if (s.chance(1, 4)) {
    double th = s.logu(1e-9, 1e-6);
    so->set_th_stop(th);
  }
  int limit = kind == kIpopt ? 100 : s.chance(1, 3) ? 12 : 100;
  bool ok;
  double reg = s.chance(1, 4) ? s.logu(1e-9, 1e-3) : NAN;
  ok = so->solve(xs, us, limit, feasible, reg);
  c.desc << " -> " << so->get_iter();
  if (!ok) fail("converged", "no convergence reported after " + std::to_string(so->get_iter()) + " iterations, stop " + num(so->get_stop()) + " cost " + num(so->get_cost()) + " optimum " + num(cs));
  require((int)so->get_iter() <= limit, "limit");
  require((int)so->get_us().size() == k.T && (int)so->get_xs().size() == k.T + 1, "size");
  VectorXd V = k.stack(so->get_us());
  // the expected reduction of the last step was at most th_stop
  double gap = std::max(so->get_th_stop(), 1e-9) * 2 + 1e-11 * mag;
  if (kind == kIpopt) gap = 1e-7 * mag;
  if (k.cost(V) - cs > gap) fail("optimum", "cost of the controls " + num(k.cost(V)) + " optimum " + num(cs));
  double du = std::sqrt(2. * gap / lmin);
  nearm("us", V, U, du + 1e-9);
  Traj xr = k.xs(V);
  for (int i = 0; i <= k.T; ++i) nearm("xs", so->get_xs()[i], xr[i], (kind == kIpopt ? 1e-6 : kind == kKKT ? 1e-4 : 1e-9) * mag, std::to_string(i));
  near("cost", so->get_cost(), k.cost(V), (kind == kIpopt ? 1e-7 : kind == kKKT ? 1e-6 : 1e-10) * mag);
  c.nontrivial = k.n() > 0 || guess == 3;
  if (k.n() > k.T) c.label("several-controls");
}
static void shooting(Src& s, Case& c) { lq(s, c, kDDP, kIntro); }
static void kkt(Src& s, Case& c) { lq(s, c, kKKT, kKKT); }
static void ipopt(Src& s, Case& c) { lq(s, c, kIpopt, kIpopt); }

int main(int argc, char** argv) {
  Check k("C01",
          "A case is a strictly convex LQ problem (up to 25 nodes, 8 states, 3 controls; sizes, drift, cross terms and "
          "scales vary by node, nodes without controls occur), a solver, a guess (none, controls only, rollout, random), "
          "threshold and regularization; the result is compared with the minimiser of the condensed dense QP. "
          "Non-trivial: there is at least one control, or a guess of the states.");
  k.family("shooting", 20000, 600000, shooting);
  k.family("kkt", 4000, 100000, kkt);
  k.family("ipopt", 1500, 30000, ipopt);
  return k.main(argc, argv);
}
