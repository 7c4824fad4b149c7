// USES_SOLVERS
// The equality-constrained solver satisfies the constraints and is optimal.
#include "common/solve.hpp"
using namespace vf;
typedef crocoddyl::SolverIntro Intro;
static const crocoddyl::EqualitySolverType methods[] = {crocoddyl::LuNull, crocoddyl::QrNull, crocoddyl::Schur};
static const char* const method_name[] = {"LuNull", "QrNull", "Schur"};

// Ratio of the extreme singular values of the control Jacobian.
static double spread(const MatrixXd& H) {
  if (H.rows() == 0) return 1.;
  if (H.rows() > H.cols()) return 0.;
  Eigen::JacobiSVD<MatrixXd> svd(H);
  return svd.singularValues().minCoeff() / std::max(1e-300, svd.singularValues().maxCoeff()) * std::min(1., svd.singularValues().maxCoeff());
}

static void lq(Src& s, Case& c) {
  LQSpec sp;
  sp.maxT = 5;
  sp.nh = 3;
  sp.zero_nu = s.chance(1, 5);
  LQProblem k = gen_lq(s, c, sp);
  int n = k.n(), m = 0;
  for (auto& q : k.nodes) m += q.h.size();
  for (auto& q : k.nodes)
    if (spread(q.H.rightCols(q.B.cols())) < 0.05) throw Discard();
  // stacked constraints C U + d = 0 of the controls
  MatrixXd C = MatrixXd::Zero(m, n);
  VectorXd d(m);
  int iu = 0, ih = 0;
  for (int t = 0; t < k.T; ++t) {
    const LQ& q = k.nodes[t];
    int h = q.h.size(), nx = k.nx, nu = k.nu[t];
    if (h) {
      C.middleRows(ih, h) = q.H.leftCols(nx) * k.Xu.middleRows(t * nx, nx);
      C.block(ih, iu, h, nu) += q.H.rightCols(nu);
      d.segment(ih, h) = q.H.leftCols(nx) * k.Xc.segment(t * nx, nx) + q.h;
    }
    ih += h, iu += nu;
  }
  if (n == 0) throw Discard();
  MatrixXd S = MatrixXd::Zero(n + m, n + m);
  VectorXd b(n + m);
  S.topLeftCorner(n, n) = k.H;
  S.topRightCorner(n, m) = C.transpose();
  S.bottomLeftCorner(m, n) = C;
  b << -k.g, -d;
  Eigen::FullPivLU<MatrixXd> lu(S);
  lu.setThreshold(1e-10);
  if (!lu.isInvertible()) throw Discard();
  VectorXd U = VectorXd(lu.solve(b)).head(n);
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(k.H);
  double lmin = es.eigenvalues().minCoeff(), lmax = es.eigenvalues().maxCoeff();
  if (lmax > 1e6 * lmin || U.cwiseAbs().maxCoeff() > 1e3) throw Discard();
  double mag = 1. + k.g.cwiseAbs().dot(U.cwiseAbs()) + std::fabs(k.c) + U.dot(k.H * U);

  int guess = s.integer(0, 3);
  Traj us, xs;
  bool feasible = false;
  if (guess)
    for (int v : k.nu) us.push_back(s.vec(v, 2.));
  if (guess == 2) xs = k.p->rollout_us(us), feasible = s.flip();
  if (guess == 3)
    for (int i = 0; i <= k.T; ++i) xs.push_back(s.vec(k.nx, 2.));
  c.desc << " guess " << guess << (feasible ? "F" : "");
  int first = s.integer(0, 2);
  for (int q = 0; q < 3; ++q) {
    int e = (first + q) % 3;
    auto so = std::make_shared<Intro>(k.p);
    so->set_equality_solver(methods[e]);
    so->set_th_stop(1e-9 * mag);
    require(so->get_equality_solver() == methods[e], "method");
    bool ok = so->solve(xs, us, 100, feasible);
    std::string w = method_name[e];
    VectorXd V = k.stack(so->get_us());
    if (!ok) fail("converged", w + ": not after " + std::to_string(so->get_iter()) + " iterations, stop " + num(so->get_stop()) + " hfeas " + num(so->get_hfeas()) + " us " + str(V) + " vs " + str(U));
    VectorXd viol = C * V + d;
    if (m && viol.cwiseAbs().maxCoeff() > 2e-8 * mag) fail("constraints", w + " violation " + str(viol));
    nearm("us", V, U, 1e-5 * std::sqrt(mag) / std::sqrt(lmin), w);
    if (std::fabs(k.cost(V) - k.cost(U)) > 1e-7 * mag * mag) fail("optimum", w + " cost " + num(k.cost(V)) + " optimum " + num(k.cost(U)));
    near("hfeas", so->get_hfeas(), m ? viol.cwiseAbs().maxCoeff() : 0., 1e-8 * mag, w);
  }
  c.nontrivial = m > 0;
  if (m && m < n) c.label("free-and-bound");
  if (m == n) c.label("all-bound");
}

// Smooth problems with equality constraints of full row rank.
static ProblemCase gen_eq(Src& s, Case& c, double eps) {
  ProblemCase k;
  k.st = gen_state(s, 2, s.chance(1, 3));
  int T = s.integer(1, 4);
  c.desc << "nx=" << k.st->get_nx() << " T=" << T << " [";
  ModelSpec ms;
  ms.eps = eps;
  ms.dyn = 0.6;
  ms.reg = 0.3;
  for (int i = 0; i < T; ++i) {
    if (i && s.chance(1, 4)) {
      k.running.push_back(k.running.back());
      c.desc << " =";
      continue;
    }
    int nu = s.integer(1, 3);
    ms.nh = s.integer(0, nu);
    ms.nh_T = s.integer(0, 1) ? ms.nh : s.integer(0, 2);
    ms.ng = ms.ng_T = s.chance(1, 4);
    c.desc << " " << nu << "/" << ms.nh;
    int q = s.integer(0, 2);
    if (q == 0) {
      auto d = gen_nldiff(s, k.st, nu, ms);
      CtrlKind ck = make_ctrl(0, nu);
      k.running.push_back(make_integ(s.pick<int>({0, 2, 3, 4}), d, ck.m, s.uni(0.1, 0.5), true));
    } else {
      k.running.push_back(gen_nlaction(s, k.st, nu, ms));
    }
  }
  ms.nh = ms.nh_T = s.chance(1, 4);
  k.terminal = gen_nlaction(s, k.st, 1, ms);
  c.desc << " ]";
  k.x0 = gen_x(s, *k.st, 0.5);
  k.p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
  return k;
}
struct Nodes {
  std::vector<std::shared_ptr<ActionData>> d;
  std::vector<MatrixXd> Hx, Hu;
  Traj h;
  double worst = 1.;
  Nodes(const ProblemCase& k, const Traj& xs, const Traj& us) {
    for (int t = 0; t <= k.T(); ++t) {
      auto m = t < k.T() ? k.running[t] : k.terminal;
      auto q = m->createData();
      t < k.T() ? m->calc(q, xs[t], us[t]) : m->calc(q, xs[t]);
      t < k.T() ? m->calcDiff(q, xs[t], us[t]) : m->calcDiff(q, xs[t]);
      d.push_back(q);
      if (t == k.T()) break;
      int nh = m->get_nh();
      Hx.push_back(q->Hx.topRows(nh)), Hu.push_back(q->Hu.topRows(nh));
      h.push_back(q->h.head(nh));
      worst = std::min(worst, spread(Hu.back()));
    }
  }
};

// Any candidate: the policy satisfies the linearised constraints and minimises the
// local model among those that do; the value function is the one of that policy.
// Also after steps were tried in between.
static void direction(Src& s, Case& c) {
  ProblemCase k = gen_eq(s, c, s.pick<double>({0.3, 1., 0.}));
  int e = s.integer(0, 2);
  c.label(method_name[e]);
  c.desc << " " << method_name[e];
  auto so = std::make_shared<Intro>(k.p);
  so->set_equality_solver(methods[e]);
  int n = s.integer(1, 3);
  for (int it = 0; it < n; ++it) {
    if (s.chance(1, 4)) {
      e = s.integer(0, 2);
      so->set_equality_solver(methods[e]);
    }
    Traj us = k.us(s), xs;
    bool feasible = s.flip();
    if (feasible)
      xs = k.p->rollout_us(us);
    else
      xs = k.xs(s);
    double mag = 1.;
    for (auto& x : xs) mag = std::max(mag, x.cwiseAbs().maxCoeff());
    if (!(mag < 100.)) throw Discard();
    Nodes N(k, xs, us);
    if (N.worst < 0.03) throw Discard();
    double reg = s.chance(1, 4) ? 0. : s.logu(1e-9, 1.);
    so->setCandidate(xs, us, feasible);
    so->set_preg(reg), so->set_dreg(reg);
    if (throws([&] { so->computeDirection(true); })) throw Discard();
    if (s.chance(1, 3)) {  // a rejected line search, then another regularization
      c.label("recomputed");
      double a = s.pick<double>({1., 0.5, 0.01});
      throws([&] { so->tryStep(a); });
      reg = s.logu(1e-9, 1.);
      so->set_preg(reg), so->set_dreg(reg);
      if (throws([&] { so->computeDirection(false); })) throw Discard();
    }
    Feas f = feasibility(*k.p, xs, us);
    double d0 = 0., d1 = 0., ab = 1.;
    int ndx = k.st->get_ndx();
    {
      MatrixXd V = N.d[k.T()]->Lxx;
      V.diagonal().array() += reg;
      VectorXd v = N.d[k.T()]->Lx;
      if (!feasible) v += V * f.fs[k.T()];
      nearm("Vxx", so->get_Vxx()[k.T()], V, 1e-9);
      nearm("Vx", so->get_Vx()[k.T()], v, 1e-9);
      if (!feasible) d0 -= v.dot(f.fs[k.T()]), d1 += f.fs[k.T()].dot(V * f.fs[k.T()]);
    }
    for (int t = k.T() - 1; t >= 0; --t) {
      std::string w = std::string(method_name[e]) + " node " + std::to_string(t);
      auto& q = *N.d[t];
      int nu = k.running[t]->get_nu(), nh = N.h[t].size();
      MatrixXd V = so->get_Vxx()[t + 1];
      VectorXd v = so->get_Vx()[t + 1];
      MatrixXd Qxx = q.Lxx + q.Fx.transpose() * V * q.Fx, Qxu = q.Lxu + q.Fx.transpose() * V * q.Fu;
      MatrixXd Quu = q.Luu + q.Fu.transpose() * V * q.Fu;
      Quu.diagonal().array() += reg;
      VectorXd Qx = q.Lx + q.Fx.transpose() * v, Qu = q.Lu + q.Fu.transpose() * v;
      MatrixXd M = MatrixXd::Zero(nu + nh, nu + nh), R(nu + nh, 1 + ndx);
      M.topLeftCorner(nu, nu) = Quu;
      M.topRightCorner(nu, nh) = N.Hu[t].transpose();
      M.bottomLeftCorner(nh, nu) = N.Hu[t];
      R << Qu, Qxu.transpose(), N.h[t], N.Hx[t];
      Eigen::FullPivLU<MatrixXd> lu(M);
      Eigen::LLT<MatrixXd> llt(Quu);
      if (llt.info() != Eigen::Success || llt.rcond() < 1e-5 || lu.rcond() < 1e-5) throw Discard();
      MatrixXd Z = lu.solve(R);
      VectorXd kk = so->get_k()[t];
      MatrixXd K = so->get_K()[t];
      if (nh) {
        c.nontrivial = true;
        nearm("linearised", VectorXd(N.Hu[t] * kk), N.h[t], 1e-8, w);
        nearm("linearised", MatrixXd(N.Hu[t] * K), N.Hx[t], 1e-8, w);
      }
      nearm("k", kk, VectorXd(Z.topLeftCorner(nu, 1)), 1e-7, w);
      nearm("K", K, MatrixXd(Z.block(0, 1, nu, ndx)), 1e-7, w);
      MatrixXd Vt = Qxx + K.transpose() * Quu * K - Qxu * K - K.transpose() * Qxu.transpose();
      Vt.diagonal().array() += reg;
      VectorXd vt = Qx + K.transpose() * (Quu * kk - Qu) - Qxu * kk;
      if (!feasible) vt += Vt * f.fs[t];
      nearm("Vxx", so->get_Vxx()[t], Vt, 1e-7, w);
      nearm("Vx", so->get_Vx()[t], vt, 1e-7, w);
      d0 += Qu.dot(kk), d1 -= kk.dot(Quu * kk);
      ab += std::fabs(Qu.dot(kk)) + std::fabs(kk.dot(Quu * kk));
      if (!feasible) {
        d0 -= so->get_Vx()[t].dot(f.fs[t]), d1 += f.fs[t].dot(so->get_Vxx()[t] * f.fs[t]);
        ab += std::fabs(so->get_Vx()[t].dot(f.fs[t])) + std::fabs(f.fs[t].dot(so->get_Vxx()[t] * f.fs[t]));
      }
    }
    so->updateExpectedImprovement();
    Eigen::Vector2d ei = so->expectedImprovement();
    near("expected", ei[0] + 0.5 * ei[1], d0 + 0.5 * d1, 1e-8 * ab);
  }
}

// Nonlinear runs: what convergence promises.
static void run(Src& s, Case& c) {
  ProblemCase k = gen_eq(s, c, s.pick<double>({0.3, 0.1, 1.}));
  int e = s.integer(0, 2);
  c.label(method_name[e]);
  c.desc << " " << method_name[e];
  auto so = std::make_shared<Intro>(k.p);
  so->set_equality_solver(methods[e]);
  bool l1 = s.flip();
  if (l1) so->set_feasnorm(crocoddyl::L1);
  double th = s.chance(1, 3) ? s.logu(1e-4, 1.) : s.logu(1e-12, 1e-5);
  so->set_th_stop(th);
  if (s.chance(1, 4)) so->set_rho(s.uni(0.05, 0.95));
  if (s.chance(1, 4)) so->set_zero_upsilon(true);
  // few step lengths, so that a whole line search may be rejected
  if (s.chance(1, 3)) so->set_alphas(s.flip() ? std::vector<double>{1.} : std::vector<double>{1., s.uni(0.1, 0.9)});
  if (s.chance(1, 3)) so->set_th_acceptstep(s.flip() ? 1. : s.uni(0.1, 1.));
  auto rec = std::make_shared<Recorder>();
  so->setCallbacks({rec});
  Traj us = k.us(s), xs;
  int guess = s.integer(0, 2);
  bool feasible = false;
  if (guess == 1) xs = k.p->rollout_us(us), feasible = s.flip();
  if (guess == 2) xs = k.xs(s);
  int maxiter = s.chance(1, 4) ? s.integer(1, 5) : 60;
  c.desc << " guess " << guess << " th " << th;
  bool ok = so->solve(xs, us, maxiter, feasible);
  c.desc << " -> " << so->get_iter() << (ok ? "+" : "-");
  if (!ok) {
    c.label("not-converged");
    return;
  }
  require((int)so->get_iter() < maxiter, "limit-converged");
  const Traj &X = so->get_xs(), &U = so->get_us();
  Feas f = feasibility(*k.p, X, U);
  double viol = l1 ? f.h1 : f.hinf;
  if (!(viol <= th * (1. + 1e-9) + 1e-13)) fail("violation", num(viol) + " of " + num(th));
  double mag = 1.;
  for (auto& x : X) mag = std::max(mag, x.cwiseAbs().maxCoeff());
  if (f.finf > 1e-9 * mag) fail("feasible", "gap " + num(f.finf));
  int rows = 0;
  for (auto& m : k.running) rows += m->get_nh();
  c.nontrivial = rows > 0;
}

int main(int argc, char** argv) {
  Check k("C08",
          "A case is a strictly convex LQ problem or smooth nonlinear problem of up to five nodes with zero up to as many "
          "equality constraints as controls per node, of full row rank in the controls; an equality method, a guess and "
          "settings. LQ results of all methods are compared with the KKT solution of the condensed QP, directions (also "
          "recomputed after a tried step) with the KKT solution at each node, converged runs with the violation evaluated "
          "node by node. Non-trivial: there are constraints.");
  k.family("lq", 15000, 300000, lq);
  k.family("direction", 15000, 400000, direction);
  k.family("run", 10000, 200000, run);
  return k.main(argc, argv);
}
