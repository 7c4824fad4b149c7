// USES_SOLVERS
// The Ipopt transcription is a consistent nonlinear program.
#include "common/solve.hpp"
using namespace vf;
typedef crocoddyl::IpoptInterface Iface;
typedef crocoddyl::SolverIpopt IpoptSolver;

// What the callbacks answer at one point.
struct Answers {
  double f;
  VectorXd g, grad;
  MatrixXd J, H;
};
struct Sizes {
  int n, m, nj, nh;
};
static Sizes info(Iface& I) {
  Sizes z;
  Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
  z.n = z.m = z.nj = z.nh = -1;
  require(I.get_nlp_info(z.n, z.m, z.nj, z.nh, style), "info");
  require(style == Ipopt::TNLP::C_STYLE, "index-style");
  require(z.n == (int)I.get_nvar() && z.m == (int)I.get_nconst(), "info", "sizes reported");
  return z;
}
// Index arrays, with guards behind their ends.
struct Pattern {
  std::vector<int> jr, jc, hr, hc;
};
static Pattern pattern(Iface& I, const Sizes& z, const VectorXd& w) {
  Pattern p;
  const int guard = -12345;
  p.jr.assign(z.nj + 4, guard), p.jc = p.jr;
  p.hr.assign(z.nh + 4, guard), p.hc = p.hr;
  require(I.eval_jac_g(z.n, w.data(), true, z.m, z.nj, p.jr.data(), p.jc.data(), NULL), "jacobian-pattern");
  require(I.eval_h(z.n, w.data(), true, 1., z.m, NULL, true, z.nh, p.hr.data(), p.hc.data(), NULL), "hessian-pattern");
  for (int i = 0; i < 4; ++i)
    require(p.jr[z.nj + i] == guard && p.jc[z.nj + i] == guard && p.hr[z.nh + i] == guard && p.hc[z.nh + i] == guard, "pattern", "written beyond the end");
  std::set<std::pair<int, int>> seen;
  for (int i = 0; i < z.nj; ++i) {
    require(p.jr[i] >= 0 && p.jr[i] < z.m && p.jc[i] >= 0 && p.jc[i] < z.n, "jacobian-pattern", "entry " + std::to_string(i));
    require(seen.insert({p.jr[i], p.jc[i]}).second, "jacobian-pattern", "entry given twice");
  }
  seen.clear();
  bool lower = true, upper = true;
  for (int i = 0; i < z.nh; ++i) {
    require(p.hr[i] >= 0 && p.hr[i] < z.n && p.hc[i] >= 0 && p.hc[i] < z.n, "hessian-pattern", "entry " + std::to_string(i));
    require(seen.insert({p.hr[i], p.hc[i]}).second, "hessian-pattern", "entry given twice");
    lower = lower && p.hr[i] >= p.hc[i], upper = upper && p.hr[i] <= p.hc[i];
  }
  require(lower || upper, "hessian-pattern", "not one triangle");
  return p;
}
static MatrixXd jac(Iface& I, const Sizes& z, const Pattern& p, const VectorXd& w) {
  const double guard = 777.25;
  VectorXd v = VectorXd::Constant(z.nj + 4, guard);
  require(I.eval_jac_g(z.n, w.data(), true, z.m, z.nj, NULL, NULL, v.data()), "jacobian");
  require((v.tail(4).array() == guard).all(), "jacobian", "written beyond the end");
  MatrixXd J = MatrixXd::Zero(z.m, z.n);
  for (int i = 0; i < z.nj; ++i) J(p.jr[i], p.jc[i]) += v[i];
  return J;
}
static MatrixXd hess(Iface& I, const Sizes& z, const Pattern& p, const VectorXd& w, double of, const VectorXd& lam) {
  const double guard = 777.25;
  VectorXd v = VectorXd::Constant(z.nh + 4, guard);
  require(I.eval_h(z.n, w.data(), true, of, z.m, lam.data(), true, z.nh, NULL, NULL, v.data()), "hessian");
  require((v.tail(4).array() == guard).all(), "hessian", "written beyond the end");
  MatrixXd H = MatrixXd::Zero(z.n, z.n);
  for (int i = 0; i < z.nh; ++i) H(p.hr[i], p.hc[i]) = H(p.hc[i], p.hr[i]) = v[i];
  return H;
}
static double fun(Iface& I, const Sizes& z, const VectorXd& w) {
  double f = 123.;
  require(I.eval_f(z.n, w.data(), true, f), "objective");
  return f;
}
static VectorXd cons(Iface& I, const Sizes& z, const VectorXd& w) {
  VectorXd g = VectorXd::Constant(z.m, 55.);
  require(I.eval_g(z.n, w.data(), true, z.m, g.data()), "constraints");
  return g;
}
static VectorXd grad(Iface& I, const Sizes& z, const VectorXd& w) {
  VectorXd g = VectorXd::Constant(z.n, 55.);
  require(I.eval_grad_f(z.n, w.data(), true, g.data()), "gradient");
  return g;
}

// The decision variables of each node: state increments, then controls.
struct Layout {
  std::vector<int> ix, iu;
  int n;
  Layout(const Problem& p) {
    n = 0;
    int ndx = p.get_ndx();
    for (auto& m : p.get_runningModels()) {
      ix.push_back(n), iu.push_back(n + ndx);
      n += ndx + m->get_nu();
    }
    ix.push_back(n);
    n += ndx;
  }
};
static void unpack(const Problem& p, const Layout& L, const Traj& rx, const VectorXd& w, Traj& xs, Traj& us) {
  int ndx = p.get_ndx(), T = p.get_T();
  xs.clear(), us.clear();
  for (int t = 0; t <= T; ++t) {
    auto& st = *(t < T ? p.get_runningModels()[t] : p.get_terminalModel())->get_state();
    xs.push_back(ref_integrate(st, rx[t], w.segment(L.ix[t], ndx)));
    if (t < T) us.push_back(w.segment(L.iu[t], p.get_runningModels()[t]->get_nu()));
  }
}

static ProblemCase gen_case(Src& s, Case& c, bool limits) {
  NodeSpec sp;
  sp.bounds = limits;
  sp.cons = false;
  sp.zero_nu = s.chance(1, 4);
  sp.eps = s.pick<double>({0.3, 1., 0.});
  sp.empty = true;
  return gen_problem(s, c, sp, 4, s.flip());
}

// One point: every callback against the definition and against differences.
static void point(Src& s, Case& c) {
  ProblemCase k = gen_case(s, c, true);
  int T = k.T(), ndx = k.st->get_ndx();
  Ipopt::SmartPtr<Iface> P = new Iface(k.p);
  Iface& I = *P;
  Traj rx = k.xs(s), ru = k.us(s);
  if (s.flip()) I.resizeData();
  I.set_xs(rx), I.set_us(ru);
  Layout L(*k.p);
  Sizes z = info(I);
  require(z.n == L.n, "variables", std::to_string(z.n) + " vs " + std::to_string(L.n));
  require(z.m == ndx * (T + 1), "number-of-constraints");
  VectorXd w(z.n);
  require(I.get_starting_point(z.n, true, w.data(), false, NULL, NULL, z.m, false, NULL), "start");
  Traj xs, us;
  unpack(*k.p, L, rx, w, xs, us);
  for (int t = 0; t < T; ++t) require(same(us[t], ru[t]), "start", "controls");
  for (int t = 0; t <= T; ++t) near("start", ref_diff(*k.st, rx[t], xs[t]).norm(), 0., 1e-9);
  // limits
  VectorXd xl(z.n), xu(z.n), gl(z.m), gu(z.m);
  require(I.get_bounds_info(z.n, xl.data(), xu.data(), z.m, gl.data(), gu.data()), "bounds");
  require((gl.array() == 0.).all() && (gu.array() == 0.).all(), "constraint-bounds");
  const double big = 1e19;
  for (int t = 0; t <= T; ++t) {
    for (int j = 0; j < ndx; ++j) require(xl[L.ix[t] + j] <= -big && xu[L.ix[t] + j] >= big, "state-bounds");
    if (t == T) break;
    auto& m = k.running[t];
    for (int j = 0; j < (int)m->get_nu(); ++j) {
      double l = m->get_u_lb()[j], u = m->get_u_ub()[j], a = xl[L.iu[t] + j], b = xu[L.iu[t] + j];
      if (l <= -big ? !(a <= -big) : a != l) fail("control-bounds", "lower of node " + std::to_string(t) + ": " + num(a) + " vs " + num(l));
      if (u >= big ? !(b >= big) : b != u) fail("control-bounds", "upper of node " + std::to_string(t) + ": " + num(b) + " vs " + num(u));
      if (std::isfinite(l) || std::isfinite(u)) c.label("limits");
    }
  }
  Pattern p = pattern(I, z, w);
  // a point
  w = s.vec(z.n, s.pick<double>({1., 0.3, 0.}));
  unpack(*k.p, L, rx, w, xs, us);
  Feas F = feasibility(*k.p, xs, us);
  double mag = 1. + F.cabs;
  for (auto& x : xs) mag = std::max(mag, x.squaredNorm());
  if (!(mag < 1e4)) throw Discard();
  near("objective", fun(I, z, w), F.cost, 1e-10 * mag);
  // gaps, as a set of equations up to sign
  VectorXd g = cons(I, z, w), ref(z.m);
  for (int t = 0; t < T; ++t) {
    auto d = k.running[t]->createData();
    k.running[t]->calc(d, xs[t], us[t]);
    ref.segment(t * ndx, ndx) = ref_diff(*k.st, d->xnext, xs[t + 1]);
  }
  VectorXd r0 = ref_diff(*k.st, xs[0], k.x0);
  ref.tail(ndx) = r0;
  // keep away from rotations by half a turn, where the logarithm is not smooth
  for (int t = 0; t <= T; ++t)
    if (!dynamic_cast<crocoddyl::StateVector*>(k.st.get()) && ref.segment(t * ndx, ndx).norm() > 2.5) throw Discard();
  near("constraints", (g.cwiseAbs() - ref.cwiseAbs()).cwiseAbs().maxCoeff(), 0., 1e-9 * mag, str(g) + " vs " + str(ref));
  // derivatives
  VectorXd G = grad(I, z, w);
  MatrixXd J = jac(I, z, p, w);
  VectorXd lam = s.vec(z.m, 3.);
  double of = s.chance(1, 4) ? s.pick<double>({0., 1., -1.}) : s.uni(-3., 3.);
  MatrixXd H = hess(I, z, p, w, of, lam);
  const double h = 1e-5;
  for (int j = 0; j < z.n; ++j) {
    VectorXd a = w, b = w;
    a[j] -= h, b[j] += h;
    near("gradient", G[j], (fun(I, z, b) - fun(I, z, a)) / (2 * h), 1e-5 * mag, "variable " + std::to_string(j));
    VectorXd d = (cons(I, z, b) - cons(I, z, a)) / (2 * h);
    near("jacobian", (J.col(j) - d).cwiseAbs().maxCoeff(), 0., 1e-5 * mag, "variable " + std::to_string(j) + ": " + str(J.col(j)) + " vs " + str(d));
  }
  // the Gauss-Newton Hessian: the models' cost Hessians in the decision variables
  MatrixXd R = MatrixXd::Zero(z.n, z.n);
  for (int t = 0; t <= T; ++t) {
    auto m = t < T ? k.running[t] : k.terminal;
    auto d = m->createData();
    t < T ? m->calc(d, xs[t], us[t]) : m->calc(d, xs[t]);
    t < T ? m->calcDiff(d, xs[t], us[t]) : m->calcDiff(d, xs[t]);
    MatrixXd Ji = MatrixXd::Zero(ndx, ndx);
    // d(x (+) (w + e)) / de in the tangent space, by differences
    for (int j = 0; j < ndx; ++j) {
      VectorXd e = w.segment(L.ix[t], ndx), q = e;
      e[j] -= h, q[j] += h;
      Ji.col(j) = ref_diff(*k.st, ref_integrate(*k.st, rx[t], e), ref_integrate(*k.st, rx[t], q)) / (2 * h);
    }
    R.block(L.ix[t], L.ix[t], ndx, ndx) = Ji.transpose() * d->Lxx * Ji;
    VectorXd gr = Ji.transpose() * d->Lx;
    near("gradient", (VectorXd(G.segment(L.ix[t], ndx)) - gr).cwiseAbs().maxCoeff(), 0., 1e-6 * mag, "node");
    if (t == T) break;
    int nu = m->get_nu();
    R.block(L.iu[t], L.iu[t], nu, nu) = d->Luu;
    R.block(L.ix[t], L.iu[t], ndx, nu) = Ji.transpose() * d->Lxu;
    R.block(L.iu[t], L.ix[t], nu, ndx) = R.block(L.ix[t], L.iu[t], ndx, nu).transpose();
    if (nu) near("gradient", (VectorXd(G.segment(L.iu[t], nu)) - d->Lu).cwiseAbs().maxCoeff(), 0., 1e-9 * mag, "node");
  }
  R *= of;
  double hm = 1. + R.cwiseAbs().maxCoeff();
  if ((H - R).cwiseAbs().maxCoeff() > 1e-6 * hm * mag) fail("hessian", "factor " + num(of) + " " + str(H) + " vs " + str(R));
  // the answer of the solution callback
  VectorXd zero = VectorXd::Zero(std::max(z.n, z.m));
  I.finalize_solution(Ipopt::SUCCESS, z.n, w.data(), zero.data(), zero.data(), z.m, zero.data(), zero.data(), F.cost, NULL, NULL);
  require(same(I.get_cost(), F.cost), "solution", "cost");
  for (int t = 0; t <= T; ++t) {
    near("solution", ref_diff(*k.st, xs[t], I.get_xs()[t]).norm(), 0., 1e-8 * mag);
    if (t < T) require(same(us[t], I.get_us()[t]), "solution", "controls");
  }
  c.nontrivial = w.norm() > 0.;
  c.label(dynamic_cast<crocoddyl::StateVector*>(k.st.get()) ? "vector" : "manifold");
}

// Any history of callbacks, edits and other uses of the problem: the same answers
// as a new transcription of the problem as it stands.
static void history(Src& s, Case& c) {
  ProblemCase k = gen_case(s, c, true);
  Ipopt::SmartPtr<Iface> P = new Iface(k.p);
  Iface& I = *P;
  Traj rx = k.xs(s), ru = k.us(s);
  I.set_xs(rx), I.set_us(ru);
  Layout L(*k.p);
  VectorXd w = s.vec(L.n, 1.);
  int n = s.integer(1, 12);
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 2)) w = s.vec(L.n, 1.);
    if (s.chance(1, 6)) {  // the problem is edited
      c.label("edited");
      NodeSpec sp;
      sp.bounds = true, sp.cons = false, sp.zero_nu = true;
      std::string d;
      int q = s.integer(k.T() ? 0 : 2, 3);
      // an evaluation at the terminal node may share its data with a running one
      if (q == 0) {
        int t = s.integer(0, k.T() - 1);
        k.running[t] = gen_node(s, k.st, sp, s.integer(0, 3), &d);
        k.p->updateModel(t, k.running[t]);
      } else if (q == 1) {
        auto m = gen_node(s, k.st, sp, s.integer(0, 3), &d);
        k.p->circularAppend(m, m->createData());
        k.running.erase(k.running.begin());
        k.running.push_back(m);
      } else if (q == 2) {
        k.terminal = gen_node(s, k.st, sp, 1, &d);
        k.p->updateModel(k.T(), k.terminal);
      } else {
        k.x0 = gen_x(s, *k.st, 0.5);
        k.p->set_x0(k.x0);
      }
      c.desc << " edit" << q << d;
      I.resizeData();
      L = Layout(*k.p);
      rx = k.xs(s), ru = k.us(s);
      I.set_xs(rx), I.set_us(ru);
      w = s.vec(L.n, 1.);
    }
    if (s.chance(1, 5)) {  // the data of the problem is used by somebody else
      c.label("shared");
      Traj xs = k.xs(s), us = k.us(s);
      k.p->calc(xs, us);
      if (s.flip()) k.p->calcDiff(xs, us);
    }
    auto fresh_p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
    Ipopt::SmartPtr<Iface> Q = new Iface(fresh_p);
    Q->set_xs(rx), Q->set_us(ru);
    Sizes z = info(I), zf = info(*Q);
    require(z.n == zf.n && z.m == zf.m && z.nj == zf.nj && z.nh == zf.nh, "sizes", "after the history");
    int cb = s.integer(0, 7);
    c.desc << " " << cb;
    std::string w_ = "callback " + std::to_string(cb) + " at position " + std::to_string(i);
    if (cb == 0) {
      double a = fun(I, z, w), b = fun(*Q, z, w);
      if (!same(a, b)) fail("history", w_ + ": " + num(a) + " vs " + num(b));
    } else if (cb == 1) {
      VectorXd a = grad(I, z, w), b = grad(*Q, z, w);
      if (!same(a, b)) fail("history", w_ + ": " + str(a) + " vs " + str(b));
    } else if (cb == 2) {
      VectorXd a = cons(I, z, w), b = cons(*Q, z, w);
      if (!same(a, b)) fail("history", w_ + ": " + str(a) + " vs " + str(b));
    } else if (cb == 3 || cb == 6) {
      Pattern p = pattern(*Q, z, w);
      MatrixXd a = jac(I, z, p, w), b = jac(*Q, z, p, w);
      if (!same(a, b)) fail("history", w_ + ": " + str(a) + " vs " + str(b));
    } else if (cb == 4 || cb == 7) {
      Pattern p = pattern(*Q, z, w);
      VectorXd lam = s.vec(z.m, 1.);
      double of = s.uni(-2., 2.);
      MatrixXd a = hess(I, z, p, w, of, lam), b = hess(*Q, z, p, w, of, lam);
      if (!same(a, b)) fail("history", w_ + ": " + str(a) + " vs " + str(b));
    } else {
      Pattern a = pattern(I, z, w), b = pattern(*Q, z, w);
      require(a.jr == b.jr && a.jc == b.jc && a.hr == b.hr && a.hc == b.hc, "history", w_);
      VectorXd xl(z.n), xu(z.n), gl(z.m), gu(z.m), yl(z.n), yu(z.n), v(z.n), u(z.n);
      I.get_bounds_info(z.n, xl.data(), xu.data(), z.m, gl.data(), gu.data());
      Q->get_bounds_info(z.n, yl.data(), yu.data(), z.m, gl.data(), gu.data());
      require(same(xl, yl) && same(xu, yu), "history", w_ + ": bounds");
      I.get_starting_point(z.n, true, v.data(), false, NULL, NULL, z.m, false, NULL);
      Q->get_starting_point(z.n, true, u.data(), false, NULL, NULL, z.m, false, NULL);
      require(same(v, u), "history", w_ + ": start");
    }
    if (i > 1) c.nontrivial = true;
  }
}

// Runs: the optimum of convex LQ problems with limits, against projected
// optimality conditions.
static void box(Src& s, Case& c) {
  LQSpec sp;
  sp.maxT = 3, sp.maxnx = 3, sp.maxnu = 2;
  LQProblem k = gen_lq(s, c, sp);
  int n = k.n();
  if (n == 0) throw Discard();
  VectorXd free = k.minimiser();
  double sc = std::max(0.05, free.cwiseAbs().maxCoeff());
  if (sc > 50.) throw Discard();
  VectorXd lb = VectorXd::Constant(n, -INF), ub = VectorXd::Constant(n, INF);
  int iu = 0;
  for (int t = 0; t < k.T; ++t) {
    int nu = k.nu[t];
    bool shared = false;  // one model at several nodes has one set of limits
    for (int q = 0, j = 0; q < t; j += k.nu[q], ++q)
      if (k.models[q] == k.models[t]) {
        lb.segment(iu, nu) = lb.segment(j, nu), ub.segment(iu, nu) = ub.segment(j, nu);
        shared = true;
        break;
      }
    if (!shared && nu && s.chance(3, 4)) {
      for (int j = 0; j < nu; ++j) {
        double a = s.uni(-1., 1.) * sc, b = a + s.uni(0.05, 2.) * sc;
        lb[iu + j] = a, ub[iu + j] = b;
      }
      k.models[t]->set_u_lb(lb.segment(iu, nu));
      k.models[t]->set_u_ub(ub.segment(iu, nu));
    }
    iu += nu;
  }
  auto so = std::make_shared<IpoptSolver>(k.p);
  so->setStringIpoptOption("sb", "yes");
  so->set_th_stop(1e-9);
  Traj us;
  for (int v : k.nu) us.push_back(s.vec(v, 1.));
  if (!so->solve({}, us, 300)) {
    c.label("not-converged");
    return;
  }
  VectorXd U = k.stack(so->get_us());
  double mag = 1. + k.g.cwiseAbs().dot(U.cwiseAbs()) + std::fabs(k.c) + U.dot(k.H * U);
  for (int i = 0; i < n; ++i) {
    double tol = 2e-8 * std::max(1., std::max(std::isfinite(lb[i]) ? std::fabs(lb[i]) : 0., std::isfinite(ub[i]) ? std::fabs(ub[i]) : 0.));
    require(U[i] >= lb[i] - tol && U[i] <= ub[i] + tol, "limits", num(U[i]) + " not in " + num(lb[i]) + " " + num(ub[i]));
  }
  Traj X = k.xs(U);
  for (int t = 0; t <= k.T; ++t) nearm("dynamics", so->get_xs()[t], X[t], 1e-6 * std::sqrt(mag), "states");
  VectorXd q = k.H * U + k.g;
  for (int i = 0; i < n; ++i) {
    double lo = U[i] - lb[i], hi = ub[i] - U[i], tol = 1e-5 * mag;
    // the gain left in each direction
    double gain = q[i] > 0 ? std::min(q[i] * lo, q[i] * q[i] / std::max(1e-3, k.H(i, i))) : std::min(-q[i] * hi, q[i] * q[i] / std::max(1e-3, k.H(i, i)));
    if (gain > tol) fail("optimal", "control " + std::to_string(i) + " gradient " + num(q[i]) + " room " + num(lo) + " " + num(hi));
    if (lo < 1e-4 * sc || hi < 1e-4 * sc) c.nontrivial = true;
  }
  near("cost", so->get_cost(), k.cost(U), 1e-6 * mag);
}

// The stopping threshold is Ipopt's tolerance: from close to the optimum a run
// with a wide one ends at once, a run with a narrow one goes on.
static void threshold(Src& s, Case& c) {
  LQSpec sp;
  sp.maxT = 3, sp.maxnx = 3, sp.maxnu = 2;
  LQProblem k = gen_lq(s, c, sp);
  int n = k.n();
  if (n == 0) throw Discard();
  VectorXd U = k.minimiser();
  double sc = std::max(0.05, U.cwiseAbs().maxCoeff());
  if (sc > 50.) throw Discard();
  VectorXd e = s.vec(n, 1.);
  double g = (k.H * e).cwiseAbs().maxCoeff();
  bool small = s.chance(1, 3);
  double left = small ? s.logu(1e-9, 1e-7) : s.logu(1e-5, 1e-3);  // the gradient left
  if (!(g > 1e-6)) throw Discard();
  e *= left / g;
  if (!(e.cwiseAbs().maxCoeff() < 1e3)) throw Discard();
  Traj us;
  int j = 0;
  for (int v : k.nu) us.push_back((U + e).segment(j, v)), j += v;
  Traj xs = k.xs(U + e);
  double mag = 1.;
  for (auto& x : xs) mag = std::max(mag, x.cwiseAbs().maxCoeff());
  if (mag > 1e3) throw Discard();
  auto fresh = [&] {
    auto so = std::make_shared<IpoptSolver>(k.p);
    so->setStringIpoptOption("sb", "yes");
    so->setStringIpoptOption("nlp_scaling_method", "none");
    return so;
  };
  auto so = fresh();
  if (small) {  // the threshold of a new solver
    auto o = fresh();
    o->set_th_stop(s.pick<double>({1e-3, 1.}));
    o->set_th_stop(so->get_th_stop());
    bool a = so->solve(xs, us, 100), b = o->solve(xs, us, 100);
    require(a == b && so->get_iter() == o->get_iter(), "first-threshold", std::to_string(so->get_iter()) + " iterations, set " + std::to_string(o->get_iter()));
    c.label("first");
    c.nontrivial = true;
    return;
  }
  int runs = s.integer(2, 4);
  for (int i = 0; i < runs; ++i) {
    bool wide = s.flip();
    double th = wide ? left * s.logu(10., 1e3) : left * s.logu(1e-5, 1e-3);
    so->set_th_stop(th);
    require(so->get_th_stop() == th, "th_stop-getter");
    bool ok = so->solve(xs, us, 100);
    c.desc << (wide ? " wide" : " narrow") << so->get_iter();
    if (wide) {
      require(ok && so->get_iter() == 0, "wide-threshold", num(th) + " gradient " + num(left) + " iterations " + std::to_string(so->get_iter()));
    } else {
      require(so->get_iter() > 0, "narrow-threshold", num(th) + " gradient " + num(left));
    }
  }
  c.nontrivial = true;
}

// Runs that cannot succeed end as unsuccessful runs and leave a usable solver.
static void failing(Src& s, Case& c) {
  NodeSpec sp;
  sp.bounds = s.flip();
  sp.cons = false;
  sp.share_terminal = false;
  ProblemCase k = gen_problem(s, c, sp, 3);
  int q = s.integer(0, 3);
  c.desc << " how " << q;
  c.label("how" + std::to_string(q));
  std::vector<std::shared_ptr<NlAction>> nl;
  for (auto& m : k.running)
    if (auto a = std::dynamic_pointer_cast<NlAction>(m)) nl.push_back(a);
  auto ref = std::make_shared<IpoptSolver>(std::make_shared<Problem>(k.x0, k.running, k.terminal));
  auto so = std::make_shared<IpoptSolver>(k.p);
  // Without this option a Jacobian that is not a number can crash MUMPS.
  for (auto& p : {ref, so}) p->setStringIpoptOption("sb", "yes"), p->setStringIpoptOption("check_derivatives_for_naninf", "yes");
  Traj us = k.us(s), xs = k.xs(s);
  const Problem& p = *k.p;
  bool ok = true, thrown = false;
  std::vector<VectorXd> lb, ub;
  for (auto& m : k.running) lb.push_back(m->get_u_lb()), ub.push_back(m->get_u_ub());
  auto solve = [&](const Traj& x, const Traj& u, int it) {
    thrown = throws([&] { ok = so->solve(x, u, it); });
    if (thrown) ok = false;
  };
  if (q == 0) {  // models that throw or are not a number
    if (nl.empty()) throw Discard();
    for (auto& a : nl) a->fault = s.pick<int>({1, 2, 3, 4}), a->limit = s.pick<double>({0., 0.5, 3.});
    solve(xs, us, s.integer(0, 20));
    for (auto& a : nl) a->fault = 0;
  } else if (q == 1) {  // every control fixed by its limits
    for (auto& m : k.running) {
      VectorXd v = s.vec(m->get_nu(), 1.);
      m->set_u_lb(v), m->set_u_ub(v);
    }
    solve(xs, us, 20);
    for (int t = 0; t < k.T(); ++t) k.running[t]->set_u_lb(lb[t]), k.running[t]->set_u_ub(ub[t]);
  } else if (q == 2) {  // guess that is not a number
    Traj bad = xs;
    bad[s.integer(0, k.T())][0] = s.pick<double>({NAN, INF});
    solve(bad, us, 20);
    require(!ok, "nan-guess", "converged");
  } else {  // no iterations
    solve(xs, us, s.integer(0, 1));
  }
  c.desc << (thrown ? " thrown" : ok ? " +" : " -");
  (void)p;
  require(so->get_xs().size() == xs.size() && so->get_us().size() == us.size(), "sizes");
  // afterwards as good as new
  bool a = so->solve(xs, us, 20), b = ref->solve(xs, us, 20);
  require(a == b && so->get_iter() == ref->get_iter(), "afterwards", "outcome " + std::to_string(a) + " " + std::to_string(b));
  for (size_t t = 0; t < xs.size(); ++t) require(same(so->get_xs()[t], ref->get_xs()[t]), "afterwards", "xs");
  for (size_t t = 0; t < us.size(); ++t) require(same(so->get_us()[t], ref->get_us()[t]), "afterwards", "us");
  require(same(so->get_cost(), ref->get_cost()), "afterwards", "cost");
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  Check k("C09",
          "A case is a problem of up to four mixed nodes (vector or Lie-group state, with and without controls and limits), "
          "reference trajectories and a point, multipliers and objective factor; or a history of callbacks, edits and foreign "
          "uses of the data; or a run on a box-constrained LQ problem; or a failing run. The callbacks are compared with the "
          "definitions evaluated node by node and with central differences of each other; histories with a new "
          "transcription, bit by bit. Non-trivial: a point away from the reference, more than two callbacks, an active "
          "limit, or a failing run.");
  k.family("point", 8000, 60000, point);
  k.family("history", 15000, 150000, history);
  k.family("box", 600, 5000, box);
  k.family("threshold", 600, 5000, threshold);
  k.family("failing", 600, 5000, failing);
  return k.main(argc, argv);
}
