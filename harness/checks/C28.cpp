// C28: quasi-static controls hold the state still.
#include <cmath>

#include "../common/costs.hpp"
#include "../common/harness.hpp"
#include "../common/integ.hpp"
#include "../common/nodes.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
using namespace vf;
using namespace crocoddyl;

// A point with zero velocity.
static VectorXd rest(Src& s, const State& st) {
  VectorXd x = gen_x(s, st, 1.);
  x.tail(st.get_nv()).setZero();
  return x;
}
// Gives the control columns of f known singular values; `full` = full row rank.
static bool shape(Src& s, SmoothMap& f, int nu, double eps, Case& c) {
  int n = (int)f.M.rows();
  int k = std::min(n, nu);
  MatrixXd a = s.mat(n, nu);
  Eigen::JacobiSVD<MatrixXd> svd(a, Eigen::ComputeThinU | Eigen::ComputeThinV);
  VectorXd sv(k);
  bool full = nu >= n;
  for (int i = 0; i < k; ++i) sv(i) = s.logu(0.3, 3.);
  if (k > 0 && s.chance(1, 5)) {
    sv(s.integer(0, k - 1)) = 0.;
    full = false;
    c.label("rank-deficient");
  }
  f.M.rightCols(nu) = svd.matrixU() * sv.asDiagonal() * svd.matrixV().transpose();
  f.eps = eps;
  if (eps != 0.) {
    if (f.W.size() == 0) {
      f.W = s.mat(n, (int)f.M.cols(), 1.);
      f.w = s.vec(n, 3.);
    }
    for (int i = 0; i < n; ++i) {  // bounded curvature
      double w = f.W.row(i).norm();
      if (w > 1) f.W.row(i) /= w;
    }
    if (!full) {  // keep the null directions null
      MatrixXd V = svd.matrixV();
      MatrixXd P = MatrixXd::Zero(nu, nu);
      for (int i = 0; i < k; ++i)
        if (sv(i) > 0) P += V.col(i) * V.col(i).transpose();
      f.W.rightCols(nu) = (f.W.rightCols(nu) * P).eval();
    }
  }
  c.label(full ? "solvable" : nu >= n ? "deficient" : "under-actuated");
  return full;
}

struct Target {
  std::function<VectorXd(const VectorXd&)> r;  // imbalance at the point
  std::function<MatrixXd(const VectorXd&)> J;
  bool solvable = false;
  bool linear = false;
};
static MatrixXd pinv(const MatrixXd& a) {
  if (!a.cols() || !a.rows()) return MatrixXd::Zero(a.cols(), a.rows());
  return a.completeOrthogonalDecomposition().pseudoInverse();
}
// Iterations a Gauss-Newton search of our own needs from u (-1: more than max).
static int iterations(const Target& t, VectorXd u, double tol, int max) {
  for (int i = 1; i <= max; ++i) {
    VectorXd du = -pinv(t.J(u)) * t.r(u);
    u += du;
    if (!(du.norm() < 1e8)) return -1;
    if (du.norm() <= tol) return i;
  }
  return -1;
}
static void judge(const Target& t, const VectorXd& u, double tol, const std::string& what) {
  VectorXd r = t.r(u);
  MatrixXd J = t.J(u);
  require(u.allFinite(), what + "-finite", str(u));
  double sc = 1 + r.norm() + J.norm() * (1 + u.norm());
  if (t.solvable) require(r.norm() <= (1e-9 + 3 * tol) * sc, what + "-imbalance", "|imbalance| = " + num(r.norm()) + " at tol " + num(tol) + ", u = " + str(u));
  VectorXd g = J.transpose() * r;
  require(g.norm() <= (1e-8 + 6 * tol) * sc * (1 + J.norm()), what + "-stationary", "|J' imbalance| = " + num(g.norm()) + " at tol " + num(tol) + ", u = " + str(u));
}

// ---------------------------------------------------------------- differential
struct DCase {
  std::shared_ptr<State> st;
  std::shared_ptr<Diff> m;
  SmoothMap f;
  VectorXd xref;
  int nu;
  Target at(const VectorXd& x) const {
    Target t;
    VectorXd y = ref_diff(*st, xref, x);
    SmoothMap g = f;
    int n = nu;
    auto z = [y, n](const VectorXd& u) {
      VectorXd v(y.size() + n);
      v << y, u;
      return v;
    };
    t.r = [g, z](const VectorXd& u) { return g(z(u)); };
    t.J = [g, z, n](const VectorXd& u) { return MatrixXd(g.jac(z(u)).rightCols(n)); };
    t.solvable = solvable;
    t.linear = f.eps == 0.;
    return t;
  }
  bool solvable;
};
static double gen_eps(Src& s) { return s.flip() ? 0. : s.logu(0.01, 0.12); }
static DCase gen_d(Src& s, Case& c) {
  DCase d;
  d.nu = s.integer(1, 4);
  int kind = s.integer(0, 2);
  if (kind == 0) {
    int nq = s.integer(1, 3), n = 2 * nq;
    LQ l = LQ::gen(s, n, d.nu, s.integer(0, 1), s.integer(0, 1), 0.1);
    d.f.M = s.mat(nq, n + d.nu);
    d.f.m = s.vec(nq);
    d.solvable = shape(s, d.f, d.nu, 0., c);
    d.m = std::make_shared<DifferentialActionModelLQRTpl<double>>(
        MatrixXd(d.f.M.leftCols(nq)), MatrixXd(d.f.M.middleCols(nq, nq)), MatrixXd(d.f.M.rightCols(d.nu)), l.Q, l.R, l.N,
        l.G, l.H, d.f.m, l.q, l.r, l.g, l.h);
    d.st = d.m->get_state();
    d.xref = d.st->zero();
    c.label("lqr");
  } else if (kind == 1) {
    d.st = gen_state(s, 3, true);
    ModelSpec sp;
    sp.ng = s.integer(0, 1);
    sp.nh = s.integer(0, 1);
    auto m = gen_nldiff(s, d.st, d.nu, sp);
    d.solvable = shape(s, m->F.f, d.nu, gen_eps(s), c);
    d.f = m->F.f;
    d.xref = m->F.xref;
    d.m = m;
    c.label("smooth");
  } else {
    d.st = gen_state(s, 2, true);
    DiffCostsCase k = gen_diffcosts(s, d.st, d.nu, true);
    d.solvable = shape(s, k.m->f, d.nu, gen_eps(s), c);
    d.f = k.m->f;
    d.xref = k.m->xref;
    d.m = k.m;
    c.label("costs");
  }
  c.desc << " nx=" << d.st->get_nx() << " nu=" << d.nu << " eps=" << num(d.f.eps) << (d.solvable ? " solvable" : "");
  return d;
}
static double gen_tol(Src& s) { return s.chance(1, 3) ? s.logu(1e-6, 0.1) : 1e-9; }
// A reused data object, sometimes full of values of another evaluation.
template <class M, class D>
static void dirty(Src& s, const State& st, M& m, const std::shared_ptr<D>& d, int nu) {
  int k = s.integer(0, 3);
  if (k == 0) return;
  VectorXd x = gen_x(s, st, 2.), u = s.vec(nu, 2.);
  if (k == 3) u = VectorXd::Constant(nu, std::nan(""));
  m.calc(d, x, u);
  if (k == 2) m.calcDiff(d, x, u);
}

static void differential(Src& s, Case& c) {
  DCase d = gen_d(s, c);
  std::shared_ptr<Diff> m = d.m;
  if (s.chance(1, 5)) {
    m = std::make_shared<DifferentialActionModelNumDiffTpl<double>>(d.m);
    c.label("numdiff");
  }
  auto data = m->createData();
  int n = s.integer(1, 3);
  for (int i = 0; i < n; ++i) {
    VectorXd x = rest(s, *d.st), x0 = x;
    Target t = d.at(x);
    double tol = gen_tol(s);
    VectorXd u0 = s.flip() ? VectorXd(VectorXd::Zero(d.nu)) : s.vec(d.nu, 3.);
    int it = iterations(t, u0, tol, 60);
    if (it < 0) continue;
    if (u0.isZero()) it = std::max(it, iterations(t, VectorXd::Zero(d.nu), tol, 60));
    dirty(s, *d.st, *m, data, d.nu);
    VectorXd u = u0;
    std::size_t maxiter = s.flip() ? 100 : (std::size_t)it + (t.linear ? s.integer(0, 2) : 1 + s.integer(0, 2));
    m->quasiStatic(data, u, x, maxiter, tol);
    require(same(x, x0), "input", "the state was changed");
    judge(t, u, tol, "quasi-static");
    if (t.linear) judge(t, u, 1e-10, "linear");
    if (u0.isZero()) {
      VectorXd v = m->quasiStatic_x(m->createData(), x, maxiter, tol);
      nearm("returned", v, u, 1e-9, "quasiStatic_x and quasiStatic");
    }
    // evaluated by the model itself
    auto fresh = m->createData();
    m->calc(fresh, x, u);
    nearm("model", fresh->xout, t.r(u), 1e-9, "acceleration at the quasi-static control");
    auto again = data;
    m->calc(again, x, u);
    nearm("data", again->xout, t.r(u), 1e-9, "acceleration with the data used for the search");
    VectorXd w = u0;
    m->quasiStatic(data, w, x, 0, tol);
    require(same(w, u0), "no-iterations", "the control changes without an iteration");
    if (t.r(u0).norm() > 1e-3) c.nontrivial = true;
  }
}

static void discrete(Src& s, Case& c) {
  std::shared_ptr<Action> m;
  std::shared_ptr<State> st;
  SmoothMap f;  // tangent step
  VectorXd xref;
  int nu = s.integer(1, 4);
  bool solvable;
  if (s.flip()) {
    int nx = 2 * s.integer(1, 2);
    LQ l = LQ::gen(s, nx, nu, s.integer(0, 1), s.integer(0, 1), 0.1);
    SmoothMap g;
    g.M.resize(nx, nx + nu);
    g.M << l.A, l.B;
    g.m = l.f;
    solvable = shape(s, g, nu, 0., c);
    l.B = g.M.rightCols(nu);
    m = l.model();
    st = m->get_state();
    f = g;
    f.M.leftCols(nx) -= MatrixXd::Identity(nx, nx);
    xref = st->zero();
    c.label("lqr");
  } else {
    st = gen_state(s, 2, true);
    ModelSpec sp;
    auto a = gen_nlaction(s, st, nu, sp);
    solvable = shape(s, a->F.f, nu, gen_eps(s), c);
    if (dynamic_cast<LieState*>(st.get())) {  // steps shorter than half a turn
      a->F.f.M *= 0.3;
      a->F.f.m *= 0.3;
      a->F.f.eps *= 0.3;
    }
    f = a->F.f;
    xref = a->F.xref;
    m = a;
    c.label("smooth");
  }
  DCase d;
  d.st = st;
  d.f = f;
  d.xref = xref;
  d.nu = nu;
  d.solvable = solvable;
  c.desc << " discrete nx=" << st->get_nx() << " nu=" << nu << " eps=" << num(f.eps);
  std::shared_ptr<Action> q = m;
  if (s.chance(1, 5)) {
    q = std::make_shared<ActionModelNumDiffTpl<double>>(m);
    c.label("numdiff");
  }
  auto data = q->createData();
  bool lie = dynamic_cast<LieState*>(st.get()) != nullptr;
  int n = s.integer(1, 3);
  for (int i = 0; i < n; ++i) {
    VectorXd x = rest(s, *st), x0 = x;
    Target t = d.at(x);
    double tol = gen_tol(s);
    VectorXd u0 = s.flip() ? VectorXd(VectorXd::Zero(nu)) : s.vec(nu, 3.);
    if (lie) {
      u0 *= 0.2;
      if (t.r(u0).norm() > 2.) continue;
    }
    int it = iterations(t, u0, tol, 60);
    if (it < 0) continue;
    dirty(s, *st, *q, data, nu);
    VectorXd u = u0;
    q->quasiStatic(data, u, x, 100, tol);
    require(same(x, x0), "input", "the state was changed");
    if (lie && !solvable) tol = std::max(tol, 1e-6);  // another metric on the way, the same limit
    judge(t, u, tol, "quasi-static");
    auto fresh = q->createData();
    q->calc(fresh, x, u);
    VectorXd dx = ref_diff(*st, x, fresh->xnext);
    nearm("model", dx, t.r(u), 1e-7, "step at the quasi-static control");
    if (u0.isZero()) nearm("returned", q->quasiStatic_x(q->createData(), x, 100, tol), u, lie ? 1e-5 : 1e-9, "quasiStatic_x and quasiStatic");
    if (t.r(u0).norm() > 1e-3) c.nontrivial = true;
  }
}

static void integrated(Src& s, Case& c) {
  DCase d = gen_d(s, c);
  int scheme = std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
  double dt = gen_dt(s);
  CtrlKind k = make_ctrl(s.integer(0, 3), d.nu);
  bool dflt = k.nodes.size() == 1 && s.flip();
  auto m = make_integ(scheme, d.m, dflt ? nullptr : k.m, dt, s.flip());
  c.label(scheme ? "rk" + std::to_string(scheme) : std::string("euler"));
  c.label(k.name);
  c.desc << " " << k.name << " scheme=" << scheme << " dt=" << num(dt);
  std::shared_ptr<Action> q = m;
  if (s.chance(1, 6)) {
    q = std::make_shared<ActionModelNumDiffTpl<double>>(m);
    c.label("numdiff");
  }
  auto data = q->createData();
  int n = s.integer(1, 3);
  for (int i = 0; i < n; ++i) {
    VectorXd x = rest(s, *d.st), x0 = x;
    Target t = d.at(x);
    double tol = gen_tol(s);
    if (iterations(t, VectorXd::Zero(d.nu), tol, 60) < 0) continue;
    dirty(s, *d.st, *q, data, k.nu());
    VectorXd u = s.vec(k.nu(), 3.);
    if (s.chance(1, 4)) u.setConstant(std::nan(""));
    q->quasiStatic(data, u, x, 100, tol);
    require(same(x, x0), "input", "the state was changed");
    require(u.allFinite(), "finite", "parameters " + str(u));
    // the control it stands for, all along the step
    VectorXd w = ctrl_value(k, 0., u);
    judge(t, w, tol, "quasi-static");
    for (double tau : {0.25, 0.5, 0.8, 1.}) nearm("held", ctrl_value(k, tau, u), w, 1e-9, "control along the step");
    auto fresh = q->createData();
    q->calc(fresh, x, u);
    if (t.solvable) {
      VectorXd dx = ref_diff(*d.st, x, fresh->xnext);
      double sc = 1 + t.J(w).norm() * (1 + w.norm()), grow = std::pow(1 + dt * (1 + d.f.M.norm()), 4);
      require(dx.norm() <= (1e-8 + 3 * tol) * sc * dt * grow + 1e-12 * (1 + x.norm()), "step", "the step moves the state by " + num(dx.norm()) + " at tol " + num(tol));
    }
    VectorXd v = q->quasiStatic_x(q->createData(), x, 100, tol);
    nearm("returned", v, u, 1e-9, "quasiStatic_x and quasiStatic");
    if (t.r(VectorXd::Zero(d.nu)).norm() > 1e-3 && dt > 0) c.nontrivial = true;
  }
}

static void problem(Src& s, Case& c) {
  NodeSpec sp;
  sp.zero_nu = true;
  ProblemCase p = gen_problem(s, c, sp, 4);
  int T = (int)p.p->get_T();
  Traj xs(T);
  auto& ms = p.p->get_runningModels();
  for (int i = 0; i < T; ++i) {
    xs[i] = gen_x(s, *ms[i]->get_state(), 1.);
    xs[i].tail(ms[i]->get_state()->get_nv()).setZero();
  }
  Traj before = xs;
  Traj us0(T), us;
  for (int i = 0; i < T; ++i) us0[i] = s.flip() ? VectorXd(VectorXd::Zero(ms[i]->get_nu())) : s.vec((int)ms[i]->get_nu(), 1.);
  us = us0;
  p.p->quasiStatic(us, xs);
  Traj ret = p.p->quasiStatic_xs(xs);
  require((int)ret.size() == T && (int)us.size() == T, "sizes", "controls of the problem");
  for (int i = 0; i < T; ++i) {
    require(same(xs[i], before[i]), "input", "state " + std::to_string(i) + " was changed");
    VectorXd u = us0[i], v = VectorXd::Zero(ms[i]->get_nu());
    ms[i]->quasiStatic(ms[i]->createData(), u, xs[i]);
    ms[i]->quasiStatic(ms[i]->createData(), v, xs[i]);
    require(same(u, us[i]), "node", "control of node " + std::to_string(i) + " is " + str(us[i]) + " and not that of its model, " + str(u));
    require(same(v, ret[i]), "node-returned", "control of node " + std::to_string(i) + " is " + str(ret[i]) + " and not that of its model, " + str(v));
  }
  // trajectories of other lengths are rejected and nothing is computed
  Traj bad = xs, bus = us0;
  bool drop = s.flip(), other = s.flip();
  Traj& e = other ? bus : bad;
  if (drop && !e.empty())
    e.pop_back();
  else
    e.push_back(e.empty() ? VectorXd(VectorXd::Zero(1)) : e.back());
  Traj keep = bus;
  require(throws([&] { p.p->quasiStatic(bus, bad); }), "lengths", "trajectories of the wrong length are accepted");
  for (std::size_t i = 0; i < bus.size(); ++i) require(same(bus[i], keep[i]), "lengths", "a rejected call changed the controls");
  c.nontrivial = T > 0;
}

int main(int argc, char** argv) {
  Check k("C28", "the initial control leaves an imbalance to remove (problems: at least one node)");
  k.family("differential", 12000, 300000, differential);
  k.family("discrete", 10000, 250000, discrete);
  k.family("integrated", 12000, 250000, integrated);
  k.family("problem", 3000, 60000, problem);
  k.assume("Points where a Gauss-Newton search of the check's own does not converge within 60 iterations are not decided.");
  return k.main(argc, argv);
}
