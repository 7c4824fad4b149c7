// C18: state integrate and difference obey the manifold laws with exact Jacobians.
#include "common/models.hpp"
using namespace vf;
using namespace crocoddyl;

static std::shared_ptr<State> pick_state(Src& s, Case& c) {
  std::shared_ptr<State> st;
  if (s.chance(1, 4)) {
    auto l = std::make_shared<LieState>(s.integer(0, 2), s.integer(1, 2));
    l->blocks = s.flip();
    st = l;
    c.label("lie");
  } else {
    st = std::make_shared<StateVectorTpl<double>>(s.integer(1, 9));
    c.label("vector");
  }
  c.desc << (dynamic_cast<LieState*>(st.get()) ? "lie" : "vector") << " nx=" << st->get_nx();
  return st;
}
// Memory of matrices that are allocated next is not zero.
static void dirty_heap(int n) {
  std::vector<MatrixXd> v;
  for (int i = 0; i < 6; ++i) v.push_back(MatrixXd::Constant(n, n, 7.));
}
static MatrixXd numdiff(std::function<VectorXd(const VectorXd&)> f, int n) {
  const double h = 1e-5;
  MatrixXd J;
  for (int i = 0; i < n; ++i) {
    VectorXd e = VectorXd::Zero(n);
    e[i] = h;
    VectorXd d = (f(e) - f(-e)) / (2 * h);
    if (i == 0) J.resize(d.size(), n);
    J.col(i) = d;
  }
  return J;
}

static void laws(Src& s, Case& c) {
  auto st = pick_state(s, c);
  int nx = st->get_nx(), n = st->get_ndx();
  bool vec = !dynamic_cast<LieState*>(st.get());
  if (vec) {
    require(n == nx && (int)st->get_nv() == n / 2 && (int)st->get_nq() == nx - n / 2, "sizes");
    require(st->zero() == VectorXd::Zero(nx), "zero");
    VectorXd r = st->rand();
    require(r.size() == nx && r.allFinite(), "rand");
  }
  double mag = std::vector<double>{1., 100., 1e-3}[s.integer(0, 2)];
  if (!vec) mag = 1.;
  VectorXd x0 = gen_x(s, *st, mag), x1 = gen_x(s, *st, mag), dx = s.vec(n, vec ? mag : 0.7);
  c.desc << " x0=" << str(x0.transpose()) << " x1=" << str(x1.transpose()) << " dx=" << str(dx.transpose());
  c.nontrivial = !dx.isZero() && !x0.isApprox(x1);
  VectorXd d(n), y(nx), z(nx), d2(n);
  d.setConstant(7.);
  y.setConstant(7.);
  st->diff(x0, x1, d);
  nearm("diff-value", d, ref_diff(*st, x0, x1), 1e-12);
  st->integrate(x0, dx, y);
  nearm("integrate-value", y, ref_integrate(*st, x0, dx), 1e-12);
  st->integrate(x0, d, z);
  nearm("integrate-inverts-diff", ref_diff(*st, x1, z), VectorXd::Zero(n), 1e-9 * (1 + mag));
  st->diff(x0, y, d2);
  nearm("diff-inverts-integrate", d2, dx, 1e-9 * (1 + mag));
  st->integrate(x0, VectorXd::Zero(n), z);
  nearm("zero-step", ref_diff(*st, x0, z), VectorXd::Zero(n), 1e-12);
  st->diff(x0, x0, d2);
  nearm("self-difference", d2, VectorXd::Zero(n), 1e-9);
  st->diff(st->zero(), st->integrate_x(st->zero(), dx), d2);
  nearm("zero-state-neutral", d2, dx, 1e-9 * (1 + mag));
  // aliasing of input and output
  z = x0;
  st->integrate(z, dx, z);
  nearm("integrate-in-place", z, y, 1e-12);
  // allocating variants
  nearm("diff_dx", st->diff_dx(x0, x1), d, 0);
  nearm("integrate_x", st->integrate_x(x0, dx), y, 0);

  // Jacobians: references are central differences of reference operations
  // around the point (exact up to rounding for vectors).
  double tol = vec ? 1e-12 : 1e-7;
  MatrixXd D0, D1, I0, I1;
  if (vec) {
    D1 = I0 = I1 = MatrixXd::Identity(n, n);
    D0 = -D1;
  } else {
    D0 = numdiff([&](const VectorXd& e) { return ref_diff(*st, ref_integrate(*st, x0, e), x1); }, n);
    D1 = numdiff([&](const VectorXd& e) { return ref_diff(*st, x0, ref_integrate(*st, x1, e)); }, n);
    I0 = numdiff([&](const VectorXd& e) { return ref_diff(*st, y, ref_integrate(*st, ref_integrate(*st, x0, e), dx)); }, n);
    I1 = numdiff([&](const VectorXd& e) { return ref_diff(*st, y, ref_integrate(*st, x0, dx + e)); }, n);
  }
  for (Jcomponent k : {both, first, second}) {
    MatrixXd P0 = s.mat(n, n), P1 = s.mat(n, n), J0, J1;
    if (auto* l = dynamic_cast<LieState*>(st.get()))
      if (l->blocks) P0.setZero(), P1.setZero();
    J0 = P0, J1 = P1;
    st->Jdiff(x0, x1, J0, J1, k);
    nearm("Jdiff-first", J0, k == second ? P0 : D0, tol);
    nearm("Jdiff-second", J1, k == first ? P1 : D1, tol);
    dirty_heap(n);
    auto Js = st->Jdiff_Js(x0, x1, k);
    require(Js.size() == (k == both ? 2u : 1u), "Jdiff_Js-count");
    nearm("Jdiff_Js", Js[0], k == second ? D1 : D0, tol);
    if (k == both) nearm("Jdiff_Js", Js[1], D1, tol);
    for (AssignmentOp op : {setto, addto, rmfrom}) {
      J0 = P0;
      J1 = P1;
      st->Jintegrate(x0, dx, J0, J1, k, op);
      double sg = op == rmfrom ? -1. : 1., base = op == setto ? 0. : 1.;
      nearm(op == setto ? "Jintegrate-first-set" : "Jintegrate-first-accumulate", J0, k == second ? P0 : MatrixXd(base * P0 + sg * I0), tol);
      nearm(op == setto ? "Jintegrate-second-set" : "Jintegrate-second-accumulate", J1, k == first ? P1 : MatrixXd(base * P1 + sg * I1), tol);
    }
    J0 = P0;
    J1 = P1;
    st->Jintegrate(x0, dx, J0, J1, k);
    nearm("Jintegrate-default-sets", J0, k == second ? P0 : I0, tol);
    dirty_heap(n);
    auto Is = st->Jintegrate_Js(x0, dx, k);
    require(Is.size() == (k == both ? 2u : 1u), "Jintegrate_Js-count");
    nearm("Jintegrate_Js", Is[0], k == second ? I1 : I0, tol);
    if (k == both) nearm("Jintegrate_Js", Is[1], I1, tol);
    if (k != both) {
      MatrixXd M = s.mat(n, s.integer(1, 5)), T = M;
      st->JintegrateTransport(x0, dx, T, k);
      nearm("JintegrateTransport", T, (k == first ? I0 : I1) * M, tol);
    }
  }
  if (vec) {
    MatrixXd J0(n, n);
    require(throws([&] { st->JintegrateTransport(x0, dx, J0, both); }), "transport-both-rejected");
  }
}

static void bounds(Src& s, Case& c) {
  auto st = pick_state(s, c);
  int nx = st->get_nx();
  c.nontrivial = true;
  VectorXd lb = VectorXd::Constant(nx, -INF), ub = VectorXd::Constant(nx, INF);
  require(!st->get_has_limits() && st->get_lb() == lb && st->get_ub() == ub, "default-bounds");
  int k = s.integer(1, 6);
  for (int i = 0; i < k; ++i) {
    VectorXd b(nx);
    for (int j = 0; j < nx; ++j) b[j] = s.flip() ? s.real(5.) : INF;
    bool low = s.flip();
    bool wrong = s.chance(1, 4);
    if (low) for (int j = 0; j < nx; ++j) if (b[j] == INF) b[j] = -INF;
    if (wrong) {
      VectorXd w = VectorXd::Zero(nx + (s.flip() ? 1 : -1));
      require(throws([&] { low ? st->set_lb(w) : st->set_ub(w); }), "bound-size-rejected");
    } else {
      low ? st->set_lb(b) : st->set_ub(b);
      (low ? lb : ub) = b;
    }
    c.desc << (low ? " lb" : " ub") << (wrong ? "(bad)" : str(b.transpose()));
    require(st->get_lb() == lb && st->get_ub() == ub, "bounds-kept");
    bool any = false;
    for (int j = 0; j < nx; ++j) any |= std::isfinite(lb[j]) || std::isfinite(ub[j]);
    require(st->get_has_limits() == any, "has-limits");
  }
}

static void sizes(Src& s, Case& c) {
  std::shared_ptr<State> st = std::make_shared<StateVectorTpl<double>>(s.integer(1, 6));
  int n = st->get_nx();
  int bad = n + (s.flip() ? 1 : -1);
  c.desc << "nx=" << n << " wrong size " << bad;
  c.nontrivial = true;
  VectorXd x = s.vec(n), y = s.vec(n), w = VectorXd::Zero(bad);
  VectorXd out = VectorXd::Constant(n, 3.), wout = VectorXd::Constant(bad, 3.);
  auto kept = [&] { return (out.array() == 3.).all() && (wout.array() == 3.).all(); };
  require(throws([&] { st->diff(w, y, out); }) && kept(), "diff-x0");
  require(throws([&] { st->diff(x, w, out); }) && kept(), "diff-x1");
  require(throws([&] { st->diff(x, y, wout); }) && kept(), "diff-out");
  require(throws([&] { st->integrate(w, y, out); }) && kept(), "integrate-x");
  require(throws([&] { st->integrate(x, w, out); }) && kept(), "integrate-dx");
  require(throws([&] { st->integrate(x, y, wout); }) && kept(), "integrate-out");
  MatrixXd J = MatrixXd::Constant(n, n, 3.), W1 = MatrixXd::Constant(bad, n, 3.), W2 = MatrixXd::Constant(n, bad, 3.);
  auto keptJ = [&] { return (J.array() == 3.).all() && (W1.array() == 3.).all() && (W2.array() == 3.).all(); };
  for (MatrixXd* W : {&W1, &W2}) {
    require(throws([&] { st->Jdiff(x, y, *W, J, first); }) && keptJ(), "Jdiff-first");
    require(throws([&] { st->Jdiff(x, y, J, *W, second); }) && keptJ(), "Jdiff-second");
    require(throws([&] { st->Jdiff(x, y, *W, J, both); }) && keptJ(), "Jdiff-both");
    for (AssignmentOp op : {setto, addto, rmfrom}) {
      require(throws([&] { st->Jintegrate(x, y, *W, J, first, op); }) && keptJ(), "Jintegrate-first");
      require(throws([&] { st->Jintegrate(x, y, J, *W, second, op); }) && keptJ(), "Jintegrate-second");
      require(throws([&] { st->Jintegrate(x, y, *W, J, both, op); }) && keptJ(), "Jintegrate-both");
    }
  }
}

int main(int argc, char** argv) {
  Check k("C18",
          "A case picks a vector state or a Lie-group state driving the shared helpers, states, a tangent "
          "step, prior contents of the outputs and every component/assignment mode; values, inverses and "
          "Jacobians are compared with a reference. Non-trivial: distinct states and a non-zero step, or a "
          "bound or size history.");
  k.family("laws", 30000, 600000, laws);
  k.family("bounds", 10000, 100000, bounds);
  k.family("sizes", 10000, 100000, sizes);
  k.assume("floating-point agreement to 1e-12 (vector) or 1e-7 (central differences on SO(3))");
  return k.main(argc, argv);
}
