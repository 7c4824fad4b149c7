// C19: activation values, gradients and Hessians match their formulas.
#include "common/activ.hpp"
using namespace vf;
using namespace crocoddyl;
static VectorXd residual(Src& s, const ActRef& ref, Case& c) {
  double mag = std::vector<double>{1., 3., 0.1, 10.}[s.integer(0, 3)];
  VectorXd r = s.vec(ref.nr, mag);
  if (ref.kind == BARRIER || ref.kind == WBARRIER) {
    for (int i = 0; i < ref.nr; ++i) {
      int k = s.integer(0, 7);
      if (k == 6 && std::isfinite(ref.lb[i])) { r[i] = ref.lb[i]; c.label("on-bound"); }
      if (k == 7 && std::isfinite(ref.ub[i])) { r[i] = ref.ub[i]; c.label("on-bound"); }
    }
  }
  // The norm barrier has no derivative in the origin.
  if (ref.kind == NORMB && ref.nr > 0 && r.norm() < 1e-6) r[0] = 0.5 * ref.par;
  return r;
}

static void history(Src& s, Case& c) {
  ActRef ref;
  ref.kind = (ActKind)s.integer(0, NACTS - 1);
  ref.nr = s.integer(1, 6);
  if (s.chance(1, 40)) ref.nr = 0;
  auto m = build_act(s, ref);
  c.label(act_names[ref.kind]);
  c.desc << act_names[ref.kind] << " nr=" << ref.nr << " par=" << ref.par;
  require(m->get_nr() == (size_t)ref.nr, "nr");
  std::vector<std::shared_ptr<ActData>> datas;
  int steps = s.integer(1, 10);
  for (int k = 0; k < steps; ++k) {
    int op = s.integer(0, 5);
    if (datas.empty() || op == 4) {
      datas.push_back(m->createData());
      c.desc << "; data";
    }
    if (op == 5 && mutate_act(s, ref, *m)) {
      c.desc << "; set";
      c.label("setter");
    }
    auto& d = datas[s.integer(0, datas.size() - 1)];
    VectorXd r = residual(s, ref, c);
    c.desc << "; r=" << str(r.transpose());
    m->calc(d, r);
    near("value", d->a_value, ref.value(r), 1e-10, act_names[ref.kind]);
    if (s.chance(4, 5)) {
      m->calcDiff(d, r);
      near("value-kept", d->a_value, ref.value(r), 1e-10, act_names[ref.kind]);
      bool inside = true;
      for (int i = 0; i < ref.nr; ++i) {
        near("gradient", d->Ar[i], ref.grad(r, i), 1e-9, act_names[ref.kind]);
        double h = d->Arr.diagonal()[i], want = ref.curv(r, i);
        if (ref.kind == BARRIER || ref.kind == WBARRIER) {
          double eps = 1e-13 * (1 + std::fabs(r[i]));
          if (std::fabs(r[i] - ref.lb[i]) < eps || std::fabs(r[i] - ref.ub[i]) < eps) {
            // either one-sided second derivative is right on a bound
            double one = ref.kind == WBARRIER ? ref.w[i] * ref.w[i] : 1.;
            if (!close(h, 0., 1e-12) && !close(h, one, 1e-9)) fail("hessian-on-bound", num(h));
            continue;
          }
          if (r[i] < ref.lb[i] || r[i] > ref.ub[i]) inside = false;
          if (r[i] > ref.lb[i] && r[i] < ref.ub[i])
            require(d->Ar[i] == 0. && h == 0., "inside-not-zero");
        }
        near("hessian", h, want, 1e-9, act_names[ref.kind]);
      }
      auto H = ActData::getHessianMatrix(*d);
      nearm("hessian-matrix", H, Eigen::MatrixXd(d->Arr.diagonal().asDiagonal()), 0);
      if (ref.nr > 0 && (ref.kind != NORMB || r.norm() < ref.par)) c.nontrivial = true;
      c.label(inside ? "inside-or-n/a" : "outside");
    }
    require(throws([&] { m->calc(d, VectorXd::Zero(ref.nr + 1)); }), "calc-size");
    require(throws([&] { m->calcDiff(d, VectorXd::Zero(ref.nr + 1)); }), "calcDiff-size");
  }
}

static void bounds(Src& s, Case& c) {
  int n = s.integer(1, 5);
  VectorXd lb, ub, l, u;
  double beta;
  gen_bounds(s, n, lb, ub, beta);
  c.desc << "lb=" << str(lb.transpose()) << " ub=" << str(ub.transpose()) << " beta=" << beta;
  c.nontrivial = true;
  shrunk(lb, ub, beta, l, u);
  Bounds b(lb, ub, beta);
  near("beta", b.beta, beta, 0);
  for (int i = 0; i < n; ++i) {
    if (std::isfinite(l[i])) near("shrunk-lower", b.lb[i], l[i], 1e-12);
    else require(b.lb[i] <= -std::numeric_limits<double>::max(), "infinite-lower");
    if (std::isfinite(u[i])) near("shrunk-upper", b.ub[i], u[i], 1e-12);
    else require(b.ub[i] >= std::numeric_limits<double>::max(), "infinite-upper");
  }
  Bounds copy(b), assigned;
  assigned = b;
  nearm("copy", copy.lb, b.lb, 0);
  nearm("copy", copy.ub, b.ub, 0);
  nearm("assign", assigned.lb, b.lb, 0);
  nearm("assign", assigned.ub, b.ub, 0);
  near("copy", copy.beta, beta, 0);
  near("assign", assigned.beta, beta, 0);
  require(throws([&] { Bounds(lb, VectorXd::Ones(n + 1), beta); }), "size-rejected");
  require(throws([&] { Bounds(lb, ub, 1. + s.uni(1e-6, 1.)); }), "beta-rejected");
  require(throws([&] { Bounds(lb, ub, -s.uni(1e-6, 1.)); }), "beta-rejected");
  VectorXd a = VectorXd::Zero(n), z = VectorXd::Zero(n);
  a[s.integer(0, n - 1)] = s.uni(1e-3, 2.);
  require(throws([&] { Bounds(a, z, beta); }), "crossed-rejected");
}

static void invalid(Src& s, Case& c) {
  using namespace crocoddyl;
  int n = s.integer(1, 5);
  double bad = -s.logu(1e-6, 10.);
  c.desc << "nr=" << n << " parameter " << bad;
  c.nontrivial = true;
  require(throws([&] { ActivationModelQuadFlatExpTpl<double>(n, bad); }), "flat-exp-negative");
  require(throws([&] { ActivationModelQuadFlatLogTpl<double>(n, bad); }), "flat-log-negative");
  require(throws([&] { ActivationModelSmooth1NormTpl<double>(n, bad); }), "smooth-1norm-negative");
  require(throws([&] { ActivationModelSmooth2NormTpl<double>(n, bad); }), "smooth-2norm-negative");
  require(throws([&] { ActivationModel2NormBarrierTpl<double>(n, bad); }), "2norm-barrier-negative");
  // documented defaults
  VectorXd r = s.vec(n, 2.);
  r[0] += 2.5;
  auto value = [&](Act& m) { auto d = m.createData(); m.calc(d, r); return d->a_value; };
  ActRef ref; ref.nr = n; ref.par = 1.;
  ActivationModelQuadFlatExpTpl<double> fe(n); ref.kind = FLATEXP; near("default", value(fe), ref.value(r), 1e-12);
  ActivationModelQuadFlatLogTpl<double> fl(n); ref.kind = FLATLOG; near("default", value(fl), ref.value(r), 1e-12);
  ActivationModelSmooth1NormTpl<double> s1(n); ref.kind = S1; near("default", value(s1), ref.value(r), 1e-12);
  ActivationModelSmooth2NormTpl<double> s2(n); ref.kind = S2; near("default", value(s2), ref.value(r), 1e-12);
  r *= 0.09 / r.norm();
  ActivationModel2NormBarrierTpl<double> nb(n); ref.kind = NORMB; ref.par = 0.1; near("default", value(nb), ref.value(r), 1e-12);
}

int main(int argc, char** argv) {
  Check k("C19",
          "A case picks an activation, its parameters, and a history of evaluations, new data objects "
          "and setter calls on residuals inside, outside and on the bounds; every value, gradient and "
          "Hessian entry is compared with a closed form kept apart from the model. Non-trivial: at "
          "least one derivative of a non-empty residual in the active region was compared.");
  k.family("history", 60000, 1500000, history);
  k.family("bounds", 20000, 200000, bounds);
  k.family("invalid", 5000, 50000, invalid);
  k.assume("floating-point agreement to 1e-9 relative");
  k.assume("on a barrier bound itself either one-sided second derivative is accepted; the 2-norm barrier is not differentiated at the origin");
  return k.main(argc, argv);
}
