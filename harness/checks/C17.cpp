// C17: control parametrizations interpolate, invert and differentiate consistently.
#include "common/integ.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
using namespace vf;
using namespace crocoddyl;
static CtrlKind pick(Src& s, Case& c) {
  int nw = s.integer(1, 5);
  CtrlKind k = make_ctrl(s.integer(0, 3), nw);
  c.label(k.name);
  c.desc << k.name << " nw=" << nw;
  return k;
}
static double gen_t(Src& s, const CtrlKind& k) {
  switch (s.integer(0, 3)) {
    case 0: return k.nodes[s.draw(k.nodes.size())];
    case 1: return 1.;
    default: return s.uni(0, 1);
  }
}
static void interp(Src& s, Case& c) {
  CtrlKind k = pick(s, c);
  int nu = k.nw * k.nodes.size();
  require((int)k.m->get_nw() == k.nw && (int)k.m->get_nu() == nu, "sizes");
  const double tol = 1e-12;
  std::vector<std::shared_ptr<CtrlData>> data;
  for (int i = 0; i < 2; ++i) {
    data.push_back(k.m->createData());
    require(data[i]->w.size() == k.nw && data[i]->u.size() == nu && data[i]->dw_du.rows() == k.nw &&
                data[i]->dw_du.cols() == nu, "data-sizes");
  }
  double mag = std::vector<double>{1., 1e3, 1e-3}[s.integer(0, 2)];
  int n = s.integer(1, 4);
  std::vector<double> last(2, -1.);
  for (int step = 0; step < n; ++step) {
    int di = s.integer(0, 1);
    auto d = data[di];
    double t = gen_t(s, k);
    VectorXd u = s.vec(nu, mag);
    c.desc << "; d" << di << " t=" << num(t) << " u=" << str(u.transpose());
    if (t > 0 && !u.isZero()) c.nontrivial = true;
    MatrixXd J = ctrl_jac(k, t);
    k.m->calc(d, t, u);
    nearm("value", d->w, J * u, tol, "w");
    for (int i = 0; i < (int)k.nodes.size(); ++i) {
      auto e = k.m->createData();
      k.m->calc(e, k.nodes[i], u);
      nearm("value-at-node", e->w, u.segment(i * k.nw, k.nw), tol);
    }
    k.m->calcDiff(d, t, u);
    nearm("jacobian", d->dw_du, J, tol, "dw_du");
    nearm("value-kept", d->w, J * u, tol, "w");
    // products
    for (int rep = 0; rep < 2; ++rep) {
      int r = s.integer(1, 4);
      AssignmentOp op = std::vector<AssignmentOp>{setto, addto, rmfrom}[s.integer(0, 2)];
      double sg = op == rmfrom ? -1. : 1.;
      MatrixXd A = s.mat(r, k.nw), out0 = s.mat(r, nu), out = out0;
      k.m->multiplyByJacobian(d, A, out, op);
      nearm("A*J", out, (op == setto ? MatrixXd::Zero(r, nu) : out0) + sg * A * J, tol);
      nearm("A*J allocating", k.m->multiplyByJacobian_J(d, A), A * J, tol);
      MatrixXd B = s.mat(k.nw, r), o0 = s.mat(nu, r), o = o0;
      k.m->multiplyJacobianTransposeBy(d, B, o, op);
      nearm("JT*B", o, (op == setto ? MatrixXd::Zero(nu, r) : o0) + sg * J.transpose() * B, tol);
      nearm("JT*B allocating", k.m->multiplyJacobianTransposeBy_J(d, B), J.transpose() * B, tol);
      // allocating variants add to nothing
      MatrixXd z = k.m->multiplyByJacobian_J(d, A, op);
      nearm("A*J allocating op", z, sg * A * J, tol);
      MatrixXd z2 = k.m->multiplyJacobianTransposeBy_J(d, B, op);
      nearm("JT*B allocating op", z2, sg * J.transpose() * B, tol);
    }
    // blocks of larger matrices as outputs
    MatrixXd big = s.mat(4, nu + 2), big0 = big, A = s.mat(2, k.nw);
    k.m->multiplyByJacobian(d, A, big.block(1, 1, 2, nu), setto);
    big0.block(1, 1, 2, nu) = A * J;
    nearm("A*J into block", big, big0, tol);
    // parameters from a value
    VectorXd w = s.vec(k.nw, mag);
    double t2 = gen_t(s, k);
    k.m->params(d, t2, w);
    VectorXd p = d->u;
    auto e = k.m->createData();
    k.m->calc(e, t2, p);
    nearm("params-inverts", e->w, w, tol, "calc(t, params(t,w))");
  }
}
static void bounds(Src& s, Case& c) {
  CtrlKind k = pick(s, c);
  int nu = k.nw * k.nodes.size();
  VectorXd lo = s.vec(k.nw, 3.), hi(k.nw);
  for (int i = 0; i < k.nw; ++i) {
    hi[i] = lo[i] + (s.chance(1, 5) ? 0. : s.uni(0, 3.));
    if (s.chance(1, 5)) hi[i] = INF;
    if (s.chance(1, 5)) lo[i] = -INF;
  }
  c.desc << " lb=" << str(lo.transpose()) << " ub=" << str(hi.transpose());
  VectorXd ul = s.vec(nu), uu = s.vec(nu);
  k.m->convertBounds(lo, hi, ul, uu);
  // admissible parameters: at the bounds where finite
  auto d = k.m->createData();
  c.nontrivial = lo.allFinite() || hi.allFinite();
  for (int rep = 0; rep < 4; ++rep) {
    VectorXd u(nu);
    for (int i = 0; i < nu; ++i) {
      require(ul[i] <= uu[i] && !std::isnan(ul[i]) && !std::isnan(uu[i]), "bounds-crossed");
      double a = std::max(ul[i], -50.), b = std::min(uu[i], 50.);
      u[i] = s.flip() ? (s.flip() ? a : b) : s.uni(std::min(a, b), b);
    }
    for (double t : k.nodes) {
      k.m->calc(d, t, u);
      for (int i = 0; i < k.nw; ++i)
        require(d->w[i] >= lo[i] - 1e-9 && d->w[i] <= hi[i] + 1e-9, "inadmissible",
                "w=" + num(d->w[i]) + " not in [" + num(lo[i]) + "," + num(hi[i]) + "] at t=" + num(t));
    }
  }
  // no more restrictive than needed: the admissible constant controls stay admissible,
  // and every node can reach both limits.
  for (size_t j = 0; j < k.nodes.size(); ++j)
    for (int i = 0; i < k.nw; ++i) {
      require(ul[j * k.nw + i] == lo[i], "lower-bound", "parameter bound differs from the control bound");
      require(uu[j * k.nw + i] == hi[i], "upper-bound", "parameter bound differs from the control bound");
    }
}
// A control parametrization inside an integrator gives the integrator's nodes
// exactly the parameters.
static void reject(Src& s, Case& c) {
  CtrlKind k = pick(s, c);
  int nu = k.nw * k.nodes.size(), nw = k.nw;
  auto d = k.m->createData();
  double t = gen_t(s, k);
  VectorXd u = s.vec(nu), w = s.vec(nw);
  k.m->calc(d, t, u);
  k.m->calcDiff(d, t, u);
  VectorXd w0 = d->w, u0 = d->u;
  MatrixXd J0 = d->dw_du;
  auto off = [&](int n) {
    int m = s.flip() ? n + s.integer(1, 2) : n - 1;
    if (m == n) m = n + 1;
    return m < 0 ? n + 1 : m;
  };
  int what = s.integer(0, 10);
  c.desc << " case=" << what;
  c.label("reject" + std::to_string(what));
  c.nontrivial = true;
  bool threw = false;
  VectorXd lo = VectorXd::Zero(nw), hi = VectorXd::Ones(nw), ul = VectorXd::Constant(nu, 7), uu = ul;
  MatrixXd A = s.mat(3, nw), out = MatrixXd::Constant(3, nu, 7.), B = s.mat(nw, 3), bo = MatrixXd::Constant(nu, 3, 7.);
  switch (what) {
    case 0: threw = throws([&] { k.m->calc(d, t, s.vec(off(nu))); }); break;
    case 1: threw = throws([&] { k.m->params(d, t, s.vec(off(nw))); }); break;
    case 2: threw = throws([&] { k.m->convertBounds(VectorXd::Zero(off(nw)), hi, ul, uu); }); break;
    case 3: threw = throws([&] { k.m->convertBounds(lo, VectorXd::Ones(off(nw)), ul, uu); }); break;
    case 4: { VectorXd z(off(nu)); threw = throws([&] { k.m->convertBounds(lo, hi, z, uu); }); break; }
    case 5: { VectorXd z(off(nu)); threw = throws([&] { k.m->convertBounds(lo, hi, ul, z); }); break; }
    case 6: { MatrixXd z = s.mat(3, off(nw)); threw = throws([&] { k.m->multiplyByJacobian(d, z, out, setto); }); break; }
    case 7: { MatrixXd z = MatrixXd::Zero(3, off(nu)); threw = throws([&] { k.m->multiplyByJacobian(d, A, z, setto); }); break; }
    case 8: { MatrixXd z = s.mat(off(nw), 3); threw = throws([&] { k.m->multiplyJacobianTransposeBy(d, z, bo, setto); }); break; }
    case 9: { MatrixXd z = MatrixXd::Zero(off(nu), 3); threw = throws([&] { k.m->multiplyJacobianTransposeBy(d, B, z, setto); }); break; }
    case 10: {
      MatrixXd z = MatrixXd::Zero(off(3), nu), z2 = MatrixXd::Zero(nu, off(3));
      threw = throws([&] { k.m->multiplyByJacobian(d, A, z, setto); }) &&
              throws([&] { k.m->multiplyJacobianTransposeBy(d, B, z2, setto); });
      break;
    }
  }
  require(threw, "wrong-size-accepted");
  require(d->w == w0 && d->u == u0 && d->dw_du == J0, "rejected-call-changed-data");
  require(out == MatrixXd::Constant(3, nu, 7.) && bo == MatrixXd::Constant(nu, 3, 7.) &&
              ul == VectorXd::Constant(nu, 7) && uu == ul, "rejected-call-wrote-output");
}

int main(int argc, char** argv) {
  Check k("C17",
          "non-trivial: the parameter vector is non-zero and some evaluation time is past zero "
          "(interp); bounds finite on one side (bounds); every rejected call (reject)");
  k.family("interpolation", 20000, 300000, interp);
  k.family("bounds", 10000, 100000, bounds);
  k.family("rejection", 5000, 50000, reject);
  return k.main(argc, argv);
}
