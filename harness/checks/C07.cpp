// USES_SOLVERS
// The box QP solver returns the KKT point of the bound-constrained program.
#include "common/models.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
using namespace vf;
using crocoddyl::BoxQP;

namespace {
struct QP {
  MatrixXd H;
  VectorXd q, lb, ub, x0;
  double lmin, lmax;
};
QP gen_qp(Src& s, int n) {
  QP k;
  // eigenvalues by choice, strongly coupled through random rotations
  double spread = s.pick<double>({1., 10., 1e3});
  MatrixXd Z = s.mat(n, n);
  Eigen::HouseholderQR<MatrixXd> qr(Z + MatrixXd::Identity(n, n) * 1e-3);
  MatrixXd Q = qr.householderQ();
  VectorXd l(n);
  for (int i = 0; i < n; ++i) l[i] = s.logu(1., spread);
  double sc = s.chance(1, 4) ? s.logu(0.01, 100.) : 1.;
  k.H = Q * l.asDiagonal() * Q.transpose() * sc;
  k.H = 0.5 * (k.H + k.H.transpose()).eval();
  k.lmin = sc * l.minCoeff();
  k.lmax = sc * l.maxCoeff();
  k.q = s.vec(n, sc * s.pick<double>({1., 10.}));
  k.lb = VectorXd::Constant(n, -INF);
  k.ub = VectorXd::Constant(n, INF);
  k.x0 = VectorXd::Zero(n);
  for (int i = 0; i < n; ++i) {
    switch (s.integer(0, 5)) {
      case 0:
        break;
      case 1:
        k.lb[i] = s.real();
        break;
      case 2:
        k.ub[i] = s.real();
        break;
      case 3:
        k.lb[i] = k.ub[i] = s.real();
        break;
      default:
        k.lb[i] = s.real();
        k.ub[i] = k.lb[i] + s.uni(0.01, 1.);
    }
    switch (s.integer(0, 3)) {
      case 0:
        break;
      case 1:
        k.x0[i] = std::isfinite(k.lb[i]) ? k.lb[i] : std::isfinite(k.ub[i]) ? k.ub[i] : 1.;
        break;
      case 2:
        k.x0[i] = std::isfinite(k.ub[i]) ? k.ub[i] : 0.;
        break;
      default:
        k.x0[i] = s.real(s.flip() ? 1. : 20.);
    }
  }
  return k;
}
struct Par {
  int maxiter = 100;
  double acc = 0.1, grad = 1e-9, reg = 0.;
  std::vector<double> alphas;
};
BoxQP make(int n, const Par& p) {
  BoxQP b(n, p.maxiter, p.acc, p.grad, p.reg);
  if (p.alphas.size()) b.set_alphas(p.alphas);
  return b;
}
void kkt(const QP& k, const Par& p, const crocoddyl::BoxQPSolution& s, Case& c, const VectorXd& x0) {
  int n = k.q.size();
  require(s.x.size() == n && s.x.allFinite(), "x", str(s.x));
  MatrixXd H = k.H;
  H.diagonal().array() += p.reg;
  double lmin = k.lmin + p.reg, lmax = k.lmax + p.reg;
  double tol = p.grad * (2. + 2. * n * lmax / lmin) + 1e-11 * (1. + lmax * (s.x.norm() + x0.norm()) + k.q.norm());
  VectorXd g = H * s.x + k.q;
  int nc = 0;
  std::vector<int> where(n, -1);
  for (size_t i : s.free_idx) {
    require((int)i < n && where[i] < 0, "index-lists");
    where[i] = 0;
  }
  for (size_t i : s.clamped_idx) {
    require((int)i < n && where[i] < 0, "index-lists");
    where[i] = 1;
  }
  for (int i = 0; i < n; ++i) {
    std::string at = "component " + std::to_string(i) + " x " + num(s.x[i]) + " in [" + num(k.lb[i]) + ", " +
                     num(k.ub[i]) + "] gradient " + num(g[i]) + " tolerance " + num(tol);
    require(where[i] >= 0, "index-lists", at);
    require(s.x[i] >= k.lb[i] && s.x[i] <= k.ub[i], "bounds", at);
    bool lo = s.x[i] == k.lb[i], up = s.x[i] == k.ub[i];
    bool ok = std::fabs(g[i]) <= tol || (lo && g[i] > 0) || (up && g[i] < 0);
    require(ok, "optimality", at);
    bool outward = (lo && g[i] > tol) || (up && g[i] < -tol);
    if (outward) require(where[i] == 1, "clamped-missing", at);
    if (where[i] == 1) {
      require((lo && g[i] >= -tol) || (up && g[i] <= tol), "clamped-wrong", at);
      ++nc;
    }
  }
  for (size_t i = 1; i < s.free_idx.size(); ++i) require(s.free_idx[i - 1] < s.free_idx[i], "index-order");
  int nf = s.free_idx.size();
  MatrixXd Hff(nf, nf);
  for (int i = 0; i < nf; ++i)
    for (int j = 0; j < nf; ++j) Hff(i, j) = H(s.free_idx[i], s.free_idx[j]);
  require(s.Hff_inv.rows() == nf && s.Hff_inv.cols() == nf, "inverse-size");
  nearm("inverse", MatrixXd(Hff * s.Hff_inv), MatrixXd(MatrixXd::Identity(nf, nf)), 1e-13 * n * lmax / lmin + 1e-12);
  c.label(nc == 0 ? "all-free" : nc == n ? "all-clamped" : "mixed");
  if (nc) c.nontrivial = true;
}
}  // namespace

static void solves(Src& s, Case& c) {
  int n = s.integer(1, 6);
  Par p;
  if (s.flip()) p.reg = s.pick<double>({0., 1e-9, 1e-3, 1., 50.});
  if (s.chance(1, 3)) p.acc = s.pick<double>({0.01, 0.1, 0.3, 0.49});
  if (s.chance(1, 3)) p.grad = s.pick<double>({1e-5, 1e-9, 1e-11});
  BoxQP b = make(n, p);
  int times = s.integer(1, 4);
  for (int it = 0; it < times; ++it) {
    if (it) switch (s.integer(0, 6)) {
        case 0:
          p.reg = s.pick<double>({0., 1e-6, 0.1, 10.});
          b.set_reg(p.reg);
          break;
        case 1:
          p.grad = s.pick<double>({1e-5, 1e-10});
          b.set_th_grad(p.grad);
          break;
        case 2:
          n = s.integer(1, 6);
          b.set_nx(n);
          c.label("set_nx");
          break;
        case 3:
          p.alphas = s.pick<std::vector<double>>({{1.}, {1., 0.3, 0.1, 0.01, 1e-3}, {1., 0.5, 0.25, 0.125, 0.06, 0.03, 0.01}});
          if (p.alphas.size() == 1) p.alphas = {1., 0.1, 0.01, 1e-3, 1e-4};
          b.set_alphas(p.alphas);
          break;
        case 4:
          p.acc = s.pick<double>({0.01, 0.2, 0.4});
          b.set_th_acceptstep(p.acc);
          break;
        case 5: {  // an interrupted run in between
          b.set_maxiter(s.integer(0, 2));
          QP k = gen_qp(s, n);
          const crocoddyl::BoxQPSolution& r = b.solve(k.H, k.q, k.lb, k.ub, k.x0);
          for (int i = 0; i < n; ++i)
            require(r.x.size() == n && r.x[i] >= k.lb[i] && r.x[i] <= k.ub[i], "interrupted-bounds");
          b.set_maxiter(p.maxiter);
          break;
        }
        default:
          break;
      }
    near("nx", b.get_nx(), n, 0);
    near("reg", b.get_reg(), p.reg, 0);
    near("th_grad", b.get_th_grad(), p.grad, 0);
    near("th_acceptstep", b.get_th_acceptstep(), p.acc, 0);
    near("maxiter", b.get_maxiter(), p.maxiter, 0);
    QP k = gen_qp(s, n);
    c.desc << " n=" << n << " reg=" << p.reg << " grad=" << p.grad << " lb=" << str(k.lb) << " ub=" << str(k.ub);
    crocoddyl::BoxQPSolution r = b.solve(k.H, k.q, k.lb, k.ub, k.x0);
    kkt(k, p, r, c, k.x0);
    require(b.get_solution().x == r.x, "get_solution");
    crocoddyl::BoxQPSolution f = make(n, p).solve(k.H, k.q, k.lb, k.ub, k.x0);
    require(f.x == r.x && f.free_idx == r.free_idx && f.clamped_idx == r.clamped_idx && f.Hff_inv == r.Hff_inv, "history");
    VectorXd x1 = s.vec(n, 3.);
    crocoddyl::BoxQPSolution w = b.solve(k.H, k.q, k.lb, k.ub, x1);
    kkt(k, p, w, c, x1);
  }
  if (p.reg) c.label("reg");
}

static void rejects(Src& s, Case& c) {
  int n = s.integer(1, 4);
  Par p;
  BoxQP b = make(n, p);
  QP k = gen_qp(s, n);
  crocoddyl::BoxQPSolution before = b.solve(k.H, k.q, k.lb, k.ub, k.x0);
  QP w = k;
  int d = s.flip() ? 1 : -1, how = s.integer(0, 9);
  c.desc << "n=" << n << " how" << how << " " << d;
  c.label("how" + std::to_string(how));
  c.nontrivial = true;
  auto grow = [&](VectorXd& v) { v = VectorXd::Zero(n + d); };
  auto bad = [&] { return throws([&] { b.solve(w.H, w.q, w.lb, w.ub, w.x0); }); };
  switch (how) {
    case 0:
      w.H = MatrixXd::Identity(n + (s.flip() ? d : 0), n + d);
      require(bad(), "H");
      break;
    case 1:
      grow(w.q);
      require(bad(), "q");
      break;
    case 2:
      grow(w.lb);
      require(bad(), "lb");
      break;
    case 3:
      grow(w.ub);
      require(bad(), "ub");
      break;
    case 4:
      grow(w.x0);
      require(bad(), "xinit");
      break;
    case 5: {
      double v = s.pick<double>({0., -0.1, 0.5, 0.7, 1., 3.});
      require(throws([&] { b.set_th_acceptstep(v); }), "th_acceptstep", num(v));
      break;
    }
    case 6:
      require(throws([&] { b.set_th_grad(-s.logu(1e-12, 1.)); }), "th_grad");
      b.set_th_grad(p.grad);
      break;
    case 7:
      require(throws([&] { b.set_reg(-s.logu(1e-12, 1.)); }), "reg");
      b.set_reg(0.);
      break;
    case 8: {
      std::vector<double> a = s.pick<std::vector<double>>(
          {{1., 0.5, 0.5}, {1., 0.5, 0.7}, {1., 0.}, {1., 0.5, -0.1}, {1., 1.}, {0.5, 0.6}, {}, {-1.}, {0.}});
      require(throws([&] { b.set_alphas(a); }), "alphas");
      break;
    }
    default: {  // not positive definite on the free space
      w.H = -MatrixXd::Identity(n, n);
      w.lb.setConstant(-INF);
      w.ub.setConstant(INF);
      require(bad(), "indefinite");
    }
  }
  near("th_acceptstep", b.get_th_acceptstep(), p.acc, 0);
  near("th_grad", b.get_th_grad(), p.grad, 0);
  near("reg", b.get_reg(), p.reg, 0);
  near("alphas", b.get_alphas().size(), 10, 0);
  crocoddyl::BoxQPSolution after = b.solve(k.H, k.q, k.lb, k.ub, k.x0);
  require(after.x == before.x && after.free_idx == before.free_idx, "after-rejection");
}

int main(int argc, char** argv) {
  Check k("C07",
          "A case is a solver object and a sequence of bound-constrained programs of one to six variables (condition "
          "numbers up to 1e3, scales 1e-2 to 1e2, infinite, one-sided and coinciding bounds, warm starts inside, on and "
          "outside the bounds) with parameter changes and interrupted runs in between; every solution is judged by the "
          "optimality conditions and compared bit by bit with that of a new object. Non-trivial: some component clamped, "
          "or a rejection was tried.");
  k.family("solves", 200000, 8000000, solves);
  k.family("rejects", 10000, 100000, rejects);
  return k.main(argc, argv);
}
