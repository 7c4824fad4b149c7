// The action models of the library compute the formulas they document.
#include <set>
#include "common/models.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
using namespace vf;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef crocoddyl::ActionModelLQRTpl<double> Lqr;
typedef crocoddyl::DifferentialActionModelLQRTpl<double> DLqr;

static const double TOL = 1e-12;
static MatrixXd hcat(const MatrixXd& a, const MatrixXd& b) {
  MatrixXd m(a.rows(), a.cols() + b.cols());
  if (m.size()) m << a, b;
  return m;
}
static VectorXd vcat(const VectorXd& a, const VectorXd& b) {
  VectorXd m(a.size() + b.size());
  m << a, b;
  return m;
}
// The parts of either model: A of the differential one is [Aq Av].
struct Parts {
  LQ l;
  bool free;
};
static std::vector<MatrixXd> got(const Lqr& m) { return {m.get_A(), m.get_B(), m.get_Q(), m.get_R(), m.get_N(), m.get_G(), m.get_H(), m.get_f(), m.get_q(), m.get_r(), m.get_g(), m.get_h()}; }
static std::vector<MatrixXd> got(const DLqr& m) { return {hcat(m.get_Aq(), m.get_Av()), m.get_B(), m.get_Q(), m.get_R(), m.get_N(), m.get_G(), m.get_H(), m.get_f(), m.get_q(), m.get_r(), m.get_g(), m.get_h()}; }
static void parts(const std::vector<MatrixXd>& v, const LQ& l) {
  const char* names[] = {"A", "B", "Q", "R", "N", "G", "H", "f", "q", "r", "g", "h"};
  const MatrixXd want[] = {l.A, l.B, l.Q, l.R, l.N, l.G, l.H, l.f, l.q, l.r, l.g, l.h};
  for (int i = 0; i < 12; ++i)
    if (v[i].rows() != want[i].rows() || v[i].cols() != want[i].cols() || (v[i].array() != want[i].array()).any()) fail("parameter", std::string(names[i]) + ": " + str(v[i]) + " instead of " + str(want[i]));
}
static const VectorXd& next(crocoddyl::ActionDataAbstractTpl<double>& d) { return d.xnext; }
static const VectorXd& next(crocoddyl::DifferentialActionDataAbstractTpl<double>& d) { return d.xout; }

// Values with and without control, on the given data.
template <class M, class D>
static void values(Src& s, M& m, const D& d, const LQ& l, bool first) {
  int nx = l.Q.rows(), nu = l.R.rows();
  VectorXd x = s.vec(nx, 3.), u = s.vec(nu, 3.), z = vcat(x, u);
  double q = 0.5 * x.dot(l.Q * x) + l.q.dot(x), p = q + 0.5 * u.dot(l.R * u) + x.dot(l.N * u) + l.r.dot(u);
  auto with = [&] {
    m.calc(d, x, u);
    nearm("dynamics", next(*d), l.A * x + l.B * u + l.f, TOL, "dynamics");
    near("cost", d->cost, p, TOL, "cost");
    nearm("g", d->g, l.G * z + l.g, TOL, "g");
    nearm("h", d->h, l.H * z + l.h, TOL, "h");
  };
  auto without = [&] {
    m.calc(d, x);
    near("terminal-cost", d->cost, q, TOL, "cost");
    nearm("terminal-g", d->g, l.G.leftCols(nx) * x + l.g, TOL, "g");
    nearm("terminal-h", d->h, l.H.leftCols(nx) * x + l.h, TOL, "h");
    if (m.get_state()->get_nx() == (size_t)next(*d).size()) nearm("terminal-state", next(*d), x, 0., "state");
  };
  auto diff = [&] {
    m.calcDiff(d, x, u);
    nearm("Fx", d->Fx, l.A, 0., "Fx");
    nearm("Fu", d->Fu, l.B, 0., "Fu");
    nearm("Lx", d->Lx, l.q + l.Q * x + l.N * u, TOL, "Lx");
    nearm("Lu", d->Lu, l.r + l.N.transpose() * x + l.R * u, TOL, "Lu");
    nearm("Lxx", d->Lxx, l.Q, 0., "Lxx");
    nearm("Lxu", d->Lxu, l.N, 0., "Lxu");
    nearm("Luu", d->Luu, l.R, 0., "Luu");
    nearm("Gx", d->Gx, l.G.leftCols(nx), 0., "Gx");
    nearm("Gu", d->Gu, l.G.rightCols(nu), 0., "Gu");
    nearm("Hx", d->Hx, l.H.leftCols(nx), 0., "Hx");
    nearm("Hu", d->Hu, l.H.rightCols(nu), 0., "Hu");
  };
  auto diffT = [&] {
    m.calcDiff(d, x);
    nearm("terminal-Lx", d->Lx, l.q + l.Q * x, TOL, "Lx");
    nearm("terminal-Lxx", d->Lxx, l.Q, 0., "Lxx");
    nearm("terminal-Gx", d->Gx, l.G.leftCols(nx), 0., "Gx");
    nearm("terminal-Hx", d->Hx, l.H.leftCols(nx), 0., "Hx");
  };
  if (first) {
    with(), diff(), without(), diffT();
  } else {
    without(), diffT(), with(), diff();
  }
}
template <class M>
static void sizes(M& m, const LQ& l) {
  size_t ng = l.G.rows(), nh = l.H.rows();
  require(m.get_nu() == (size_t)l.R.rows() && (long)m.get_state()->get_nx() == l.Q.rows() && (long)m.get_state()->get_ndx() == l.Q.rows(), "sizes");
  require(m.get_ng() == ng && m.get_nh() == nh && m.get_ng_T() == ng && m.get_nh_T() == nh && m.get_nr() == 0, "constraint-sizes");
}
static LQ standard(int nx, int nu, int rows, bool free) {
  LQ l;
  l.A = MatrixXd::Identity(rows, rows);
  l.B = MatrixXd::Identity(rows, nu);
  l.Q = MatrixXd::Identity(nx, nx), l.R = MatrixXd::Identity(nu, nu), l.N = MatrixXd::Zero(nx, nu);
  l.G = l.H = MatrixXd::Zero(0, nx + nu);
  l.f = free ? VectorXd::Zero(rows) : VectorXd::Ones(rows);
  l.q = VectorXd::Ones(nx), l.r = VectorXd::Ones(nu);
  return l;
}
static std::shared_ptr<Lqr> make(const LQ& l, int ctor) {
  if (ctor == 0) return l.model();
  if (ctor == 1) return std::make_shared<Lqr>(l.A, l.B, l.Q, l.R, l.N);
  return std::make_shared<Lqr>(l.A, l.B, l.Q, l.R, l.N, l.f, l.q, l.r);
}
static void set(Lqr& m, const LQ& l) { m.set_LQR(l.A, l.B, l.Q, l.R, l.N, l.G, l.H, l.f, l.q, l.r, l.g, l.h); }
static std::shared_ptr<DLqr> dmake(const LQ& l, int ctor) {
  int n = l.A.rows();
  MatrixXd a = l.A.leftCols(n), b = l.A.rightCols(n);
  if (ctor == 0) return std::make_shared<DLqr>(a, b, l.B, l.Q, l.R, l.N, l.G, l.H, l.f, l.q, l.r, l.g, l.h);
  if (ctor == 1) return std::make_shared<DLqr>(a, b, l.B, l.Q, l.R, l.N);
  return std::make_shared<DLqr>(a, b, l.B, l.Q, l.R, l.N, l.f, l.q, l.r);
}
static void set(DLqr& m, const LQ& l) {
  int n = l.A.rows();
  m.set_LQR(l.A.leftCols(n), l.A.rightCols(n), l.B, l.Q, l.R, l.N, l.G, l.H, l.f, l.q, l.r, l.g, l.h);
}
// What a model made at random promises.
template <class M>
static LQ random_parts(M& m, int rows, int nx, int nu, int ng, int nh) {
  auto v = got(m);
  const int want[12][2] = {{rows, rows == nx ? nx : nx}, {rows, nu}, {nx, nx}, {nu, nu}, {nx, nu}, {ng, nx + nu}, {nh, nx + nu}, {rows, 1}, {nx, 1}, {nu, 1}, {ng, 1}, {nh, 1}};
  for (int i = 0; i < 12; ++i) {
    require(v[i].rows() == want[i][0] && v[i].cols() == want[i][1], "random-sizes", std::to_string(i));
    require(v[i].allFinite(), "random-finite", std::to_string(i));
  }
  MatrixXd W(nx + nu, nx + nu);
  W << v[2], v[4], v[4].transpose(), v[3];
  require((W - W.transpose()).cwiseAbs().maxCoeff() < 1e-12, "random-symmetric");
  require(Eigen::SelfAdjointEigenSolver<MatrixXd>(W).eigenvalues().minCoeff() > -1e-9, "random-convex");
  LQ l;
  l.A = v[0], l.B = v[1], l.Q = v[2], l.R = v[3], l.N = v[4], l.G = v[5], l.H = v[6], l.f = v[7], l.q = v[8], l.r = v[9], l.g = v[10], l.h = v[11];
  return l;
}

template <class M>
static void history(Src& s, Case& c, std::shared_ptr<M> m, LQ l, int nx, int nu, bool diff, std::function<LQ(int, int)> gen) {
  auto d = m->createData();
  int n = s.integer(1, 6);
  for (int i = 0; i < n; ++i) {
    int ng = l.G.rows(), nh = l.H.rows();
    switch (s.integer(0, 5)) {
      case 0: {  // other parameters, kept data
        l = gen(ng, nh);
        set(*m, l);
        c.label("set");
        break;
      }
      case 1: {  // a copy; the original then changes
        auto o = m;
        m = std::make_shared<M>(*o);
        set(*o, gen(ng, nh));
        if (s.flip()) d = m->createData();
        c.label("copy");
        break;
      }
      case 2:
        d = m->createData();
        break;
      case 3: {  // rejected whole
        LQ b = gen(ng, nh);
        int k = s.integer(0, nu ? 4 : 3);
        if (k == 0) b.Q -= (b.Q.trace() + 1.) * MatrixXd::Identity(nx, nx);
        if (k == 1) b.h = VectorXd::Zero(nh + 1);
        if (k == 2) b.G = MatrixXd::Zero(ng + 1, nx + nu);
        if (k == 3) b.r = VectorXd::Zero(nu + 1);
        if (k == 4) b.R -= (b.R.trace() + 1.) * MatrixXd::Identity(nu, nu);
        require(throws([&] { set(*m, b); }), "accepted", std::to_string(k));
        c.label("rejected");
        break;
      }
      default: break;
    }
    parts(got(*m), l);
    sizes(*m, l);
    values(s, *m, d, l, s.flip());
  }
  c.nontrivial = true;
}
static void lqr(Src& s, Case& c) {
  int nx = s.integer(1, 5), nu = s.chance(1, 8) ? 0 : s.integer(1, 4), ctor = s.integer(0, 4);
  bool con = ctor == 0 || ctor == 4;
  int ng = con ? s.integer(0, 3) : 0, nh = con ? s.integer(0, 3) : 0;
  auto gen = [&](int g, int h) { return LQ::gen(s, nx, nu, g, h, 0.1); };
  LQ l;
  std::shared_ptr<Lqr> m;
  if (ctor == 3) {
    bool df = s.flip(), free = df || s.flip();
    l = standard(nx, nu, nx, free);
    m = df ? std::make_shared<Lqr>(nx, nu) : std::make_shared<Lqr>(nx, nu, free);
  } else if (ctor == 4) {
    m = std::make_shared<Lqr>(Lqr::Random(nx, nu, ng, nh));
    l = random_parts(*m, nx, nx, nu, ng, nh);
  } else {
    l = gen(ng, nh);
    if (ctor == 1) l.f.setZero(), l.q.setZero(), l.r.setZero();
    m = make(l, ctor);
  }
  c.label("ctor" + std::to_string(ctor));
  c.desc << "lqr ctor " << ctor << " nx=" << nx << " nu=" << nu << " ng=" << ng << " nh=" << nh;
  history<Lqr>(s, c, m, l, nx, nu, false, gen);
}
static void dlqr(Src& s, Case& c) {
  int nq = s.integer(1, 3), nx = 2 * nq, nu = s.chance(1, 8) ? 0 : s.integer(1, 4), ctor = s.integer(0, 4);
  bool con = ctor == 0 || ctor == 4;
  int ng = con ? s.integer(0, 3) : 0, nh = con ? s.integer(0, 3) : 0;
  auto gen = [&](int g, int h) {
    LQ l = LQ::gen(s, nx, nu, g, h, 0.1);
    l.A = MatrixXd(l.A.topRows(nq)), l.B = MatrixXd(l.B.topRows(nq)), l.f = VectorXd(l.f.head(nq));
    return l;
  };
  LQ l;
  std::shared_ptr<DLqr> m;
  if (ctor == 3) {
    bool df = s.flip(), free = df || s.flip();
    l = standard(nx, nu, nq, free);
    l.A = hcat(MatrixXd::Identity(nq, nq), MatrixXd::Identity(nq, nq));
    m = df ? std::make_shared<DLqr>(nq, nu) : std::make_shared<DLqr>(nq, nu, free);
  } else if (ctor == 4) {
    m = std::make_shared<DLqr>(DLqr::Random(nq, nu, ng, nh));
    l = random_parts(*m, nq, nx, nu, ng, nh);
  } else {
    l = gen(ng, nh);
    if (ctor == 1) l.f.setZero(), l.q.setZero(), l.r.setZero();
    m = dmake(l, ctor);
  }
  c.label("ctor" + std::to_string(ctor));
  c.desc << "differential lqr ctor " << ctor << " nq=" << nq << " nu=" << nu << " ng=" << ng << " nh=" << nh;
  require((long)m->get_state()->get_nq() == nq && (long)m->get_state()->get_nv() == nq, "halves");
  history<DLqr>(s, c, m, l, nx, nu, true, gen);
}

static void unicycle(Src& s, Case& c) {
  crocoddyl::ActionModelUnicycleTpl<double> m;
  double dt = 0.1;
  Eigen::Vector2d w(10., 1.);
  auto d = m.createData();
  require(m.get_nu() == 2 && m.get_nr() == 5 && m.get_state()->get_nx() == 3 && m.get_state()->get_ndx() == 3, "sizes");
  int n = s.integer(1, 6);
  for (int i = 0; i < n; ++i) {
    switch (s.integer(0, 4)) {
      case 0: m.set_dt(dt = s.logu(1e-3, 3.)); break;
      case 1: m.set_cost_weights(w = s.vec(2, 10.)); break;
      case 2:
        require(throws([&] { m.set_dt(s.chance(1, 4) ? 0. : -s.logu(1e-3, 3.)); }), "dt-not-positive");
        c.label("rejected");
        break;
      case 3: d = m.createData(); break;
      default: break;
    }
    require(m.get_dt() == dt && m.get_cost_weights() == w, "parameters");
    VectorXd x = s.vec(3, 7.), u = s.vec(2, 4.), r(5);
    r << w[0] * x, w[1] * u;
    double v = u[0] * dt;
    VectorXd y(3);
    y << x[0] + v * std::cos(x[2]), x[1] + v * std::sin(x[2]), x[2] + u[1] * dt;
    m.calc(d, x, u);
    nearm("dynamics", d->xnext, y, TOL, "dynamics");
    nearm("residual", d->r, r, TOL, "residual");
    near("cost", d->cost, 0.5 * r.squaredNorm(), TOL, "cost");
    m.calcDiff(d, x, u);
    MatrixXd fx = MatrixXd::Identity(3, 3), fu = MatrixXd::Zero(3, 2);
    fx(0, 2) = -v * std::sin(x[2]), fx(1, 2) = v * std::cos(x[2]);
    fu(0, 0) = dt * std::cos(x[2]), fu(1, 0) = dt * std::sin(x[2]), fu(2, 1) = dt;
    nearm("Fx", d->Fx, fx, TOL, "Fx");
    nearm("Fu", d->Fu, fu, TOL, "Fu");
    nearm("Lx", d->Lx, w[0] * w[0] * x, TOL, "Lx");
    nearm("Lu", d->Lu, w[1] * w[1] * u, TOL, "Lu");
    nearm("Lxx", d->Lxx, w[0] * w[0] * MatrixXd::Identity(3, 3), TOL, "Lxx");
    nearm("Luu", d->Luu, w[1] * w[1] * MatrixXd::Identity(2, 2), TOL, "Luu");
    nearm("Lxu", d->Lxu, MatrixXd::Zero(3, 2), 0., "Lxu");
    if (s.flip()) {
      if (s.chance(2, 3)) x = s.vec(3, 7.), r.head(3) = w[0] * x;
      m.calc(d, x);
      nearm("terminal-state", d->xnext, x, 0., "state");
      near("terminal-cost", d->cost, 0.5 * r.head(3).squaredNorm(), TOL, "cost");
      nearm("terminal-residual", VectorXd(d->r.head(3)), VectorXd(r.head(3)), TOL, "residual");
      m.calcDiff(d, x);
      nearm("terminal-Lx", d->Lx, w[0] * w[0] * x, TOL, "Lx");
      nearm("terminal-Lxx", d->Lxx, w[0] * w[0] * MatrixXd::Identity(3, 3), TOL, "Lxx");
    }
  }
  c.desc << "unicycle " << n;
  c.nontrivial = true;
}

// Limits are reported as set, and a model is limited when any limit is finite.
template <class M>
static void limits_of(Src& s, Case& c, M& m, int ng, int nu) {
  const double inf = std::numeric_limits<double>::infinity();
  VectorXd b[4] = {VectorXd::Constant(nu, -inf), VectorXd::Constant(nu, inf), VectorXd::Constant(ng, -inf), VectorXd::Constant(ng, inf)};
  int n = s.integer(0, 8);
  for (int i = 0;; ++i) {
    require(m.get_u_lb() == b[0] && m.get_u_ub() == b[1] && m.get_g_lb() == b[2] && m.get_g_ub() == b[3], "limits");
    bool any = b[0].array().isFinite().any() || b[1].array().isFinite().any();
    require(m.get_has_control_limits() == any, "limited", str(b[0].transpose()) + " " + str(b[1].transpose()));
    if (any) c.nontrivial = true;
    if (i == n) break;
    int k = s.integer(0, 3), size = k < 2 ? nu : ng;
    bool bad = s.chance(1, 5);
    VectorXd v(size + (bad ? 1 : 0));
    bool none = s.chance(1, 4);
    for (int j = 0; j < v.size(); ++j) v[j] = none || s.chance(1, 3) ? (k % 2 ? inf : -inf) : (k % 2 ? 1. : -1.) * s.uni(0., 3.);
    auto put = [&] { k == 0 ? m.set_u_lb(v) : k == 1 ? m.set_u_ub(v) : k == 2 ? m.set_g_lb(v) : m.set_g_ub(v); };
    if (bad) {
      require(throws(put), "wrong-size");
      continue;
    }
    put();
    b[k] = v;
  }
  M o(m);
  require(o.get_u_lb() == b[0] && o.get_u_ub() == b[1] && o.get_g_lb() == b[2] && o.get_g_ub() == b[3] && o.get_has_control_limits() == m.get_has_control_limits(), "copied-limits");
}
static void limits(Src& s, Case& c) {
  int nq = s.integer(1, 2), nu = s.integer(1, 4), ng = s.integer(0, 3);
  c.desc << "nu=" << nu << " ng=" << ng;
  switch (s.integer(0, 2)) {
    case 0: {
      Lqr m = Lqr::Random(nq, nu, ng, 1);
      limits_of(s, c, m, ng, nu);
      break;
    }
    case 1: {
      DLqr m = DLqr::Random(nq, nu, ng, 1);
      limits_of(s, c, m, ng, nu);
      break;
    }
    default: {
      crocoddyl::ActionModelUnicycleTpl<double> m;
      limits_of(s, c, m, 0, 2);
    }
  }
}

int main(int argc, char** argv) {
  Check k("C36",
          "A case is a linear-quadratic model made by any of its constructors (also at random and copied) or a unicycle, "
          "with a history of parameter changes, rejected ones, new data and evaluations; or a history of limits. "
          "Non-trivial: something was evaluated; a finite limit.");
  k.family("lqr", 100000, 600000, lqr);
  k.family("dlqr", 100000, 600000, dlqr);
  k.family("unicycle", 100000, 600000, unicycle);
  k.family("limits", 200000, 600000, limits);
  return k.main(argc, argv);
}
