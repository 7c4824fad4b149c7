#include <sched.h>
#include "common/models.hpp"

namespace vf {
using namespace crocoddyl;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

M3 skew(const V3& w) {
  M3 m;
  m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
  return m;
}
static void abc(double t2, double& a, double& b, double& c) {
  // sin t/t, (1-cos t)/t^2, (t - sin t)/t^3
  if (t2 < 1e-6) {
    a = 1 - t2 / 6 + t2 * t2 / 120;
    b = .5 - t2 / 24 + t2 * t2 / 720;
    c = 1. / 6 - t2 / 120 + t2 * t2 / 5040;
  } else {
    double t = std::sqrt(t2);
    a = std::sin(t) / t;
    b = (1 - std::cos(t)) / t2;
    c = (t - std::sin(t)) / (t2 * t);
  }
}
M3 so3_exp(const V3& w) {
  double a, b, c;
  abc(w.squaredNorm(), a, b, c);
  M3 k = skew(w);
  return M3::Identity() + a * k + b * k * k;
}
M3 so3_Jr(const V3& w) {
  double a, b, c;
  abc(w.squaredNorm(), a, b, c);
  M3 k = skew(w);
  return M3::Identity() - b * k + c * k * k;
}
M3 so3_Jrinv(const V3& w) {
  double t2 = w.squaredNorm(), d;
  if (t2 < 1e-6) {
    d = 1. / 12 + t2 / 720;
  } else {
    double t = std::sqrt(t2);
    d = 1 / t2 - (1 + std::cos(t)) / (2 * t * std::sin(t));
  }
  M3 k = skew(w);
  return M3::Identity() + .5 * k + d * k * k;
}
static Eigen::Vector4d qexp(const V3& w) {
  double t2 = w.squaredNorm(), t = std::sqrt(t2);
  double s = t < 1e-4 ? .5 - t2 / 48 : std::sin(t / 2) / t;
  Eigen::Vector4d q;
  q << s * w, std::cos(t / 2);
  return q;
}
static Eigen::Vector4d qmul(const Eigen::Vector4d& p, const Eigen::Vector4d& q) {
  V3 a = p.head<3>(), b = q.head<3>();
  Eigen::Vector4d r;
  r << p[3] * b + q[3] * a + a.cross(b), p[3] * q[3] - a.dot(b);
  return r;
}
static V3 qlog(Eigen::Vector4d q) {
  if (q[3] < 0) q = -q;
  double n = q.head<3>().norm();
  if (n < 1e-8) return 2 * q.head<3>() / q[3];
  return 2 * std::atan2(n, q[3]) / n * q.head<3>();
}

LieState::LieState(int a_, int b_) : State(2 * a_ + 7 * b_, 2 * (a_ + 3 * b_)), a(a_), b(b_) {
  nv_ = a + 3 * b;
  nq_ = a + 4 * b;
}
VectorXd LieState::zero() const {
  VectorXd x = VectorXd::Zero(nx_);
  for (int i = 0; i < b; ++i) x[a + 4 * i + 3] = 1;
  return x;
}
VectorXd LieState::rand() const { return zero(); }
static void dims(bool ok, const char* what) {
  if (!ok) throw std::invalid_argument(what);
}
bool g_pause = false;
void pause() {
  if (!g_pause) return;
  static thread_local unsigned r = 1u + (unsigned)(size_t)&r;
  r = r * 1664525u + 1013904223u;
  if (r >> 27 == 0) sched_yield();
  for (volatile int i = (r >> 20) % 400; i > 0; i = i - 1) {
  }
}

void LieState::diff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
                    Eigen::Ref<VectorXd> dx) const {
  dims(x0.size() == (int)nx_ && x1.size() == (int)nx_ && dx.size() == (int)ndx_, "LieState::diff");
  VectorXd o(ndx_);
  o.head(a) = x1.head(a) - x0.head(a);
  for (int i = 0; i < b; ++i) {
    Eigen::Vector4d q0 = x0.segment<4>(a + 4 * i), q1 = x1.segment<4>(a + 4 * i);
    q0.head<3>() *= -1;
    o.segment<3>(a + 3 * i) = qlog(qmul(q0, q1));
  }
  o.tail(nv_) = x1.tail(nv_) - x0.tail(nv_);
  dx = o;
  pause();
}
void LieState::integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                         Eigen::Ref<VectorXd> xo) const {
  dims(x.size() == (int)nx_ && xo.size() == (int)nx_ && dx.size() == (int)ndx_, "LieState::integrate");
  VectorXd o(nx_);
  o.head(a) = x.head(a) + dx.head(a);
  for (int i = 0; i < b; ++i) {
    Eigen::Vector4d q = qmul(x.segment<4>(a + 4 * i), qexp(dx.segment<3>(a + 3 * i)));
    // first-order renormalisation keeps the quaternion on the sphere
    q *= (3 - q.squaredNorm()) / 2;
    o.segment<4>(a + 4 * i) = q;
  }
  o.tail(nv_) = x.tail(nv_) + dx.tail(nv_);
  xo = o;
  pause();
}
void LieState::Jdiff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
                     Eigen::Ref<MatrixXd> J0, Eigen::Ref<MatrixXd> J1, const Jcomponent c) const {
  VectorXd d(ndx_);
  diff(x0, x1, d);
  if (c == first || c == both) {
    dims(J0.rows() == (int)ndx_ && J0.cols() == (int)ndx_, "LieState::Jdiff");
    if (!blocks) J0.setZero();
    J0.diagonal().setConstant(-1.);
    for (int i = 0; i < b; ++i)
      J0.block<3, 3>(a + 3 * i, a + 3 * i) = -so3_Jrinv(d.segment<3>(a + 3 * i)).transpose();
  }
  if (c == second || c == both) {
    dims(J1.rows() == (int)ndx_ && J1.cols() == (int)ndx_, "LieState::Jdiff");
    if (!blocks) J1.setZero();
    J1.diagonal().setOnes();
    for (int i = 0; i < b; ++i)
      J1.block<3, 3>(a + 3 * i, a + 3 * i) = so3_Jrinv(d.segment<3>(a + 3 * i));
  }
}
static void assign(Eigen::Ref<MatrixXd> J, const MatrixXd& v, AssignmentOp op, const LieState& st) {
  if (op == setto && st.blocks) {
    J.diagonal() = v.diagonal();
    for (int i = 0; i < st.b; ++i) J.block<3, 3>(st.a + 3 * i, st.a + 3 * i) = v.block<3, 3>(st.a + 3 * i, st.a + 3 * i);
    return;
  }
  if (op == setto) J = v;
  if (op == addto) J += v;
  if (op == rmfrom) J -= v;
}
void LieState::Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>& dx,
                          Eigen::Ref<MatrixXd> J0, Eigen::Ref<MatrixXd> J1, const Jcomponent c,
                          const AssignmentOp op) const {
  if (c == first || c == both) {
    dims(J0.rows() == (int)ndx_ && J0.cols() == (int)ndx_, "LieState::Jintegrate");
    MatrixXd J = MatrixXd::Identity(ndx_, ndx_);
    for (int i = 0; i < b; ++i)
      J.block<3, 3>(a + 3 * i, a + 3 * i) = so3_exp(dx.segment<3>(a + 3 * i)).transpose();
    assign(J0, J, op, *this);
  }
  if (c == second || c == both) {
    dims(J1.rows() == (int)ndx_ && J1.cols() == (int)ndx_, "LieState::Jintegrate");
    MatrixXd J = MatrixXd::Identity(ndx_, ndx_);
    for (int i = 0; i < b; ++i)
      J.block<3, 3>(a + 3 * i, a + 3 * i) = so3_Jr(dx.segment<3>(a + 3 * i));
    assign(J1, J, op, *this);
  }
}
void LieState::JintegrateTransport(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                                   Eigen::Ref<MatrixXd> Jin, const Jcomponent c) const {
  dims(c == first || c == second, "LieState::JintegrateTransport");
  MatrixXd J = MatrixXd::Zero(ndx_, ndx_);
  Jintegrate(x, dx, J, J, c, setto);
  Jin = (J * Jin).eval();
}

VectorXd ref_integrate(const State& s, const VectorXd& x, const VectorXd& dx) {
  if (auto* l = dynamic_cast<const LieState*>(&s)) {
    VectorXd o(l->get_nx());
    l->LieState::integrate(x, dx, o);
    return o;
  }
  return x + dx;
}
VectorXd ref_diff(const State& s, const VectorXd& x0, const VectorXd& x1) {
  if (auto* l = dynamic_cast<const LieState*>(&s)) {
    VectorXd o(l->get_ndx());
    l->LieState::diff(x0, x1, o);
    return o;
  }
  return x1 - x0;
}
VectorXd gen_x(Src& s, const State& st, double scale) {
  if (auto* l = dynamic_cast<const LieState*>(&st)) {
    VectorXd d = s.vec(st.get_ndx(), scale);
    for (int i = 0; i < l->b; ++i) {  // stay well inside the injectivity radius
      double n = d.segment<3>(l->a + 3 * i).norm();
      if (n > 1.2) d.segment<3>(l->a + 3 * i) *= 1.2 / n;
    }
    return ref_integrate(st, l->zero(), d);
  }
  return s.vec(st.get_nx(), scale);
}

SmoothMap SmoothMap::gen(Src& s, int rows, int cols, double scale, double eps) {
  SmoothMap f;
  f.M = s.mat(rows, cols, scale);
  f.m = s.vec(rows, scale);
  f.eps = eps;
  if (eps != 0.) {
    f.W = s.mat(rows, cols, 1.);
    f.w = s.vec(rows, 3.);
  }
  return f;
}
VectorXd SmoothMap::operator()(const VectorXd& z) const {
  VectorXd v = M * z + m;
  if (eps != 0.) v += eps * (W * z + w).array().sin().matrix();
  return v;
}
MatrixXd SmoothMap::jac(const VectorXd& z) const {
  if (eps == 0.) return M;
  VectorXd c = eps * (W * z + w).array().cos();
  return M + c.asDiagonal() * W;
}

Funcs Funcs::gen(Src& s, const State& st, int nu, int nf, const ModelSpec& sp) {
  Funcs F;
  int n = st.get_ndx();
  F.nu = nu;
  F.nr = sp.nr;
  F.ng = sp.ng; F.nh = sp.nh; F.ng_T = sp.ng_T; F.nh_T = sp.nh_T;
  F.reg = sp.reg;
  F.f = SmoothMap::gen(s, nf, n + nu, sp.dyn, sp.eps);
  F.res = SmoothMap::gen(s, sp.nr, n + nu, 1., sp.eps);
  if (!sp.cross) F.res.M.rightCols(nu).setZero(), F.res.W.rightCols(nu).setZero();
  F.g = SmoothMap::gen(s, std::max(sp.ng, sp.ng_T), n + nu, 1., sp.eps);
  F.h = SmoothMap::gen(s, std::max(sp.nh, sp.nh_T), n + nu, 1., sp.eps);
  F.xref = gen_x(s, st, 0.3);
  return F;
}
Eval Funcs::eval(const State& st, const VectorXd& x, const VectorXd& u, bool T) const {
  int n = st.get_ndx();
  VectorXd y = ref_diff(st, xref, x);
  MatrixXd Jy = MatrixXd::Identity(n, n);
  if (auto* l = dynamic_cast<const LieState*>(&st)) {
    MatrixXd dummy(n, n);
    l->LieState::Jdiff(xref, x, dummy, Jy, second);
  }
  VectorXd z(n + nu);
  z << y, (T ? VectorXd::Zero(nu) : u);
  Eval e;
  e.f = f(z);
  e.r = res(z);
  e.cost = .5 * e.r.squaredNorm() + .5 * reg * z.squaredNorm();
  MatrixXd Jf = f.jac(z), Jr = res.jac(z);
  e.Fx = Jf.leftCols(n) * Jy;
  e.Fu = Jf.rightCols(nu);
  MatrixXd Rx = Jr.leftCols(n) * Jy, Ru = Jr.rightCols(nu);
  e.Lx = Rx.transpose() * e.r + reg * Jy.transpose() * y;
  e.Lu = Ru.transpose() * e.r + reg * z.tail(nu);
  e.Lxx = Rx.transpose() * Rx + reg * Jy.transpose() * Jy;
  e.Luu = Ru.transpose() * Ru + reg * MatrixXd::Identity(nu, nu);
  e.Lxu = Rx.transpose() * Ru;
  int cg = T ? ng_T : ng, ch = T ? nh_T : nh;
  e.g = g(z).head(cg);
  e.h = h(z).head(ch);
  MatrixXd Jg = g.jac(z).topRows(cg), Jh = h.jac(z).topRows(ch);
  e.Gx = Jg.leftCols(n) * Jy;
  e.Gu = Jg.rightCols(nu);
  e.Hx = Jh.leftCols(n) * Jy;
  e.Hu = Jh.rightCols(nu);
  return e;
}

NlAction::NlAction(std::shared_ptr<State> st, int nu, const Funcs& f)
    : Action(st, nu, f.nr, f.ng, f.nh, f.ng_T, f.nh_T), F(f) {}
void NlAction::values(const std::shared_ptr<ActionData>& d, const VectorXd& x, const VectorXd& u, bool T) {
  dims(x.size() == (int)state_->get_nx() && (T || u.size() == (int)nu_), "NlAction");
  Eval e = F.eval(*state_, x, u, T);
  d->cost = e.cost;
  d->r = e.r;
  d->xnext = T ? x : ref_integrate(*state_, x, e.f);
  d->g.head(e.g.size()) = e.g;
  d->h.head(e.h.size()) = e.h;
  if (fault && ref_diff(*state_, F.xref, x).norm() > limit) {
    if (fault == 1) throw std::runtime_error("injected model failure");
    if (fault == 2) d->cost = std::numeric_limits<double>::quiet_NaN();
    if (fault == 3) d->xnext.setConstant(std::numeric_limits<double>::quiet_NaN());
    if (fault == 4) d->cost = INF;
    if (fault == 5) d->xnext[0] = std::numeric_limits<double>::quiet_NaN();
    if (fault == 6) d->xnext[d->xnext.size() - 1] = std::numeric_limits<double>::quiet_NaN();
  }
}
void NlAction::diffs(const std::shared_ptr<ActionData>& d, const VectorXd& x, const VectorXd& u, bool T) {
  dims(x.size() == (int)state_->get_nx() && (T || u.size() == (int)nu_), "NlAction");
  Eval e = F.eval(*state_, x, u, T);
  int n = state_->get_ndx();
  d->Lx = e.Lx;
  d->Lxx = e.Lxx;
  d->Gx.topRows(e.g.size()) = e.Gx;
  d->Hx.topRows(e.h.size()) = e.Hx;
  if (T) {
    d->Fx.setIdentity();
    return;
  }
  MatrixXd J0 = MatrixXd::Identity(n, n), J1 = J0;
  if (auto* l = dynamic_cast<const LieState*>(state_.get())) l->LieState::Jintegrate(x, e.f, J0, J1);
  d->Fx = J0 + J1 * e.Fx;
  d->Fu = J1 * e.Fu;
  d->Lu = e.Lu;
  d->Luu = e.Luu;
  d->Lxu = e.Lxu;
  d->Gu.topRows(e.g.size()) = e.Gu;
  d->Hu.topRows(e.h.size()) = e.Hu;
}
void NlAction::calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x,
                    const Eigen::Ref<const VectorXd>& u) { values(d, x, u, false), pause(); }
void NlAction::calc(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) {
  values(d, x, VectorXd::Zero(nu_), true);
}
void NlAction::calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x,
                        const Eigen::Ref<const VectorXd>& u) { diffs(d, x, u, false), pause(); }
void NlAction::calcDiff(const std::shared_ptr<ActionData>& d, const Eigen::Ref<const VectorXd>& x) {
  diffs(d, x, VectorXd::Zero(nu_), true);
}
std::shared_ptr<ActionData> NlAction::createData() {
  return std::allocate_shared<NlActionData>(Eigen::aligned_allocator<NlActionData>(), this);
}
bool NlAction::checkData(const std::shared_ptr<ActionData>& d) {
  return std::dynamic_pointer_cast<NlActionData>(d) != NULL;
}

NlDiff::NlDiff(std::shared_ptr<State> st, int nu, const Funcs& f)
    : Diff(st, nu, f.nr, f.ng, f.nh, f.ng_T, f.nh_T), F(f) {}
void NlDiff::values(const std::shared_ptr<DiffData>& d, const VectorXd& x, const VectorXd& u, bool T) {
  dims(x.size() == (int)state_->get_nx() && (T || u.size() == (int)nu_), "NlDiff");
  Eval e = F.eval(*state_, x, u, T);
  d->cost = e.cost;
  d->r = e.r;
  if (!T) d->xout = e.f;
  d->g.head(e.g.size()) = e.g;
  d->h.head(e.h.size()) = e.h;
}
void NlDiff::diffs(const std::shared_ptr<DiffData>& d, const VectorXd& x, const VectorXd& u, bool T) {
  dims(x.size() == (int)state_->get_nx() && (T || u.size() == (int)nu_), "NlDiff");
  Eval e = F.eval(*state_, x, u, T);
  d->Lx = e.Lx;
  d->Lxx = e.Lxx;
  d->Gx.topRows(e.g.size()) = e.Gx;
  d->Hx.topRows(e.h.size()) = e.Hx;
  if (T) return;
  d->Fx = e.Fx;
  d->Fu = e.Fu;
  d->Lu = e.Lu;
  d->Luu = e.Luu;
  d->Lxu = e.Lxu;
  d->Gu.topRows(e.g.size()) = e.Gu;
  d->Hu.topRows(e.h.size()) = e.Hu;
}
void NlDiff::calc(const std::shared_ptr<DiffData>& d, const Eigen::Ref<const VectorXd>& x,
                  const Eigen::Ref<const VectorXd>& u) { values(d, x, u, false); }
void NlDiff::calc(const std::shared_ptr<DiffData>& d, const Eigen::Ref<const VectorXd>& x) {
  values(d, x, VectorXd::Zero(nu_), true);
}
void NlDiff::calcDiff(const std::shared_ptr<DiffData>& d, const Eigen::Ref<const VectorXd>& x,
                      const Eigen::Ref<const VectorXd>& u) { diffs(d, x, u, false); }
void NlDiff::calcDiff(const std::shared_ptr<DiffData>& d, const Eigen::Ref<const VectorXd>& x) {
  diffs(d, x, VectorXd::Zero(nu_), true);
}
std::shared_ptr<DiffData> NlDiff::createData() { return Diff::createData(); }
bool NlDiff::checkData(const std::shared_ptr<DiffData>& d) { return d != NULL; }

std::shared_ptr<State> gen_state(Src& s, int maxdim, bool lie) {
  if (lie && s.chance(1, 3)) return std::make_shared<LieState>(s.integer(0, 1), 1);
  return std::make_shared<StateVectorTpl<double>>(2 * s.integer(1, std::max(1, maxdim)));
}
std::shared_ptr<NlAction> gen_nlaction(Src& s, std::shared_ptr<State> st, int nu, ModelSpec sp) {
  return std::make_shared<NlAction>(st, nu, Funcs::gen(s, *st, nu, st->get_ndx(), sp));
}
std::shared_ptr<NlDiff> gen_nldiff(Src& s, std::shared_ptr<State> st, int nu, ModelSpec sp) {
  return std::make_shared<NlDiff>(st, nu, Funcs::gen(s, *st, nu, st->get_nv(), sp));
}

LQ LQ::gen(Src& s, int nx, int nu, int ng, int nh, double convex, double dyn) {
  LQ l;
  l.A = s.mat(nx, nx, dyn);
  l.B = s.mat(nx, nu);
  MatrixXd m = s.mat(nx + nu, nx + nu);
  MatrixXd W = m * m.transpose();
  W.diagonal().array() += convex;
  l.Q = W.topLeftCorner(nx, nx);
  l.R = W.bottomRightCorner(nu, nu);
  l.N = W.topRightCorner(nx, nu);
  l.G = s.mat(ng, nx + nu);
  l.H = s.mat(nh, nx + nu);
  l.f = s.vec(nx);
  l.q = s.vec(nx);
  l.r = s.vec(nu);
  l.g = s.vec(ng);
  l.h = s.vec(nh);
  return l;
}
std::shared_ptr<ActionModelLQRTpl<double>> LQ::model() const {
  return std::make_shared<ActionModelLQRTpl<double>>(A, B, Q, R, N, G, H, f, q, r, g, h);
}
}  // namespace vf
