#include "common/costs.hpp"
using namespace crocoddyl;
namespace vf {
MatrixXd ref_Jdiff(const State& st, const VectorXd& x0, const VectorXd& x1) {
  int n = st.get_ndx();
  MatrixXd J = MatrixXd::Identity(n, n), d = J;
  if (auto* l = dynamic_cast<const LieState*>(&st)) l->LieState::Jdiff(x0, x1, d, J, second);
  return J;
}
static VectorXd input(const State& st, const VectorXd& xref, const VectorXd& x, const VectorXd& u, int nu, bool T) {
  VectorXd z(st.get_ndx() + nu);
  z << ref_diff(st, xref, x), (T ? VectorXd(VectorXd::Zero(nu)) : u);
  return z;
}
VectorXd ResRef::value(const VectorXd& x, const VectorXd& u, bool T) const {
  if (control) return T ? VectorXd(VectorXd::Zero(nr)) : VectorXd(u - uref);
  return f(input(*st, xref, x, u, nu, T));
}
void ResRef::jac(const VectorXd& x, const VectorXd& u, bool T, MatrixXd& Rx, MatrixXd& Ru) const {
  int n = st->get_ndx();
  if (control) {
    Rx = MatrixXd::Zero(nr, n);
    Ru = MatrixXd::Identity(nr, nu);
    return;
  }
  MatrixXd J = f.jac(input(*st, xref, x, u, nu, T));
  Rx = J.leftCols(n) * ref_Jdiff(*st, xref, x);
  Ru = J.rightCols(nu);
}
void NlResidual::calc(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>& x,
                      const Eigen::Ref<const VectorXd>& u) {
  d->r = R.value(x, u, false);
}
void NlResidual::calcDiff(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>& x,
                          const Eigen::Ref<const VectorXd>& u) {
  MatrixXd Rx, Ru;
  R.jac(x, u, false, Rx, Ru);
  d->Rx = Rx;
  d->Ru = Ru;
}
ResCase gen_residual(Src& s, std::shared_ptr<State> st, int nu, double eps, bool control) {
  ResCase c;
  ResRef& r = c.ref;
  r.st = st;
  r.nu = nu;
  if (control && s.chance(1, 5)) {
    r.control = true;
    r.nr = nu;
    r.q = r.v = false;
    r.uref = s.vec(nu);
    r.name = "control";
    c.m = std::make_shared<ResidualModelControlTpl<double>>(st, r.uref);
    return c;
  }
  int n = st->get_ndx(), nv = st->get_nv();
  r.nr = s.integer(1, 3);
  int mask = s.chance(1, 2) ? 0 : s.integer(1, 6);
  r.q = !(mask & 1);
  r.v = !(mask & 2);
  r.u = !(mask & 4);
  r.f = SmoothMap::gen(s, r.nr, n + nu, 1., eps);
  auto zero = [&](int at, int k) {
    r.f.M.middleCols(at, k).setZero();
    if (eps != 0.) r.f.W.middleCols(at, k).setZero();
  };
  if (!r.q) zero(0, nv);
  if (!r.v) zero(nv, nv);
  if (!r.u) zero(n, nu);
  r.xref = gen_x(s, *st, 0.3);
  r.name = std::string("nl") + (r.q ? "q" : "") + (r.v ? "v" : "") + (r.u ? "u" : "");
  c.m = std::make_shared<NlResidual>(r);
  return c;
}
CostCase gen_cost(Src& s, std::shared_ptr<State> st, int nu, bool smooth, double eps) {
  CostCase c;
  ResCase r = gen_residual(s, st, nu, eps);
  c.r = r.ref;
  c.a.nr = r.ref.nr;
  static const ActKind sm[] = {QUAD, WQUAD, FLATEXP, FLATLOG, S1, S2};
  c.a.kind = smooth ? sm[s.integer(0, 5)] : (ActKind)s.integer(0, NACTS - 1);
  c.act = build_act(s, c.a);
  if (c.a.kind == QUAD && s.flip())
    c.m = std::make_shared<CostModelResidualTpl<double>>(st, r.m);
  else
    c.m = std::make_shared<CostModelResidualTpl<double>>(st, c.act, r.m);
  c.weight = s.chance(1, 8) ? 0. : s.logu(0.05, 5.);
  c.active = !s.chance(1, 4);
  return c;
}
CostVal cost_zero(const State& st, int nu) {
  int n = st.get_ndx();
  CostVal v;
  v.Lx = VectorXd::Zero(n);
  v.Lu = VectorXd::Zero(nu);
  v.Lxx = MatrixXd::Zero(n, n);
  v.Lxu = MatrixXd::Zero(n, nu);
  v.Luu = MatrixXd::Zero(nu, nu);
  return v;
}
CostVal cost_ref(const CostCase& c, const VectorXd& x, const VectorXd& u, bool T) {
  CostVal v = cost_zero(*c.r.st, c.r.nu);
  if (T && !c.r.state_dependent()) return v;
  VectorXd r = c.r.value(x, u, T);
  MatrixXd Rx, Ru;
  c.r.jac(x, u, T, Rx, Ru);
  VectorXd Ar(c.r.nr), Arr(c.r.nr);
  for (int i = 0; i < c.r.nr; ++i) Ar[i] = c.a.grad(r, i), Arr[i] = c.a.curv(r, i);
  v.cost = c.a.value(r);
  v.Lx = Rx.transpose() * Ar;
  v.Lu = Ru.transpose() * Ar;
  v.Lxx = Rx.transpose() * Arr.asDiagonal() * Rx;
  v.Lxu = Rx.transpose() * Arr.asDiagonal() * Ru;
  v.Luu = Ru.transpose() * Arr.asDiagonal() * Ru;
  return v;
}
void cost_add(CostVal& a, const CostVal& b, double w) {
  a.cost += w * b.cost;
  a.Lx += w * b.Lx;
  a.Lu += w * b.Lu;
  a.Lxx += w * b.Lxx;
  a.Lxu += w * b.Lxu;
  a.Luu += w * b.Luu;
}
ConCase gen_con(Src& s, std::shared_ptr<State> st, int nu, double eps) {
  ConCase c;
  ResCase r = gen_residual(s, st, nu, eps);
  c.r = r.ref;
  c.ineq = c.bounded = s.flip();
  bool tact = !s.chance(1, 4);
  c.T = tact && c.r.state_dependent();
  if (c.ineq) {
    double beta;
    gen_bounds(s, c.r.nr, c.lb, c.ub, beta);
    c.m = std::make_shared<ConstraintModelResidualTpl<double>>(st, r.m, c.lb, c.ub, tact);
  } else {
    c.m = std::make_shared<ConstraintModelResidualTpl<double>>(st, r.m, tact);
  }
  c.active = !s.chance(1, 4);
  return c;
}

DiffCosts::DiffCosts(std::shared_ptr<State> st, int nu, const SmoothMap& f_, const VectorXd& xr,
                     std::shared_ptr<CostSum> c, std::shared_ptr<ConMan> k)
    : Diff(st, nu, c->get_nr(), k->get_ng(), k->get_nh(), k->get_ng_T(), k->get_nh_T()),
      f(f_), xref(xr), costs(c), cons(k) {}
void DiffCosts::calc(const std::shared_ptr<DiffData>& data, const Eigen::Ref<const VectorXd>& x,
                     const Eigen::Ref<const VectorXd>& u) {
  if (x.size() != (int)state_->get_nx() || u.size() != (int)nu_) throw std::invalid_argument("DiffCosts");
  auto* d = static_cast<DiffCostsData*>(data.get());
  d->xout = f(input(*state_, xref, x, u, nu_, false));
  costs->calc(d->costs, x, u);
  d->cost = d->costs->cost;
  d->cons->resize(this, d);
  cons->calc(d->cons, x, u);
}
void DiffCosts::calc(const std::shared_ptr<DiffData>& data, const Eigen::Ref<const VectorXd>& x) {
  if (x.size() != (int)state_->get_nx()) throw std::invalid_argument("DiffCosts");
  auto* d = static_cast<DiffCostsData*>(data.get());
  costs->calc(d->costs, x);
  d->cost = d->costs->cost;
  d->cons->resize(this, d, false);
  cons->calc(d->cons, x);
}
void DiffCosts::calcDiff(const std::shared_ptr<DiffData>& data, const Eigen::Ref<const VectorXd>& x,
                         const Eigen::Ref<const VectorXd>& u) {
  if (x.size() != (int)state_->get_nx() || u.size() != (int)nu_) throw std::invalid_argument("DiffCosts");
  auto* d = static_cast<DiffCostsData*>(data.get());
  MatrixXd J = f.jac(input(*state_, xref, x, u, nu_, false));
  d->Fx = J.leftCols(state_->get_ndx()) * ref_Jdiff(*state_, xref, x);
  d->Fu = J.rightCols(nu_);
  costs->calcDiff(d->costs, x, u);
  cons->calcDiff(d->cons, x, u);
}
void DiffCosts::calcDiff(const std::shared_ptr<DiffData>& data, const Eigen::Ref<const VectorXd>& x) {
  if (x.size() != (int)state_->get_nx()) throw std::invalid_argument("DiffCosts");
  auto* d = static_cast<DiffCostsData*>(data.get());
  costs->calcDiff(d->costs, x);
  cons->calcDiff(d->cons, x);
}
std::shared_ptr<DiffData> DiffCosts::createData() {
  auto d = std::allocate_shared<DiffCostsData>(Eigen::aligned_allocator<DiffCostsData>(), this);
  d->costs = costs->createData(&d->shared);
  d->cons = cons->createData(&d->shared);
  d->costs->shareMemory(d.get());
  d->cons->shareMemory(d.get());
  return d;
}
bool DiffCosts::checkData(const std::shared_ptr<DiffData>& d) {
  return std::dynamic_pointer_cast<DiffCostsData>(d) != NULL;
}
Eval DiffCostsCase::ref(const VectorXd& x, const VectorXd& u, bool T) const {
  const State& st = *m->get_state();
  int nu = m->get_nu(), n = st.get_ndx();
  Eval e;
  VectorXd z = input(st, m->xref, x, u, nu, T);
  e.f = m->f(z);
  MatrixXd J = m->f.jac(z);
  e.Fx = J.leftCols(n) * ref_Jdiff(st, m->xref, x);
  e.Fu = J.rightCols(nu);
  CostVal v = cost_zero(st, nu);
  for (auto& c : costs)
    if (c.active) cost_add(v, cost_ref(c, x, u, T), c.weight);
  e.cost = v.cost;
  e.Lx = v.Lx; e.Lu = v.Lu; e.Lxx = v.Lxx; e.Lxu = v.Lxu; e.Luu = v.Luu;
  e.r.resize(0);
  int ng = 0, nh = 0;
  for (int pass = 0; pass < 2; ++pass) {
    int ig = 0, ih = 0;
    for (auto& c : cons) {
      if (!c.active || (T && !c.T)) continue;
      if (pass) {
        VectorXd r = c.r.value(x, u, T);
        MatrixXd Rx, Ru;
        c.r.jac(x, u, T, Rx, Ru);
        if (c.ineq) {
          e.g.segment(ig, c.r.nr) = r;
          e.Gx.middleRows(ig, c.r.nr) = Rx;
          e.Gu.middleRows(ig, c.r.nr) = Ru;
        } else {
          e.h.segment(ih, c.r.nr) = r;
          e.Hx.middleRows(ih, c.r.nr) = Rx;
          e.Hu.middleRows(ih, c.r.nr) = Ru;
        }
      }
      (c.ineq ? ig : ih) += c.r.nr;
    }
    if (!pass) {
      ng = ig;
      nh = ih;
      e.g.resize(ng);
      e.h.resize(nh);
      e.Gx.resize(ng, n);
      e.Gu.resize(ng, nu);
      e.Hx.resize(nh, n);
      e.Hu.resize(nh, nu);
    }
  }
  return e;
}
DiffCostsCase gen_diffcosts(Src& s, std::shared_ptr<State> st, int nu, bool smooth, double eps) {
  DiffCostsCase d;
  auto costs = std::make_shared<CostSum>(st, nu);
  auto cons = std::make_shared<ConMan>(st, nu);
  int nc = s.integer(1, 4), nk = s.integer(0, 3);
  for (int i = 0; i < nc; ++i) {
    CostCase c = gen_cost(s, st, nu, smooth, eps);
    c.name = std::string(1, 'a' + i);
    costs->addCost(c.name, c.m, c.weight, c.active);
    d.costs.push_back(c);
  }
  for (int i = 0; i < nk; ++i) {
    ConCase c = gen_con(s, st, nu, eps);
    c.name = std::string(1, 'a' + i);
    cons->addConstraint(c.name, c.m, c.active);
    d.cons.push_back(c);
  }
  SmoothMap f = SmoothMap::gen(s, st->get_nv(), st->get_ndx() + nu, 1., eps);
  VectorXd xref = gen_x(s, *st, 0.3);
  d.m = std::make_shared<DiffCosts>(st, nu, f, xref, costs, cons);
  return d;
}
DiffCase as_diff(const DiffCostsCase& c) {
  DiffCase d;
  d.st = c.m->get_state();
  d.m = c.m;
  d.nu = c.m->get_nu();
  d.name = "costs";
  d.ref = [c](const VectorXd& x, const VectorXd& u, bool T) { return c.ref(x, u, T); };
  return d;
}

VectorXd NlActuation::value(const VectorXd& x, const VectorXd& u) const {
  return f(input(*state_, xref, x, u, nu_, false));
}
void NlActuation::jac(const VectorXd& x, const VectorXd& u, MatrixXd& Jx, MatrixXd& Ju) const {
  MatrixXd J = f.jac(input(*state_, xref, x, u, nu_, false));
  Jx = J.leftCols(state_->get_ndx()) * ref_Jdiff(*state_, xref, x);
  Ju = J.rightCols(nu_);
}
void NlActuation::calc(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
                       const Eigen::Ref<const VectorXd>& u) {
  d->tau = value(x, u);
}
void NlActuation::calcDiff(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
                           const Eigen::Ref<const VectorXd>& u) {
  MatrixXd Jx, Ju;
  jac(x, u, Jx, Ju);
  d->dtau_dx = Jx;
  d->dtau_du = Ju;
}
void NlActuation::commands(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
                           const Eigen::Ref<const VectorXd>& tau) {
  // exact for maps that are affine in u
  VectorXd t0 = value(x, VectorXd::Zero(nu_));
  MatrixXd Jx, Ju;
  jac(x, VectorXd::Zero(nu_), Jx, Ju);
  d->u = Ju.completeOrthogonalDecomposition().solve(tau - t0);
}
std::shared_ptr<NlActuation> gen_actuation(Src& s, std::shared_ptr<State> st, int nu, bool linear) {
  int n = st->get_ndx(), nv = st->get_nv();
  SmoothMap f = SmoothMap::gen(s, nv, n + nu, 1., linear ? 0. : 0.3);
  if (linear) {
    f.M.leftCols(n).setZero();
    f.m.setZero();
  }
  return std::make_shared<NlActuation>(st, nu, f, gen_x(s, *st, 0.3));
}
}  // namespace vf
