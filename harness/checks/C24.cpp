// C24: numerical differentiation reproduces the wrapped model and its derivatives.
#include <crocoddyl/core/numdiff/action.hpp>
#include <crocoddyl/core/numdiff/activation.hpp>
#include <crocoddyl/core/numdiff/actuation.hpp>
#include <crocoddyl/core/numdiff/constraint.hpp>
#include <crocoddyl/core/numdiff/control.hpp>
#include <crocoddyl/core/numdiff/cost.hpp>
#include <crocoddyl/core/numdiff/diff-action.hpp>
#include <crocoddyl/core/numdiff/residual.hpp>
#include <crocoddyl/core/numdiff/state.hpp>
#include <crocoddyl/core/actions/unicycle.hpp>

#include "common/activ.hpp"
#include "common/costs.hpp"
#include "common/nodes.hpp"
using namespace vf;
using namespace crocoddyl;
typedef std::function<MatrixXd(const VectorXd&)> MatFn;
typedef std::function<VectorXd(const VectorXd&)> VecFn;

static const double EPS = std::numeric_limits<double>::epsilon();

// Draws the step: the default one, or another the model is told to use.
template <class ND>
static double gen_step(Src& s, Case& c, ND& m) {
  double d0 = m.get_disturbance();
  require(d0 > 0. && d0 <= 1e-3, "default-step", num(d0));
  if (s.chance(1, 3)) {
    double d = s.logu(1e-7, 1e-4);
    m.set_disturbance(d);
    near("step-getter", m.get_disturbance(), d, 0);
    c.label("step-set");
    d0 = d;
  }
  double bad = -s.logu(1e-9, 1.);
  require(throws([&] { m.set_disturbance(bad); }), "negative-step-accepted", num(bad));
  near("step-after-rejection", m.get_disturbance(), d0, 0);
  return d0;
}

// Forward-difference error of column i: J is the exact derivative as a function
// of the input, move(i) the displaced input.
struct Point {
  const State* st = nullptr;  // null: plain vector
  VectorXd at;
  double norm = 0.;
  VectorXd moved(int i, double h) const {
    VectorXd e = VectorXd::Zero(st ? st->get_ndx() : at.size());
    e[i] = h;
    return st ? ref_integrate(*st, at, e) : VectorXd(at + e);
  }
  int n() const { return st ? st->get_ndx() : at.size(); }
};
static Point state_point(const State& st, const VectorXd& x) {
  Point p;
  p.st = &st;
  p.at = x;
  p.norm = std::max(x.norm(), ref_diff(st, st.zero(), x).norm());
  return p;
}
static Point vec_point(const VectorXd& u) {
  Point p;
  p.at = u;
  p.norm = u.norm();
  return p;
}
static void check_jac(const std::string& tag, const MatrixXd& got, const MatFn& J, const Point& p, double step,
                      double fmax, const std::string& what = "") {
  MatrixXd want = J(p.at);
  require(got.rows() == want.rows() && got.cols() == want.cols(), tag,
          what + " shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " expected " +
              std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
  if (!want.size()) return;
  double h = 1.5 * step * std::max(1., p.norm), jm = want.cwiseAbs().maxCoeff();
  for (int i = 0; i < want.cols(); ++i) {
    double dj = (J(p.moved(i, h)).col(i) - want.col(i)).cwiseAbs().maxCoeff();
    double tol = 3 * dj + 0.2 * h * (1 + jm) * (1 + jm) + 300 * EPS * (1 + fmax) / step + 1e-9 * (1 + jm);
    for (int k = 0; k < want.rows(); ++k)
      if (!(std::fabs(got(k, i) - want(k, i)) <= tol))
        fail(tag, what + " (" + std::to_string(k) + "," + std::to_string(i) + ") got " + num(got(k, i)) + " expected " +
                      num(want(k, i)) + " within " + num(tol) + "\n got " + str(got) + "\n expected " + str(want));
  }
}
static double amax(const MatrixXd& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.; }

// ---------------------------------------------------------------- states
static void state(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int n = st->get_ndx(), nx = st->get_nx();
  if (s.flip()) {
    VectorXd lb = s.vec(nx) - VectorXd::Constant(nx, 1.5), ub = lb + VectorXd::Constant(nx, 3.);
    if (s.flip()) lb[s.integer(0, nx - 1)] = -INF;
    st->set_lb(lb);
    st->set_ub(ub);
    c.label("bounded");
  }
  VectorXd lb = st->get_lb(), ub = st->get_ub();
  StateNumDiffTpl<double> nd(st);
  require(nd.get_nx() == st->get_nx() && nd.get_ndx() == st->get_ndx() && nd.get_nv() == st->get_nv() &&
              nd.get_nq() == st->get_nq(), "state-sizes");
  nearm("state-lb", nd.get_lb(), lb, 0);
  nearm("state-ub", nd.get_ub(), ub, 0);
  require(nd.get_has_limits() == st->get_has_limits(), "state-limits");
  nearm("state-zero", nd.zero(), st->zero(), 0);
  require((int)nd.rand().size() == nx, "state-rand");
  bool isl = dynamic_cast<LieState*>(st.get());
  c.desc << (isl ? "lie" : "vector") << " nx=" << nx;
  c.nontrivial = true;
  int steps = s.integer(1, 3);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    VectorXd x0 = gen_x(s, *st, 1.), x1 = gen_x(s, *st, 1.), dx = s.vec(n, 0.8), o(nx), d(n);
    c.desc << "; x0=" << str(x0.transpose()) << " x1=" << str(x1.transpose()) << " dx=" << str(dx.transpose())
           << " step=" << num(step);
    nd.integrate(x0, dx, o);
    nearm("state-integrate", o, ref_integrate(*st, x0, dx), 1e-12);
    nd.diff(x0, x1, d);
    VectorXd df = ref_diff(*st, x0, x1);
    if (isl && df.head(st->get_nv()).norm() > 2.6) throw Discard();  // close to the cut locus
    nearm("state-diff", d, df, 1e-12);
    MatrixXd A = s.mat(n, n), B = s.mat(n, n), J0 = A, J1 = B;
    auto exact_diff = [&](int which) {
      return [&, which](const VectorXd& x) {
        MatrixXd F = MatrixXd::Zero(n, n), S = F;
        st->Jdiff(which ? x0 : x, which ? x : x1, F, S, both);
        return which ? S : F;
      };
    };
    int comp = s.integer(0, 2);
    Jcomponent jc = comp == 0 ? both : comp == 1 ? first : second;
    nd.Jdiff(x0, x1, J0, J1, jc);
    if (jc != second) check_jac("state-Jdiff-first", J0, exact_diff(0), state_point(*st, x0), step, 4.);
    else nearm("state-Jdiff-untouched", J0, A, 0);
    if (jc != first) check_jac("state-Jdiff-second", J1, exact_diff(1), state_point(*st, x1), step, 4.);
    else nearm("state-Jdiff-untouched", J1, B, 0);
    AssignmentOp op = std::vector<AssignmentOp>{setto, addto, rmfrom}[s.integer(0, 2)];
    J0 = A;
    J1 = B;
    nd.Jintegrate(x0, dx, J0, J1, jc, op);
    auto undo = [&](const MatrixXd& J, const MatrixXd& b) {
      return op == setto ? J : op == addto ? MatrixXd(J - b) : MatrixXd(b - J);
    };
    auto exact_int = [&](int which) {
      return [&, which](const VectorXd& v) {
        MatrixXd F = MatrixXd::Zero(n, n), S = F;
        st->Jintegrate(which ? x0 : v, which ? v : dx, F, S, both, setto);
        return which ? S : F;
      };
    };
    if (jc != second) check_jac("state-Jintegrate-first", undo(J0, A), exact_int(0), state_point(*st, x0), step, 4.);
    else nearm("state-Jintegrate-untouched", J0, A, 0);
    if (jc != first) check_jac("state-Jintegrate-second", undo(J1, B), exact_int(1), vec_point(dx), step, 4.);
    else nearm("state-Jintegrate-untouched", J1, B, 0);
    c.label(op == setto ? "set" : op == addto ? "add" : "remove");
    MatrixXd T0 = A, T1 = A;
    Jcomponent tc = s.flip() ? first : second;
    nd.JintegrateTransport(x0, dx, T0, tc);
    st->JintegrateTransport(x0, dx, T1, tc);
    nearm("state-transport", T0, T1, 1e-5 + 30 * step);
    nearm("wrapped-state-lb", st->get_lb(), lb, 0);
    nearm("wrapped-state-ub", st->get_ub(), ub, 0);
  }
}

// ---------------------------------------------------------------- activations
static void activation(Src& s, Case& c) {
  ActRef ref;
  ref.kind = (ActKind)s.integer(0, NACTS - 1);
  ref.nr = s.integer(1, 5);
  auto m = build_act(s, ref);
  c.label(act_names[ref.kind]);
  ActivationModelNumDiffTpl<double> nd(m);
  require(nd.get_nr() == m->get_nr(), "activation-size");
  require(nd.get_model() == m, "activation-model");
  auto data = nd.createData(), own = m->createData();
  c.desc << act_names[ref.kind] << " nr=" << ref.nr;
  int steps = s.integer(1, 4);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    if (s.chance(1, 4)) mutate_act(s, ref, *m);
    VectorXd r = s.vec(ref.nr, s.flip() ? 1. : 5.);
    if (ref.kind == NORMB && r.norm() < 0.02) r[0] = 0.5 * ref.par;
    c.desc << "; r=" << str(r.transpose()) << " step=" << num(step);
    m->calc(own, r);
    m->calcDiff(own, r);
    double a0 = own->a_value;
    VectorXd A0 = own->Ar;
    nd.calc(data, r);
    near("activation-value", data->a_value, ref.value(r), 1e-11);
    nd.calcDiff(data, r);
    near("activation-value-kept", data->a_value, ref.value(r), 1e-11);
    auto J = [&](const VectorXd& v) {
      MatrixXd g(1, ref.nr);
      for (int i = 0; i < ref.nr; ++i) g(0, i) = ref.grad(v, i);
      return g;
    };
    check_jac("activation-gradient", data->Ar.transpose(), J, vec_point(r), step, std::fabs(a0));
    m->calc(own, r);
    m->calcDiff(own, r);
    require(own->a_value == a0 && same(own->Ar, A0), "wrapped-activation-changed");
    if (A0.norm() > 1e-3) c.nontrivial = true;
    require(throws([&] { nd.calc(data, VectorXd::Zero(ref.nr + 1)); }), "activation-calc-size");
    require(throws([&] { nd.calcDiff(data, VectorXd::Zero(ref.nr + 1)); }), "activation-calcDiff-size");
  }
}

// ---------------------------------------------------------------- residuals, costs, constraints
// A residual that reads its value from the data collector, as the ones of
// multibody models do: only the re-evaluation functions keep it up to date.
struct Shared : Collector {
  VectorXd v;
};
class SharedResidual : public Res {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ResidualModelBase, SharedResidual)
  explicit SharedResidual(const ResRef& r) : Res(r.st, r.nr, r.nu, r.q, r.v, r.u), R(r) {}
  void calc(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>&,
            const Eigen::Ref<const VectorXd>&) override {
    d->r = static_cast<Shared*>(d->shared)->v;
  }
  using Res::calc;
  using Res::calcDiff;
  ResRef R;
};
typedef boost::function<void(const VectorXd&, const VectorXd&)> Reeval;
// With control and without it, in any order; T: a call without control.
struct Visit {
  VectorXd x, u;
  bool T;
};
static Visit gen_visit(Src& s, Case& c, const State& st, int nu) {
  Visit v;
  v.x = gen_x(s, st, 1.);
  v.u = s.vec(nu, 1.5);
  v.T = s.chance(1, 3);
  c.label(v.T ? "without-control" : "with-control");
  c.desc << "; x=" << str(v.x.transpose()) << (v.T ? std::string() : " u=" + str(v.u.transpose()));
  return v;
}
static MatFn res_jac(const ResRef& r, const Visit& v, bool wrt_u) {
  return [&r, &v, wrt_u](const VectorXd& at) {
    MatrixXd Rx, Ru;
    r.jac(wrt_u ? v.x : at, wrt_u ? at : v.u, v.T, Rx, Ru);
    return wrt_u ? Ru : Rx;
  };
}

static void residual(Src& s, Case& c) {
  auto st = gen_state(s, 2, true);
  int nu = s.integer(1, 3);
  ResCase rc = gen_residual(s, st, nu);
  bool shared = !rc.ref.control && s.chance(1, 3);
  Shared col;
  std::shared_ptr<Res> m = shared ? std::shared_ptr<Res>(std::make_shared<SharedResidual>(rc.ref)) : rc.m;
  ResidualModelNumDiffTpl<double> nd(m);
  require(nd.get_nr() == m->get_nr() && nd.get_nu() == m->get_nu() && nd.get_state() == m->get_state(), "residual-sizes");
  require(nd.get_q_dependent() == m->get_q_dependent() && nd.get_v_dependent() == m->get_v_dependent() &&
              nd.get_u_dependent() == m->get_u_dependent(), "residual-dependence");
  require(nd.get_model() == m, "residual-model");
  auto update = [&](const VectorXd& x, const VectorXd& u) { col.v = rc.ref.value(x, u, false); };
  if (shared) nd.set_reevals(std::vector<Reeval>{Reeval(update)}), c.label("reevals");
  c.label(rc.ref.name);
  c.desc << rc.ref.name << " nr=" << rc.ref.nr << " nx=" << st->get_nx();
  auto data = nd.createData(&col);
  int steps = s.integer(1, 4);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    Visit v = gen_visit(s, c, *st, nu);
    update(v.x, v.T ? VectorXd(VectorXd::Zero(nu)) : v.u);
    if (v.T) nd.calc(data, v.x);
    else nd.calc(data, v.x, v.u);
    VectorXd r = rc.ref.value(v.x, v.u, v.T);
    nearm("residual-value", data->r, r, 1e-12);
    if (v.T) nd.calcDiff(data, v.x);
    else nd.calcDiff(data, v.x, v.u);
    nearm("residual-value-kept", data->r, r, 1e-12);
    check_jac("residual-Rx", data->Rx, res_jac(rc.ref, v, false), state_point(*st, v.x), step, amax(r));
    if (!v.T) check_jac("residual-Ru", data->Ru, res_jac(rc.ref, v, true), vec_point(v.u), step, amax(r));
    if (amax(data->Rx) > 1e-3 || amax(data->Ru) > 1e-3) c.nontrivial = true;
  }
}

static void cost(Src& s, Case& c) {
  auto st = gen_state(s, 2, true);
  int nu = s.integer(1, 3);
  CostCase cc = gen_cost(s, st, nu, true);
  Shared col;
  bool shared = !cc.r.control && s.chance(1, 3);
  std::shared_ptr<Cost> m = cc.m;
  if (shared) m = std::make_shared<CostModelResidualTpl<double>>(st, cc.act, std::make_shared<SharedResidual>(cc.r));
  CostModelNumDiffTpl<double> nd(m);
  require(nd.get_nu() == m->get_nu() && nd.get_state() == m->get_state() &&
              nd.get_activation()->get_nr() == m->get_activation()->get_nr(), "cost-sizes");
  auto update = [&](const VectorXd& x, const VectorXd& u) { col.v = cc.r.value(x, u, false); };
  if (shared) nd.set_reevals(std::vector<Reeval>{Reeval(update)}), c.label("reevals");
  c.label(act_names[cc.a.kind]);
  c.desc << act_names[cc.a.kind] << " " << cc.r.name << " nx=" << st->get_nx();
  auto data = nd.createData(&col), own = m->createData(&col);
  int steps = s.integer(1, 4);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    Visit v = gen_visit(s, c, *st, nu);
    VectorXd ue = v.T ? VectorXd(VectorXd::Zero(nu)) : v.u;
    update(v.x, ue);
    CostVal ref = cost_ref(cc, v.x, v.u, v.T);
    if (v.T) nd.calc(data, v.x);
    else nd.calc(data, v.x, v.u);
    near("cost-value", data->cost, ref.cost, 1e-11);
    bool empty = v.T && !cc.r.state_dependent();
    if (!empty) nearm("cost-residual", data->residual->r, cc.r.value(v.x, v.u, v.T), 1e-12);
    if (v.T) nd.calcDiff(data, v.x);
    else nd.calcDiff(data, v.x, v.u);
    near("cost-value-kept", data->cost, ref.cost, 1e-11);
    auto grad = [&](bool wrt_u) {
      return [&, wrt_u](const VectorXd& at) {
        CostVal e = cost_ref(cc, wrt_u ? v.x : at, wrt_u ? at : v.u, v.T);
        return MatrixXd((wrt_u ? e.Lu : e.Lx).transpose());
      };
    };
    check_jac("cost-Lx", data->Lx.transpose(), grad(false), state_point(*st, v.x), step, std::fabs(ref.cost));
    if (!v.T) check_jac("cost-Lu", data->Lu.transpose(), grad(true), vec_point(v.u), step, std::fabs(ref.cost));
    // A wrapped cost always has a residual: its Hessians are the Gauss-Newton ones.
    require(nd.get_with_gauss_approx(), "cost-gauss");
    if (!empty) {
      MatrixXd Rx, Ru;
      cc.r.jac(v.x, v.u, v.T, Rx, Ru);
      double rm = 1 + std::max(amax(Rx), amax(Ru)), am = 1.;
      for (int i = 0; i < cc.r.nr; ++i) am = std::max(am, std::fabs(cc.a.curv(cc.r.value(v.x, v.u, v.T), i)));
      double tol = (1e-5 + 100 * step * std::max(1., v.x.norm() + v.u.norm())) * rm * rm * am;
      nearm("cost-Lxx", data->Lxx, ref.Lxx, tol);
      if (!v.T) {
        nearm("cost-Lxu", data->Lxu, ref.Lxu, tol);
        nearm("cost-Luu", data->Luu, ref.Luu, tol);
      }
    }
    if (ref.Lx.norm() + ref.Lu.norm() > 1e-3) c.nontrivial = true;
    if (!shared) {
      if (v.T) m->calc(own, v.x), m->calcDiff(own, v.x);
      else m->calc(own, v.x, v.u), m->calcDiff(own, v.x, v.u);
      near("wrapped-cost-changed", own->cost, ref.cost, 1e-11);
      nearm("wrapped-cost-changed", own->Lx, ref.Lx, 1e-10);
    }
  }
}

static void constraint(Src& s, Case& c) {
  auto st = gen_state(s, 2, true);
  int nu = s.integer(1, 3);
  ConCase cc = gen_con(s, st, nu);
  Shared col;
  bool shared = !cc.r.control && s.chance(1, 3);
  std::shared_ptr<Con> m = cc.m;
  if (shared) {
    auto r = std::make_shared<SharedResidual>(cc.r);
    if (cc.ineq) m = std::make_shared<ConstraintModelResidualTpl<double>>(st, r, cc.lb, cc.ub, cc.T);
    else m = std::make_shared<ConstraintModelResidualTpl<double>>(st, r, cc.T);
  }
  ConstraintModelNumDiffTpl<double> nd(m);
  require(nd.get_ng() == m->get_ng() && nd.get_nh() == m->get_nh() && nd.get_nu() == m->get_nu() &&
              nd.get_state() == m->get_state() && nd.get_type() == m->get_type(), "constraint-sizes");
  require(nd.get_T_constraint() == m->get_T_constraint(), "constraint-terminal");
  nearm("constraint-lb", nd.get_lb(), m->get_lb(), 0);
  nearm("constraint-ub", nd.get_ub(), m->get_ub(), 0);
  auto update = [&](const VectorXd& x, const VectorXd& u) { col.v = cc.r.value(x, u, false); };
  if (shared) nd.set_reevals(std::vector<Reeval>{Reeval(update)}), c.label("reevals");
  c.label(cc.ineq ? "inequality" : "equality");
  c.desc << (cc.ineq ? "inequality " : "equality ") << cc.r.name << " nr=" << cc.r.nr << " nx=" << st->get_nx();
  auto data = nd.createData(&col);
  VectorXd lb = m->get_lb(), ub = m->get_ub();
  int steps = s.integer(1, 4);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    Visit v = gen_visit(s, c, *st, nu);
    if (v.T && !cc.r.state_dependent()) v.T = false;
    update(v.x, v.T ? VectorXd(VectorXd::Zero(nu)) : v.u);
    VectorXd r = cc.r.value(v.x, v.u, v.T);
    if (v.T) nd.calc(data, v.x);
    else nd.calc(data, v.x, v.u);
    nearm("constraint-value", cc.ineq ? data->g : data->h, r, 1e-12);
    if (v.T) nd.calcDiff(data, v.x);
    else nd.calcDiff(data, v.x, v.u);
    nearm("constraint-value-kept", cc.ineq ? data->g : data->h, r, 1e-12);
    check_jac("constraint-x", cc.ineq ? data->Gx : data->Hx, res_jac(cc.r, v, false), state_point(*st, v.x), step, amax(r));
    if (!v.T)
      check_jac("constraint-u", cc.ineq ? data->Gu : data->Hu, res_jac(cc.r, v, true), vec_point(v.u), step, amax(r));
    require((int)(cc.ineq ? data->Hx.rows() : data->Gx.rows()) == 0, "constraint-other-rows");
    c.nontrivial = true;
    require(throws([&] { nd.calc(data, VectorXd::Zero(st->get_nx() + 1), v.u); }), "constraint-x-size");
    require(throws([&] { nd.calc(data, v.x, VectorXd::Zero(nu + 1)); }), "constraint-u-size");
  }
  nearm("wrapped-constraint-lb", m->get_lb(), lb, 0);
  nearm("wrapped-constraint-ub", m->get_ub(), ub, 0);
}

// ---------------------------------------------------------------- actuations, controls
class SomeActuated : public NlActuation {
 public:
  SomeActuated(const NlActuation& a, const std::vector<bool>& set) : NlActuation(a), set_(set) {}
  void calc(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override {
    NlActuation::calc(d, x, u);
    d->tau_set = set_;
  }
  using NlActuation::calc;
  std::vector<bool> set_;
};
static void actuation(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int nu = s.integer(1, 3), nv = st->get_nv();
  bool linear = s.chance(1, 3);
  auto a = gen_actuation(s, st, nu, linear);
  std::vector<bool> set(nv);
  for (int i = 0; i < nv; ++i) set[i] = s.flip();
  auto m = std::make_shared<SomeActuated>(*a, set);
  ActuationModelNumDiffTpl<double> nd(m);
  require(nd.get_nu() == m->get_nu() && nd.get_state() == m->get_state() && nd.get_model() == m, "actuation-sizes");
  c.desc << (linear ? "linear" : "nonlinear") << " nu=" << nu << " nv=" << nv;
  c.label(linear ? "linear" : "nonlinear");
  auto data = nd.createData(), own = m->createData();
  int steps = s.integer(1, 4);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    Visit v = gen_visit(s, c, *st, nu);
    if (v.T) {
      // Actuations ignore calls without control.
      Actuation& base = nd;
      VectorXd t0 = data->tau;
      MatrixXd x0 = data->dtau_dx, u0 = data->dtau_du;
      base.calc(data, v.x);
      base.calcDiff(data, v.x);
      require(same(data->tau, t0) && same(data->dtau_dx, x0) && same(data->dtau_du, u0), "actuation-without-control");
      continue;
    }
    VectorXd ue = v.u, tau = m->value(v.x, ue);
    nd.calc(data, v.x, v.u);
    nearm("actuation-tau", data->tau, tau, 1e-12);
    require(data->tau_set == set, "actuation-tau-set");
    nd.calcDiff(data, v.x, v.u);
    nearm("actuation-tau-kept", data->tau, tau, 1e-12);
    auto jac = [&](bool wrt_u) {
      return [&, wrt_u](const VectorXd& at) {
        MatrixXd Jx, Ju;
        m->jac(wrt_u ? v.x : at, wrt_u ? at : ue, Jx, Ju);
        return wrt_u ? Ju : Jx;
      };
    };
    check_jac("actuation-x", data->dtau_dx, jac(false), state_point(*st, v.x), step, amax(tau));
    check_jac("actuation-u", data->dtau_du, jac(true), vec_point(v.u), step, amax(tau));
    c.nontrivial = true;
    if (s.chance(1, 3)) {
      VectorXd t = s.vec(nv);
      nd.commands(data, v.x, t);
      m->commands(own, v.x, t);
      nearm("actuation-commands", data->u, own->u, 1e-12);
      m->calc(own, v.x, v.u);
      m->calcDiff(own, v.x, v.u);
      nd.torqueTransform(data, v.x, v.u);
      m->torqueTransform(own, v.x, v.u);
      nearm("actuation-transform", data->Mtau, own->Mtau, 1e-12);
      c.label("commands");
    }
    VectorXd bad = VectorXd::Zero(st->get_nx() + 1);
    require(throws([&] { nd.calc(data, bad, v.u); }) && throws([&] { nd.calc(data, bad); }) &&
                throws([&] { nd.calcDiff(data, bad, v.u); }) && throws([&] { nd.calcDiff(data, bad); }), "actuation-x-size");
    require(throws([&] { nd.calc(data, v.x, VectorXd::Zero(nu + 1)); }), "actuation-u-size");
  }
}

static void control(Src& s, Case& c) {
  int nw = s.integer(1, 4);
  CtrlKind k = make_ctrl(s.integer(0, 3), nw);
  ControlParametrizationModelNumDiffTpl<double> nd(k.m);
  int nu = k.nu();
  require((int)nd.get_nw() == nw && (int)nd.get_nu() == nu, "control-sizes");
  auto data = nd.createData();
  c.label(k.name);
  c.desc << k.name << " nw=" << nw;
  c.nontrivial = true;
  int steps = s.integer(1, 4);
  for (int i = 0; i < steps; ++i) {
    double step = gen_step(s, c, nd);
    double t = s.integer(0, 3) ? s.uni(0., 1.) : (double)s.integer(0, 1);
    VectorXd u = s.vec(nu, 2.);
    c.desc << "; t=" << num(t) << " u=" << str(u.transpose());
    nd.calc(data, t, u);
    VectorXd w = ctrl_value(k, t, u);
    nearm("control-value", data->w, w, 1e-12);
    nd.calcDiff(data, t, u);
    nearm("control-value-kept", data->w, w, 1e-12);
    MatrixXd J = ctrl_jac(k, t);
    double tol = 300 * EPS * (1 + amax(w)) / step + 1e-9;
    nearm("control-jacobian", data->dw_du, J, tol);
    int r = s.integer(1, 4);
    MatrixXd A = s.mat(r, nw), O = s.mat(r, nu), want, got = O;
    AssignmentOp op = std::vector<AssignmentOp>{setto, addto, rmfrom}[s.integer(0, 2)];
    double sg = op == rmfrom ? -1. : 1.;
    want = (op == setto ? MatrixXd(MatrixXd::Zero(r, nu)) : O) + sg * A * J;
    nd.multiplyByJacobian(data, A, got, op);
    nearm("control-multiply", got, want, 10 * tol);
    A = s.mat(nw, r);
    O = s.mat(nu, r);
    got = O;
    want = (op == setto ? MatrixXd(MatrixXd::Zero(nu, r)) : O) + sg * J.transpose() * A;
    nd.multiplyJacobianTransposeBy(data, A, got, op);
    nearm("control-multiply-transpose", got, want, 10 * tol);
    VectorXd wl = s.vec(nw), wu = wl + s.vec(nw).cwiseAbs(), a(nu), b(nu), a0(nu), b0(nu);
    nd.convertBounds(wl, wu, a, b);
    k.m->convertBounds(wl, wu, a0, b0);
    require(same(a, a0) && same(b, b0), "control-bounds");
    auto d2 = nd.createData(), own = k.m->createData();
    double tp = 0.;
    nd.params(d2, tp, wl);
    k.m->params(own, tp, wl);
    nearm("control-params", d2->u, own->u, 0);
  }
}

// ---------------------------------------------------------------- (differential) actions
struct Vals {  // exact values and first derivatives
  double cost;
  VectorXd r, f, g, h;
  VectorXd Lx, Lu;
  MatrixXd Fx, Fu, Gx, Gu, Hx, Hu;
};
// The second derivatives of a cost along a displacement, by central differences.
static void hessians(const std::function<double(const VectorXd&, const VectorXd&)>& l, const State& st, const VectorXd& x,
                     const VectorXd& u, double h, double step, MatrixXd& Lxx, MatrixXd& Lxu, MatrixXd& Luu,
                     double& truncation) {
  int n = st.get_ndx(), nu = u.size();
  auto at = [&](int i, double a, int j, double b) {
    VectorXd d = VectorXd::Zero(n), v = u;
    if (i < n) d[i] += a; else v[i - n] += a;
    if (j < n) d[j] += b; else v[j - n] += b;
    return l(ref_integrate(st, x, d), v);
  };
  MatrixXd H(n + nu, n + nu);
  truncation = 0.;
  double l0 = l(x, u);
  for (int i = 0; i < n + nu; ++i)
    for (int j = i; j < n + nu; ++j) {
      H(i, j) = H(j, i) = (at(i, h, j, h) - at(i, h, j, -h) - at(i, -h, j, h) + at(i, -h, j, -h)) / (4 * h * h);
      double fwd = (at(i, step, j, step) - at(i, step, j, 0.) - at(i, 0., j, step) + l0) / (step * step);
      truncation = std::max(truncation, std::fabs(fwd - H(i, j)));
    }
  Lxx = H.topLeftCorner(n, n);
  Lxu = H.topRightCorner(n, nu);
  Luu = H.bottomRightCorner(nu, nu);
}
template <class D>
static const VectorXd& dyn(const D& d);
template <>
const VectorXd& dyn(const ActionData& d) { return d.xnext; }
template <>
const VectorXd& dyn(const DiffData& d) { return d.xout; }

// M: wrapped model; eval(x,u,T): exact values; xn: dynamics live on the state manifold
template <class ND, class M, class D>
static void actions(Src& s, Case& c, std::shared_ptr<M> m, const std::function<Vals(const VectorXd&, const VectorXd&, bool)>& eval,
                    bool gauss, bool compare_r) {
  auto st = m->get_state();
  int n = st->get_ndx(), nu = m->get_nu();
  if (s.flip() && nu) {
    VectorXd lb = s.vec(nu) - VectorXd::Constant(nu, 1.2), ub = lb + VectorXd::Constant(nu, 3.);
    if (s.flip()) lb[s.integer(0, nu - 1)] = -INF;
    m->set_u_lb(lb);
    m->set_u_ub(ub);
    c.label("u-bounds");
  }
  VectorXd ul = m->get_u_lb(), uu = m->get_u_ub(), gl = m->get_g_lb(), gu = m->get_g_ub();
  ND nd(m, gauss);
  require(nd.get_nu() == m->get_nu() && nd.get_nr() == m->get_nr() && nd.get_ng() == m->get_ng() &&
              nd.get_nh() == m->get_nh() && nd.get_ng_T() == m->get_ng_T() && nd.get_nh_T() == m->get_nh_T() &&
              nd.get_state() == st, "action-sizes");
  nearm("action-u-lb", nd.get_u_lb(), ul, 0);
  nearm("action-u-ub", nd.get_u_ub(), uu, 0);
  nearm("action-g-lb", nd.get_g_lb(), gl, 0);
  nearm("action-g-ub", nd.get_g_ub(), gu, 0);
  require(nd.get_has_control_limits() == m->get_has_control_limits(), "action-limits");
  require(nd.get_with_gauss_approx() == gauss, "action-gauss-flag");
  require(nd.get_model() == m, "action-model");
  std::vector<std::shared_ptr<D>> datas{nd.createData()};
  if (s.chance(1, 4)) datas.push_back(nd.createData());
  auto own = m->createData();
  int steps = s.integer(1, 3);
  for (int k = 0; k < steps; ++k) {
    double step = gen_step(s, c, nd);
    Visit v = gen_visit(s, c, *st, nu);
    auto& d = datas[s.integer(0, datas.size() - 1)];
    Vals e = eval(v.x, v.u, v.T);
    if (v.T) nd.calc(d, v.x);
    else nd.calc(d, v.x, v.u);
    auto values = [&](const std::string& t) {
      near("action-cost" + t, d->cost, e.cost, 1e-10);
      if (!v.T) nearm("action-dynamics" + t, dyn<D>(*d), e.f, 1e-10);
      nearm("action-g" + t, d->g, e.g, 1e-10);
      nearm("action-h" + t, d->h, e.h, 1e-10);
      if (compare_r) nearm("action-r" + t, d->r, e.r, 1e-10);
    };
    values("");
    if (v.T) m->calc(own, v.x);
    else m->calc(own, v.x, v.u);
    nearm("action-r-own", d->r, own->r, 0);
    if (s.chance(1, 6)) continue;
    if (v.T) nd.calcDiff(d, v.x);
    else nd.calcDiff(d, v.x, v.u);
    values("-kept");
    Point px = state_point(*st, v.x), pu = vec_point(v.u);
    auto jac = [&](int which, bool wrt_u) {
      return [&, which, wrt_u](const VectorXd& at) {
        Vals q = eval(wrt_u ? v.x : at, wrt_u ? at : v.u, v.T);
        switch (which) {
          case 0: return wrt_u ? MatrixXd(q.Lu.transpose()) : MatrixXd(q.Lx.transpose());
          case 1: return wrt_u ? q.Fu : q.Fx;
          case 2: return wrt_u ? q.Gu : q.Gx;
          default: return wrt_u ? q.Hu : q.Hx;
        }
      };
    };
    check_jac("action-Lx", d->Lx.transpose(), jac(0, false), px, step, std::fabs(e.cost));
    check_jac("action-Gx", d->Gx, jac(2, false), px, step, amax(e.g));
    check_jac("action-Hx", d->Hx, jac(3, false), px, step, amax(e.h));
    if (!v.T) {
      check_jac("action-Lu", d->Lu.transpose(), jac(0, true), pu, step, std::fabs(e.cost));
      check_jac("action-Fx", d->Fx, jac(1, false), px, step, amax(e.f));
      check_jac("action-Fu", d->Fu, jac(1, true), pu, step, amax(e.f));
      check_jac("action-Gu", d->Gu, jac(2, true), pu, step, amax(e.g));
      check_jac("action-Hu", d->Hu, jac(3, true), pu, step, amax(e.h));
    }
    double norm = std::max({1., px.norm, pu.norm});
    if (gauss) {
      if (compare_r) {
        MatrixXd Rx = fd([&](const VectorXd& dx) { return eval(ref_integrate(*st, v.x, dx), v.u, v.T).r; }, n, 1e-3);
        double rm = 1 + amax(Rx);
        MatrixXd Ru(Rx.rows(), nu);
        if (!v.T) {
          Ru = fd([&](const VectorXd& du) { return eval(v.x, v.u + du, v.T).r; }, nu, 1e-3);
          rm += amax(Ru);
        }
        double tol = (1e-5 + 100 * step * norm) * rm * rm;
        nearm("action-gauss-Lxx", d->Lxx, MatrixXd(Rx.transpose() * Rx), tol);
        if (!v.T) {
          nearm("action-gauss-Lxu", d->Lxu, MatrixXd(Rx.transpose() * Ru), tol);
          nearm("action-gauss-Luu", d->Luu, MatrixXd(Ru.transpose() * Ru), tol);
        }
        c.label("gauss");
      }
    } else if (step < 2e-6) {
      MatrixXd Lxx, Lxu, Luu;
      double hh = std::sqrt(2 * step) * norm, trunc;
      hessians([&](const VectorXd& x, const VectorXd& u) { return eval(x, u, v.T).cost; }, *st, v.x, v.u, 1e-3, hh, Lxx, Lxu, Luu, trunc);
      double sc = 1 + amax(Lxx) + amax(Lxu) + amax(Luu);
      double tol = 4 * trunc + 4 * hh * sc + 1e-4 + 300 * EPS * (1 + std::fabs(e.cost)) / (2 * step);
      auto cmp = [&](const char* t, const MatrixXd& a, const MatrixXd& b) {
        if (a.rows() != b.rows() || a.cols() != b.cols()) fail(t, "shape");
        if (!(amax(a - b) <= tol)) fail(t, "got " + str(a) + " expected " + str(b) + " within " + num(tol));
      };
      cmp("action-Lxx", d->Lxx, Lxx);
      if (!v.T) {
        cmp("action-Lxu", d->Lxu, Lxu);
        cmp("action-Luu", d->Luu, Luu);
      }
      c.label("hessian");
    }
    if (e.Lx.norm() + e.Lu.norm() > 1e-3) c.nontrivial = true;
    // A large step must show in the result.
    if (s.chance(1, 4) && !v.T) {
      double big = 0.2, before = nd.get_disturbance(), worst = 0.;
      for (int i = 0; i < nu; ++i) {
        VectorXd up = v.u;
        double h = big * std::max(1., v.u.norm());
        up[i] += h;
        worst = std::max(worst, std::fabs((eval(v.x, up, false).cost - e.cost) / h - e.Lu[i]));
      }
      nd.set_disturbance(big);
      auto d2 = nd.createData();
      nd.calc(d2, v.x, v.u);
      nd.calcDiff(d2, v.x, v.u);
      if (worst > 1e-2) {
        require(amax(d2->Lu - e.Lu) > 1e-4, "step-without-effect");
        c.label("large-step");
      }
      nd.set_disturbance(before);
    }
    // The wrapped model is as before.
    auto fresh = m->createData();
    if (v.T) m->calc(fresh, v.x), m->calcDiff(fresh, v.x);
    else m->calc(fresh, v.x, v.u), m->calcDiff(fresh, v.x, v.u);
    near("wrapped-action-changed", fresh->cost, e.cost, 1e-10);
    nearm("wrapped-action-changed", fresh->Lx, e.Lx, 1e-9);
    require(same(m->get_u_lb(), ul) && same(m->get_u_ub(), uu), "wrapped-action-bounds");
    VectorXd bx = VectorXd::Zero(st->get_nx() + 1), bu = VectorXd::Zero(nu + 1);
    require(throws([&] { nd.calc(d, bx, v.u); }) && throws([&] { nd.calc(d, bx); }) &&
                throws([&] { nd.calcDiff(d, bx, v.u); }) && throws([&] { nd.calcDiff(d, bx); }), "action-x-size");
    require(throws([&] { nd.calc(d, v.x, bu); }) && throws([&] { nd.calcDiff(d, v.x, bu); }), "action-u-size");
  }
}
static Vals from_eval(const Eval& e) {
  Vals v;
  v.cost = e.cost; v.r = e.r; v.f = e.f; v.g = e.g; v.h = e.h;
  v.Lx = e.Lx; v.Lu = e.Lu; v.Fx = e.Fx; v.Fu = e.Fu;
  v.Gx = e.Gx; v.Gu = e.Gu; v.Hx = e.Hx; v.Hu = e.Hu;
  return v;
}
static ModelSpec gen_spec(Src& s) {
  ModelSpec sp;
  sp.nr = s.integer(2, 4);
  sp.ng = sp.ng_T = s.integer(0, 2);
  sp.nh = sp.nh_T = s.integer(0, 2);
  sp.eps = s.flip() ? 0.3 : 0.;
  sp.reg = 0.1;
  return sp;
}

static void diff_action(Src& s, Case& c) {
  auto st = gen_state(s, 2, true);
  int nu = s.integer(1, 3), kind = s.integer(0, 2);
  bool gauss = s.flip();
  if (kind == 2) {
    auto dc = gen_diffcosts(s, st, nu, true);
    c.label("costs");
    c.desc << "costs nx=" << st->get_nx();
    actions<DifferentialActionModelNumDiffTpl<double>, Diff, DiffData>(
        s, c, dc.m, [=](const VectorXd& x, const VectorXd& u, bool T) { return from_eval(dc.ref(x, u, T)); }, false, false);
    return;
  }
  auto m = gen_nldiff(s, st, nu, gen_spec(s));
  if (m->get_ng() && s.flip()) gen_bounds_g(s, *m), c.label("g-bounds");
  c.label("nonlinear");
  c.desc << "nonlinear nx=" << st->get_nx();
  actions<DifferentialActionModelNumDiffTpl<double>, Diff, DiffData>(
      s, c, m, [=](const VectorXd& x, const VectorXd& u, bool T) { return from_eval(m->F.eval(*st, x, u, T)); }, gauss, true);
}

static Vals action_vals(const NlAction& m, const VectorXd& x, const VectorXd& u, bool T) {
  const State& st = *m.get_state();
  Eval e = m.F.eval(st, x, u, T);
  Vals v = from_eval(e);
  int n = st.get_ndx();
  MatrixXd J0 = MatrixXd::Identity(n, n), J1 = J0;
  if (auto* l = dynamic_cast<const LieState*>(&st)) l->LieState::Jintegrate(x, e.f, J0, J1);
  v.f = T ? x : ref_integrate(st, x, e.f);
  v.Fx = J0 + J1 * e.Fx;
  v.Fu = J1 * e.Fu;
  return v;
}
static void action(Src& s, Case& c) {
  int kind = s.integer(0, 3);
  bool gauss = s.flip();
  typedef ActionModelNumDiffTpl<double> ND;
  if (kind <= 1) {
    auto st = gen_state(s, 2, true);
    int nu = s.integer(1, 3);
    auto m = gen_nlaction(s, st, nu, gen_spec(s));
    if (m->get_ng() && s.flip()) {
      VectorXd lb = s.vec(m->get_ng()) - VectorXd::Constant(m->get_ng(), 1.);
      m->set_g_lb(lb);
      m->set_g_ub(lb + VectorXd::Constant(lb.size(), 2.));
      c.label("g-bounds");
    }
    c.label("nonlinear");
    c.desc << "nonlinear nx=" << st->get_nx();
    actions<ND, Action, ActionData>(
        s, c, m, [=](const VectorXd& x, const VectorXd& u, bool T) { return action_vals(*m, x, u, T); }, gauss, true);
    return;
  }
  if (kind == 2) {
    LQ l = LQ::gen(s, s.integer(1, 4), s.integer(1, 3), s.integer(0, 2), s.integer(0, 2), 0.1);
    auto m = l.model();
    c.label("lqr");
    c.desc << "lqr nx=" << l.A.rows();
    int nx = l.A.rows(), nu = l.B.cols();
    actions<ND, Action, ActionData>(
        s, c, m,
        [=](const VectorXd& x, const VectorXd& u_, bool T) {
          VectorXd u = T ? VectorXd(VectorXd::Zero(nu)) : u_, z(nx + nu);
          z << x, u;
          Vals v;
          v.f = T ? x : VectorXd(l.A * x + l.B * u + l.f);
          v.cost = .5 * x.dot(l.Q * x) + .5 * u.dot(l.R * u) + x.dot(l.N * u) + l.q.dot(x) + l.r.dot(u);
          v.g = l.G * z + l.g;
          v.h = l.H * z + l.h;
          v.Lx = l.Q * x + l.N * u + l.q;
          v.Lu = l.R * u + l.N.transpose() * x + l.r;
          v.Fx = l.A;
          v.Fu = l.B;
          v.Gx = l.G.leftCols(nx);
          v.Gu = l.G.rightCols(nu);
          v.Hx = l.H.leftCols(nx);
          v.Hu = l.H.rightCols(nu);
          return v;
        },
        false, false);
    return;
  }
  // An integrated action of the library: its own derivatives are decided by the
  // checks of the integrators, and are the reference here.
  int nw = s.integer(1, 3), scheme = std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
  DiffCase D = gen_diff(s, c, nw, -1, true, 0);
  if (D.m->get_ng() && s.flip()) gen_bounds_g(s, *D.m), c.label("g-bounds");
  bool wr = !s.chance(1, 4);
  CtrlKind ck = make_ctrl(s.integer(0, 3), nw);
  double dt = s.uni(0.01, 0.5);
  auto m = make_integ(scheme, D.m, ck.m, dt, wr);
  c.label("integrated");
  c.desc << D.name << " scheme=" << scheme << " " << ck.name << " nx=" << D.st->get_nx() << " dt=" << num(dt);
  auto d = m->createData();
  actions<ND, Action, ActionData>(
      s, c, m,
      [=](const VectorXd& x, const VectorXd& u, bool T) {
        Vals v;
        if (T) m->calc(d, x), m->calcDiff(d, x);
        else m->calc(d, x, u), m->calcDiff(d, x, u);
        v.cost = d->cost; v.r = d->r; v.f = d->xnext; v.g = d->g; v.h = d->h;
        v.Lx = d->Lx; v.Lu = d->Lu; v.Fx = d->Fx; v.Fu = d->Fu;
        v.Gx = d->Gx; v.Gu = d->Gu; v.Hx = d->Hx; v.Hu = d->Hu;
        return v;
      },
      gauss && wr && m->get_nr() > 0, wr);
}

int main(int argc, char** argv) {
  Check k("C24",
          "A case wraps a generated model (vector or Lie-group state, activation, residual, cost, constraint, actuation, "
          "control parametrization, differential action, action incl. LQR and integrated ones) in its numdiff class and "
          "visits it at several points with and without control, with default and changed steps, reusing data; values, "
          "first derivatives, Hessians, sizes and bounds are compared with closed formulas, within the truncation and "
          "rounding error of the step computed from those formulas. Non-trivial: a non-zero derivative was compared.");
  k.family("state", 4000, 100000, state);
  k.family("activation", 6000, 200000, activation);
  k.family("residual", 5000, 150000, residual);
  k.family("cost", 5000, 150000, cost);
  k.family("constraint", 5000, 150000, constraint);
  k.family("actuation", 4000, 100000, actuation);
  k.family("control", 5000, 100000, control);
  k.family("diff-action", 3000, 80000, diff_action);
  k.family("action", 3000, 80000, action);
  k.assume("the second derivative of a wrapped activation is not compared (it is documented as an approximation)");
  k.assume("without the Gauss-Newton approximation, Hessians are computed in builds with NDEBUG only; such a build is used");
  k.assume("activations of wrapped costs are smooth");
  return k.main(argc, argv);
}
