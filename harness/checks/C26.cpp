// C26: casting to single precision and back preserves models.
// USES_FLOAT_LIB
#include "common/nodes.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/multibody/cop-support.hpp"
#include "crocoddyl/multibody/friction-cone.hpp"
#include "crocoddyl/multibody/wrench-cone.hpp"
using namespace vf;
using namespace crocoddyl;
template <class S> using Vec = Eigen::Matrix<S, -1, 1>;
template <class S> using Mat = Eigen::Matrix<S, -1, -1>;

// ---- models of our own that can be cast (the library's residuals on the
// state need a multibody model)
template <class S>
struct Affine {  // A [x; u] + a + eps sin(W [x; u])
  Mat<S> A, W;
  Vec<S> a;
  S eps;
  Vec<S> operator()(const Vec<S>& z) const {
    return A * z + a + eps * (W * z).array().sin().matrix();
  }
  Mat<S> jac(const Vec<S>& z) const {
    return A + eps * (W * z).array().cos().matrix().asDiagonal() * W;
  }
  template <class N>
  Affine<N> cast() const {
    return Affine<N>{A.template cast<N>(), W.template cast<N>(), a.template cast<N>(), (N)eps};
  }
};
static Affine<double> gen_affine(Src& s, int r, int n) {
  return Affine<double>{s.mat(r, n), s.mat(r, n), s.vec(r), s.flip() ? 0.3 : 0.};
}
template <class S>
class TRes : public ResidualModelAbstractTpl<S> {
 public:
  CROCODDYL_DERIVED_CAST(ResidualModelBase, TRes)
  typedef ResidualModelAbstractTpl<S> Base;
  typedef S Scalar;
  TRes(std::shared_ptr<StateAbstractTpl<S>> st, const Affine<S>& f_, int nu)
      : Base(st, f_.a.size(), nu, true, true, true), f(f_) {}
  Vec<S> in(const Vec<S>& x, const Vec<S>& u) const {
    Vec<S> z(x.size() + u.size());
    z << x, u;
    return z;
  }
  void calc(const std::shared_ptr<ResidualDataAbstractTpl<S>>& d, const Eigen::Ref<const Vec<S>>& x,
            const Eigen::Ref<const Vec<S>>& u) override {
    d->r = f(in(x, u));
  }
  void calcDiff(const std::shared_ptr<ResidualDataAbstractTpl<S>>& d, const Eigen::Ref<const Vec<S>>& x,
                const Eigen::Ref<const Vec<S>>& u) override {
    Mat<S> J = f.jac(in(x, u));
    d->Rx = J.leftCols(x.size());
    d->Ru = J.rightCols(u.size());
  }
  using Base::calc;
  using Base::calcDiff;
  template <class N>
  TRes<N> cast() const {
    return TRes<N>(this->state_->template cast<N>(), f.template cast<N>(), this->nu_);
  }
  Affine<S> f;
};
template <class S>
class TActuation : public ActuationModelAbstractTpl<S> {
 public:
  CROCODDYL_DERIVED_CAST(ActuationModelBase, TActuation)
  typedef ActuationModelAbstractTpl<S> Base;
  typedef S Scalar;
  typedef std::shared_ptr<ActuationDataAbstractTpl<S>> D;
  TActuation(std::shared_ptr<StateAbstractTpl<S>> st, const Mat<S>& B_) : Base(st, B_.cols()), B(B_) {}
  void calc(const D& d, const Eigen::Ref<const Vec<S>>&, const Eigen::Ref<const Vec<S>>& u) override { d->tau = B * u; }
  void calcDiff(const D& d, const Eigen::Ref<const Vec<S>>&, const Eigen::Ref<const Vec<S>>&) override {
    d->dtau_du = B;
  }
  void commands(const D& d, const Eigen::Ref<const Vec<S>>&, const Eigen::Ref<const Vec<S>>& tau) override {
    d->u = B.transpose() * tau;
  }
  using Base::calc;
  using Base::calcDiff;
  template <class N>
  TActuation<N> cast() const {
    return TActuation<N>(this->state_->template cast<N>(), B.template cast<N>());
  }
  Mat<S> B;
};
// a = f([x; u]) with the library's cost sum and constraint manager.
template <class S>
class TDiff : public DifferentialActionModelAbstractTpl<S> {
 public:
  CROCODDYL_DERIVED_CAST(DifferentialActionModelBase, TDiff)
  typedef DifferentialActionModelAbstractTpl<S> Base;
  typedef DifferentialActionDataAbstractTpl<S> BData;
  typedef S Scalar;
  struct Data : BData {
    template <template <typename Scalar> class Model>
    explicit Data(Model<S>* const m) : BData(m) {}
    DataCollectorAbstractTpl<S> shared;
    std::shared_ptr<CostDataSumTpl<S>> costs;
    std::shared_ptr<ConstraintDataManagerTpl<S>> cons;
  };
  TDiff(std::shared_ptr<StateAbstractTpl<S>> st, const Affine<S>& f_, int nu, std::shared_ptr<CostModelSumTpl<S>> c,
        std::shared_ptr<ConstraintModelManagerTpl<S>> k)
      : Base(st, nu, c->get_nr(), k->get_ng(), k->get_nh(), k->get_ng_T(), k->get_nh_T()), f(f_), costs(c), cons(k) {}
  Vec<S> in(const Vec<S>& x, const Vec<S>& u) const {
    Vec<S> z(x.size() + u.size());
    z << x, u;
    return z;
  }
  void calc(const std::shared_ptr<BData>& b, const Eigen::Ref<const Vec<S>>& x,
            const Eigen::Ref<const Vec<S>>& u) override {
    auto* d = static_cast<Data*>(b.get());
    d->xout = f(in(x, u));
    costs->calc(d->costs, x, u);
    d->cost = d->costs->cost;
    d->r.setConstant(S(1) + x[0]);  // what integrated models copy if asked to
    d->cons->resize(this, d);
    cons->calc(d->cons, x, u);
  }
  void calc(const std::shared_ptr<BData>& b, const Eigen::Ref<const Vec<S>>& x) override {
    auto* d = static_cast<Data*>(b.get());
    costs->calc(d->costs, x);
    d->cost = d->costs->cost;
    d->cons->resize(this, d, false);
    cons->calc(d->cons, x);
  }
  void calcDiff(const std::shared_ptr<BData>& b, const Eigen::Ref<const Vec<S>>& x,
                const Eigen::Ref<const Vec<S>>& u) override {
    auto* d = static_cast<Data*>(b.get());
    Mat<S> J = f.jac(in(x, u));
    d->Fx = J.leftCols(x.size());
    d->Fu = J.rightCols(u.size());
    costs->calcDiff(d->costs, x, u);
    cons->calcDiff(d->cons, x, u);
  }
  void calcDiff(const std::shared_ptr<BData>& b, const Eigen::Ref<const Vec<S>>& x) override {
    auto* d = static_cast<Data*>(b.get());
    costs->calcDiff(d->costs, x);
    cons->calcDiff(d->cons, x);
  }
  std::shared_ptr<BData> createData() override {
    auto d = std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
    d->costs = costs->createData(&d->shared);
    d->cons = cons->createData(&d->shared);
    d->costs->shareMemory(d.get());
    d->cons->shareMemory(d.get());
    return d;
  }
  bool checkData(const std::shared_ptr<BData>& d) override { return std::dynamic_pointer_cast<Data>(d) != NULL; }
  std::size_t get_ng() const override { return cons->get_ng(); }
  std::size_t get_nh() const override { return cons->get_nh(); }
  std::size_t get_ng_T() const override { return cons->get_ng_T(); }
  std::size_t get_nh_T() const override { return cons->get_nh_T(); }
  const Vec<S>& get_g_lb() const override { return cons->get_lb(); }
  const Vec<S>& get_g_ub() const override { return cons->get_ub(); }
  template <class N>
  TDiff<N> cast() const {
    TDiff<N> r(this->state_->template cast<N>(), f.template cast<N>(), this->nu_,
               std::make_shared<CostModelSumTpl<N>>(costs->template cast<N>()),
               std::make_shared<ConstraintModelManagerTpl<N>>(cons->template cast<N>()));
    r.set_u_lb(this->u_lb_.template cast<N>());
    r.set_u_ub(this->u_ub_.template cast<N>());
    return r;
  }
  Affine<S> f;
  std::shared_ptr<CostModelSumTpl<S>> costs;
  std::shared_ptr<ConstraintModelManagerTpl<S>> cons;
};

// ---- what is observed of an object
struct Out {
  std::vector<std::pair<std::string, MatrixXd>> v;
  std::string text;  // kinds and names
  template <class D>
  void add(const std::string& n, const Eigen::MatrixBase<D>& m) { v.emplace_back(n, m.template cast<double>()); }
  void add(const std::string& n, double d) { v.emplace_back(n, MatrixXd::Constant(1, 1, d)); }
  void say(const std::string& t) { text += t + ";"; }
};
// Magnitudes only the scalar type limits: "no bound".
template <class S>
static Mat<double> bound(const Vec<S>& b) {
  Mat<double> r(b.size(), 1);
  for (int i = 0; i < b.size(); ++i)
    r(i) = std::fabs(b[i]) >= std::numeric_limits<S>::max() ? (b[i] > 0 ? INF : -INF) : (double)b[i];
  return r;
}
// The points at which an object is evaluated.
struct Pt {
  VectorXd x, u, x2, dx, r, w;
  double t;
  bool diff = true;  // derivatives too
};
template <class S>
static void see(Out& c, Out& e, const StateAbstractTpl<S>& m, const Pt& p) {
  c.say(dynamic_cast<const StateVectorTpl<S>*>(&m) ? "vector" : dynamic_cast<const StateNumDiffTpl<S>*>(&m) ? "numdiff" : "?");
  c.add("nx", m.get_nx());
  c.add("ndx", m.get_ndx());
  c.add("nq", m.get_nq());
  c.add("nv", m.get_nv());
  c.add("state lb", bound<S>(m.get_lb()));
  c.add("state ub", bound<S>(m.get_ub()));
  c.add("has_limits", m.get_has_limits());
  if (!p.x.size()) return;
  Vec<S> o = m.zero(), d = Vec<S>::Zero(m.get_ndx());
  Vec<S> x = p.x.template cast<S>(), x2 = p.x2.template cast<S>(), dx = p.dx.template cast<S>();
  c.add("zero", o);
  m.integrate(x, dx, o);
  e.add("integrate", o);
  m.diff(x, x2, d);
  e.add("diff", d);
}
template <class S>
static void see(Out& c, Out& e, ControlParametrizationModelAbstractTpl<S>& m, const Pt& p, bool eval = true) {
  c.say(dynamic_cast<ControlParametrizationModelPolyZeroTpl<S>*>(&m)    ? "zero"
        : dynamic_cast<ControlParametrizationModelPolyOneTpl<S>*>(&m)   ? "one"
        : dynamic_cast<ControlParametrizationModelPolyTwoRKTpl<S>*>(&m) ? "two"
        : dynamic_cast<ControlParametrizationModelNumDiffTpl<S>*>(&m)   ? "numdiff"
                                                                        : "?");
  c.add("nw", m.get_nw());
  c.add("ctrl nu", m.get_nu());
  if (!eval) return;
  auto d = m.createData();
  Vec<S> u = p.u.head(m.get_nu()).template cast<S>();
  m.calc(d, (S)p.t, u);
  e.add("w", d->w);
  if (p.diff) m.calcDiff(d, (S)p.t, u), e.add("dw_du", d->dw_du);
  Vec<S> a(m.get_nu()), b(m.get_nu());
  m.convertBounds(p.w.head(m.get_nw()).template cast<S>() * S(-1), p.w.head(m.get_nw()).template cast<S>(), a, b);
  e.add("convertBounds", a);
  e.add("convertBounds", b);
}
template <class S>
static void see(Out& c, Out& e, ActivationModelAbstractTpl<S>& m, const Pt& p) {
  c.add("nr", m.get_nr());
  if (auto* a = dynamic_cast<ActivationModelQuadTpl<S>*>(&m)) c.say("quad");
  if (auto* a = dynamic_cast<ActivationModelSmooth1NormTpl<S>*>(&m)) c.say("s1");
  if (auto* a = dynamic_cast<ActivationModelSmooth2NormTpl<S>*>(&m)) c.say("s2");
  if (auto* a = dynamic_cast<ActivationModelWeightedQuadTpl<S>*>(&m)) c.say("wquad"), c.add("weights", a->get_weights());
  if (auto* a = dynamic_cast<ActivationModelQuadFlatExpTpl<S>*>(&m)) c.say("exp"), c.add("alpha", a->get_alpha());
  if (auto* a = dynamic_cast<ActivationModelQuadFlatLogTpl<S>*>(&m)) c.say("log"), c.add("alpha", a->get_alpha());
  if (auto* a = dynamic_cast<ActivationModel2NormBarrierTpl<S>*>(&m)) c.say("2norm"), c.add("alpha", a->get_alpha());
  auto bounds = [&](const ActivationBoundsTpl<S>& b) {
    c.add("act lb", bound<S>(b.lb));
    c.add("act ub", bound<S>(b.ub));
    c.add("beta", b.beta);
  };
  if (auto* a = dynamic_cast<ActivationModelQuadraticBarrierTpl<S>*>(&m)) c.say("barrier"), bounds(a->get_bounds());
  if (auto* a = dynamic_cast<ActivationModelWeightedQuadraticBarrierTpl<S>*>(&m))
    c.say("wbarrier"), bounds(a->get_bounds()), c.add("weights", a->get_weights());
  if (p.r.size() < (int)m.get_nr()) return;
  auto d = m.createData();
  Vec<S> r = p.r.head(m.get_nr()).template cast<S>();
  m.calc(d, r);
  m.calcDiff(d, r);
  e.add("a", d->a_value);
  e.add("Ar", d->Ar);
  e.add("Arr", Mat<S>(d->Arr));
}
template <class S>
struct Shared {
  std::shared_ptr<JointDataAbstractTpl<S>> j;
  std::unique_ptr<DataCollectorAbstractTpl<S>> c;
};
// A collector with joint data that the library's residuals read.
template <class S>
static Shared<S> collector(const ResidualModelAbstractTpl<S>& m, const Pt& p) {
  Shared<S> h;
  auto st = m.get_state();
  auto act = std::make_shared<TActuation<S>>(st, Mat<S>::Ones(st->get_nv(), m.get_nu()));
  h.j = std::make_shared<JointDataAbstractTpl<S>>(st, act, m.get_nu());
  h.j->tau.setConstant((S)p.x.sum());
  h.j->a.setConstant((S)p.u.sum());
  h.j->dtau_du.setConstant(S(0.5));
  h.j->dtau_dx.setConstant(S(0.25));
  h.j->da_du.setConstant(S(0.75));
  h.j->da_dx.setConstant(S(1.25));
  h.c.reset(new DataCollectorJointTpl<S>(h.j));
  return h;
}
template <class S>
static void see(Out& c, Out& e, ResidualModelAbstractTpl<S>& m, const Pt& p, bool eval = true) {
  see(c, e, *m.get_state(), Pt());
  c.add("res nr", m.get_nr());
  c.add("res nu", m.get_nu());
  c.add("deps", m.get_q_dependent() + 2 * m.get_v_dependent() + 4 * m.get_u_dependent());
  if (auto* a = dynamic_cast<TRes<S>*>(&m)) c.say("own");
  if (auto* a = dynamic_cast<ResidualModelControlTpl<S>*>(&m)) c.say("control"), c.add("ref", a->get_reference());
  if (auto* a = dynamic_cast<ResidualModelJointEffortTpl<S>*>(&m)) c.say("effort"), c.add("ref", a->get_reference());
  if (auto* a = dynamic_cast<ResidualModelJointAccelerationTpl<S>*>(&m))
    c.say("acceleration"), c.add("ref", a->get_reference());
  if (!eval) return;
  auto h = collector<S>(m, p);
  auto d = m.createData(h.c.get());
  Vec<S> x = p.x.template cast<S>(), u = p.u.template cast<S>();
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  e.add("r", d->r);
  e.add("Rx", d->Rx);
  e.add("Ru", d->Ru);
  m.calc(d, x);
  e.add("r_T", d->r);
}
template <class S>
static void see(Out& c, Out& e, CostModelAbstractTpl<S>& m, const Pt& p, bool eval = true) {
  c.say(dynamic_cast<CostModelResidualTpl<S>*>(&m) ? "cost" : dynamic_cast<CostModelNumDiffTpl<S>*>(&m) ? "numdiff-cost" : "?");
  c.add("cost nu", m.get_nu());
  see(c, e, *m.get_state(), Pt());
  see(c, e, *m.get_activation(), Pt());
  see(c, e, *m.get_residual(), p, false);
  if (!eval) return;
  auto h = collector<S>(*m.get_residual(), p);
  auto d = m.createData(h.c.get());
  Vec<S> x = p.x.template cast<S>(), u = p.u.template cast<S>();
  m.calc(d, x, u);
  e.add("cost", d->cost);
  if (p.diff) {
    m.calcDiff(d, x, u);
    e.add("Lx", d->Lx);
    e.add("Lu", d->Lu);
    e.add("Lxx", d->Lxx);
    e.add("Lxu", d->Lxu);
    e.add("Luu", d->Luu);
  }
  m.calc(d, x);
  e.add("cost_T", d->cost);
}
template <class S>
static void see(Out& c, Out& e, ConstraintModelAbstractTpl<S>& m, const Pt& p, bool eval = true) {
  c.say(dynamic_cast<ConstraintModelResidualTpl<S>*>(&m) ? "constraint" : "?");
  c.add("con nu", m.get_nu());
  c.add("con ng", m.get_ng());
  c.add("con nh", m.get_nh());
  c.add("con T", m.get_T_constraint());
  c.add("con type", (int)m.get_type());
  c.add("con lb", bound<S>(m.get_lb()));
  c.add("con ub", bound<S>(m.get_ub()));
  see(c, e, *m.get_state(), Pt());
  see(c, e, *m.get_residual(), p, false);
  if (!eval) return;
  auto h = collector<S>(*m.get_residual(), p);
  auto d = m.createData(h.c.get());
  Vec<S> x = p.x.template cast<S>(), u = p.u.template cast<S>();
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  e.add("g", d->g);
  e.add("h", d->h);
  e.add("Gx", d->Gx);
  e.add("Gu", d->Gu);
  e.add("Hx", d->Hx);
  e.add("Hu", d->Hu);
}
template <class S>
static void see(Out& c, Out& e, CostModelSumTpl<S>& m, const Pt& p, bool eval = true) {
  c.say("sum");
  c.add("sum nu", m.get_nu());
  c.add("sum nr", m.get_nr());
  c.add("sum nr_total", m.get_nr_total());
  see(c, e, *m.get_state(), Pt());
  for (auto& n : m.get_active_set()) c.say("+" + n);
  for (auto& n : m.get_inactive_set()) c.say("-" + n);
  for (auto& i : m.get_costs()) {
    c.say(i.first + "=" + i.second->name);
    c.add("weight", i.second->weight);
    c.add("active", i.second->active);
    see(c, e, *i.second->cost, p, false);
  }
  if (!eval) return;
  DataCollectorAbstractTpl<S> col;
  auto d = m.createData(&col);
  Vec<S> x = p.x.template cast<S>(), u = p.u.template cast<S>();
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  e.add("cost", d->cost);
  e.add("Lx", d->Lx);
  e.add("Lu", d->Lu);
  e.add("Lxx", d->Lxx);
  e.add("Lxu", d->Lxu);
  e.add("Luu", d->Luu);
}
template <class S>
static void see(Out& c, Out& e, ConstraintModelManagerTpl<S>& m, const Pt& p, bool eval = true) {
  c.say("manager");
  c.add("man nu", m.get_nu());
  c.add("man ng", m.get_ng());
  c.add("man nh", m.get_nh());
  c.add("man ng_T", m.get_ng_T());
  c.add("man nh_T", m.get_nh_T());
  c.add("man lb", bound<S>(m.get_lb()));
  c.add("man ub", bound<S>(m.get_ub()));
  see(c, e, *m.get_state(), Pt());
  for (auto& n : m.get_active_set()) c.say("+" + n);
  for (auto& n : m.get_inactive_set()) c.say("-" + n);
  for (auto& i : m.get_constraints()) {
    c.say(i.first + "=" + i.second->name);
    c.add("active", i.second->active);
    see(c, e, *i.second->constraint, p, false);
  }
  if (!eval) return;
  DataCollectorAbstractTpl<S> col;
  auto d = m.createData(&col);
  Vec<S> x = p.x.template cast<S>(), u = p.u.template cast<S>();
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  e.add("g", d->g);
  e.add("h", d->h);
  e.add("Gx", d->Gx);
  e.add("Hu", d->Hu);
}
template <class S>
static void see(Out& c, Out& e, ActuationModelAbstractTpl<S>& m, const Pt& p) {
  c.add("act nu", m.get_nu());
  see(c, e, *m.get_state(), Pt());
  c.say(dynamic_cast<TActuation<S>*>(&m) ? "own" : dynamic_cast<ActuationSquashingModelTpl<S>*>(&m) ? "squashing" : "?");
  if (auto* a = dynamic_cast<ActuationSquashingModelTpl<S>*>(&m)) {
    see(c, e, *a->get_actuation(), p);
    auto q = std::dynamic_pointer_cast<SquashingModelSmoothSatTpl<S>>(a->get_squashing());
    c.say(q ? "sat" : "?");
    c.add("ns", q->get_ns());
    c.add("smooth", q->get_smooth());
    c.add("s_lb", q->get_s_lb());
    c.add("s_ub", q->get_s_ub());
  }
  auto d = m.createData();
  Vec<S> x = p.x.template cast<S>(), u = p.u.template cast<S>();
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  e.add("tau", d->tau);
  e.add("dtau_dx", d->dtau_dx);
  e.add("dtau_du", d->dtau_du);
}
template <class M, class D>
static void evals(Out& e, M& m, D& d, bool T, bool diff) {
  e.add("cost", d.cost);
  int ng = T ? m.get_ng_T() : m.get_ng(), nh = T ? m.get_nh_T() : m.get_nh();
  e.add("g", d.g.head(ng));
  e.add("h", d.h.head(nh));
  if (!diff) return;
  e.add("Lx", d.Lx);
  e.add("Lxx", d.Lxx);
  e.add("Gx", d.Gx.topRows(ng));
  e.add("Hx", d.Hx.topRows(nh));
  if (T) return;
  e.add("Fx", d.Fx);
  e.add("Fu", d.Fu);
  e.add("Lu", d.Lu);
  e.add("Lxu", d.Lxu);
  e.add("Luu", d.Luu);
  e.add("Gu", d.Gu.topRows(ng));
  e.add("Hu", d.Hu.topRows(nh));
}
template <class S, class M>
static void dims(Out& c, M& m) {
  c.add("nu", m.get_nu());
  c.add("nr", m.get_nr());
  c.add("ng", m.get_ng());
  c.add("nh", m.get_nh());
  c.add("ng_T", m.get_ng_T());
  c.add("nh_T", m.get_nh_T());
  c.add("g_lb", bound<S>(m.get_g_lb()));
  c.add("g_ub", bound<S>(m.get_g_ub()));
  c.add("u_lb", bound<S>(m.get_u_lb()));
  c.add("u_ub", bound<S>(m.get_u_ub()));
  c.add("limited", m.get_has_control_limits());
}
template <class S>
static void see(Out& c, Out& e, DifferentialActionModelAbstractTpl<S>& m, const Pt& p, bool eval = true) {
  dims<S>(c, m);
  see(c, e, *m.get_state(), Pt());
  if (auto* a = dynamic_cast<DifferentialActionModelLQRTpl<S>*>(&m)) {
    c.say("dlqr");
    c.add("Aq", a->get_Aq());
    c.add("Av", a->get_Av());
    c.add("B", a->get_B());
    c.add("f", a->get_f());
    c.add("Q", a->get_Q());
    c.add("R", a->get_R());
    c.add("N", a->get_N());
    c.add("G", a->get_G());
    c.add("H", a->get_H());
    c.add("q", a->get_q());
    c.add("r", a->get_r());
    c.add("g", a->get_g());
    c.add("h", a->get_h());
  }
  if (auto* a = dynamic_cast<TDiff<S>*>(&m)) {
    c.say("own");
    see(c, e, *a->costs, p, false);
    see(c, e, *a->cons, p, false);
  }
  if (auto* a = dynamic_cast<DifferentialActionModelNumDiffTpl<S>*>(&m)) {
    c.say("numdiff");
    c.add("gauss", a->get_with_gauss_approx());
    see(c, e, *a->get_model(), p, false);
  }
  if (!eval) return;
  auto d = m.createData();
  Vec<S> x = p.x.template cast<S>(), u = p.u.head(m.get_nu()).template cast<S>();
  // Constraint managers keep the bounds of the last evaluated kind of node.
  m.calc(d, x);
  if (p.diff) m.calcDiff(d, x);
  evals(e, m, *d, true, p.diff);
  m.calc(d, x, u);
  e.add("xout", d->xout);
  if (p.diff) m.calcDiff(d, x, u);
  evals(e, m, *d, false, p.diff);
}
template <class S>
static void see(Out& c, Out& e, ActionModelAbstractTpl<S>& m, const Pt& p, bool eval = true) {
  dims<S>(c, m);
  see(c, e, *m.get_state(), Pt());
  if (auto* a = dynamic_cast<ActionModelLQRTpl<S>*>(&m)) {
    c.say("lqr");
    c.add("A", a->get_A());
    c.add("B", a->get_B());
    c.add("f", a->get_f());
    c.add("Q", a->get_Q());
    c.add("R", a->get_R());
    c.add("N", a->get_N());
    c.add("G", a->get_G());
    c.add("H", a->get_H());
    c.add("q", a->get_q());
    c.add("r", a->get_r());
    c.add("g", a->get_g());
    c.add("h", a->get_h());
  }
  if (auto* a = dynamic_cast<ActionModelUnicycleTpl<S>*>(&m)) {
    c.say("unicycle");
    c.add("dt", a->get_dt());
    c.add("weights", a->get_cost_weights());
  }
  auto* in = dynamic_cast<IntegratedActionModelAbstractTpl<S>*>(&m);
  if (in) {
    c.say(dynamic_cast<IntegratedActionModelEulerTpl<S>*>(&m) ? "euler" : "rk");
    if (auto* a = dynamic_cast<IntegratedActionModelRKTpl<S>*>(&m)) c.add("stages", a->get_ni());
    c.add("dt", in->get_dt());
    see(c, e, *in->get_differential(), p, false);
    see(c, e, *in->get_control(), p, false);
  }
  if (auto* a = dynamic_cast<ActionModelNumDiffTpl<S>*>(&m)) {
    c.say("numdiff");
    c.add("gauss", a->get_with_gauss_approx());
    see(c, e, *a->get_model(), p, false);
  }
  if (!eval) return;
  auto d = m.createData();
  Vec<S> x = p.x.template cast<S>(), u = p.u.head(m.get_nu()).template cast<S>();
  m.calc(d, x);
  e.add("xnext_T", d->xnext);
  if (p.diff) m.calcDiff(d, x);
  evals(e, m, *d, true, p.diff);
  d->r.setZero();
  m.calc(d, x, u);
  e.add("xnext", d->xnext);
  e.add("r", d->r);  // zero unless the model copies its cost residual
  if (p.diff) m.calcDiff(d, x, u);
  evals(e, m, *d, false, p.diff);
}

// ---- comparison. tol < 0: bitwise.
static void compare(const std::string& tag, const Out& got, const Out& want, double tol, bool entrywise) {
  require(got.text == want.text, tag, "kinds and names: " + got.text + " expected " + want.text);
  require(got.v.size() == want.v.size(), tag, "different content");
  for (std::size_t i = 0; i < got.v.size(); ++i) {
    const MatrixXd &g = got.v[i].second, &w = want.v[i].second;
    const std::string& n = want.v[i].first;
    require(got.v[i].first == n && g.rows() == w.rows() && g.cols() == w.cols(), tag, n + " size");
    if (!entrywise && tol > 0) {
      nearm(tag, g, w, tol, n);
      continue;
    }
    for (int k = 0; k < g.size(); ++k) {
      double a = g.data()[k], b = w.data()[k];
      if (a == b || (a != a && b != b)) continue;
      if (tol < 0 || !(std::fabs(a - b) <= tol * std::fabs(b) + 1e-37))
        fail(tag, n + " got " + num(a) + " expected " + num(b));
    }
  }
}
static const double CFG = 1.3e-7, EVAL = 2e-3;
// Second derivatives of barriers jump where a residual reaches a bound, which
// rounding may move: a difference must persist close by.
template <class F>
static void compare_evals(Pt p, F f) {
  for (int i = 0;; ++i) {
    try {
      return f(p);
    } catch (const Failure&) {
      if (i == 2) throw;
    }
    for (VectorXd* v : {&p.x, &p.x2, &p.dx, &p.u, &p.r}) {
      for (int k = 0; k < v->size(); ++k) (*v)[k] += 1e-4 * std::sin(1. + k + 10 * i);
      *v = v->cast<float>().cast<double>();
    }
  }
}
// The original against what casts of it give. M: template of the base class.
template <template <class> class M>
static void roundtrip(const std::string& name, std::shared_ptr<M<double>> m, const Pt& p) {
  Out c0, e0, c1, e1;
  see(c0, e0, *m, p);
  auto f = m->template cast<float>();
  auto b = f->template cast<double>();
  auto same_kind = m->template cast<double>();
  see(c1, e1, *m, p);
  compare("original", c1, c0, -1, true);
  compare("original", e1, e0, -1, true);
  Out cf, ef, cb, eb, cd, ed;
  see(cf, ef, *f, p);
  see(cb, eb, *b, p);
  see(cd, ed, *same_kind, p);
  compare("same-scalar", cd, c0, -1, true);
  compare("same-scalar", ed, e0, 1e-12, false);
  compare("to-float", cf, c0, CFG, true);
  compare("to-double", cb, c0, CFG, true);
  // The single-precision evaluation loses digits; the evaluation of the model
  // cast back does not.
  compare_evals(p, [&](const Pt& q) {
    Out k, e0, ef, eb;
    see(k, e0, *m, q);
    see(k, ef, *f, q);
    see(k, eb, *b, q);
    compare("float-evaluation", ef, e0, EVAL, false);
    compare("evaluation", eb, e0, 2e-5, false);
  });
  // Casting back and forth again gives exactly the same.
  auto b2 = b->template cast<float>()->template cast<double>();
  Out c2, e2;
  see(c2, e2, *b2, p);
  compare("idempotent", c2, cb, -1, true);
  compare("idempotent", e2, eb, 1e-12, false);
}
// Classes without a virtual cast.
template <class A>
static void roundtrip_val(const A& m, const Pt& p) {
  Out c0, e0, c1, e1, cb, eb, cf, ef;
  A& a = const_cast<A&>(m);
  see(c0, e0, a, p);
  auto f = m.template cast<float>();
  auto b = f.template cast<double>();
  see(c1, e1, a, p);
  compare("original", c1, c0, -1, true);
  compare("original", e1, e0, -1, true);
  see(cf, ef, f, p);
  see(cb, eb, b, p);
  compare("to-float", cf, c0, CFG, true);
  compare("to-double", cb, c0, CFG, true);
  compare_evals(p, [&](const Pt& q) {
    Out k, e0, ef, eb;
    see(k, e0, a, q);
    see(k, ef, f, q);
    see(k, eb, b, q);
    compare("float-evaluation", ef, e0, EVAL, false);
    compare("evaluation", eb, e0, 2e-5, false);
  });
}

// ---- generators
typedef std::shared_ptr<State> StP;
static Pt gen_pt(Src& s, const State& st, int nu) {
  Pt p;
  p.x = gen_x(s, st, 1.);
  p.x2 = gen_x(s, st, 1.);
  p.dx = s.vec(st.get_ndx());
  p.u = s.vec(nu, 1.5);
  p.r = s.vec(6, 2.);
  p.w = s.vec(nu).cwiseAbs();
  p.t = s.pick(std::vector<double>{0., 0.5, 1., 0.25});
  // The points are representable, so that both precisions evaluate the same.
  for (VectorXd* v : {&p.x, &p.x2, &p.dx, &p.u, &p.r, &p.w}) *v = v->cast<float>().cast<double>();
  return p;
}
static void lim(Src& s, VectorXd& lb, VectorXd& ub) {
  for (int i = 0; i < lb.size(); ++i) {
    int k = s.integer(0, 3);
    double c = s.real(), w = s.uni(0., 2.);
    lb[i] = k & 1 ? -INF : c - w;
    ub[i] = k & 2 ? INF : c + w;
  }
}
template <class M>
static void limit_u(Src& s, M& m) {
  VectorXd l(m.get_nu()), u(m.get_nu());
  lim(s, l, u);
  m.set_u_lb(l);
  m.set_u_ub(u);
}
template <class M>
static void limit_g(Src& s, M& m) {
  VectorXd l(m.get_ng()), u(m.get_ng());
  lim(s, l, u);
  m.set_g_lb(l);
  m.set_g_ub(u);
}
static StP gen_st(Src& s, int nx) {
  auto st = std::make_shared<StateVectorTpl<double>>(nx);
  if (s.flip()) {
    VectorXd l(nx), u(nx);
    lim(s, l, u);
    st->set_lb(l);
    st->set_ub(u);
  }
  return st;
}
static std::shared_ptr<Act> gen_act(Src& s, Case& c, int nr) {
  ActRef r;
  r.kind = (ActKind)s.integer(0, NACTS - 1);
  r.nr = nr;
  auto a = build_act(s, r);
  int n = s.integer(0, 2);
  for (int i = 0; i < n; ++i) mutate_act(s, r, *a);
  c.desc << " " << act_names[r.kind];
  c.label(act_names[r.kind]);
  return a;
}
static std::shared_ptr<Res> gen_res(Src& s, Case& c, StP st, int nu, bool joint) {
  int k = s.integer(0, joint ? 3 : 1);
  static const char* nm[] = {"own", "control", "joint-effort", "joint-acceleration"};
  c.desc << " " << nm[k];
  c.label(nm[k]);
  if (k == 0) return std::make_shared<TRes<double>>(st, gen_affine(s, s.integer(1, 3), st->get_nx() + nu), nu);
  if (k == 1) {
    auto r = std::make_shared<ResidualModelControlTpl<double>>(st, s.vec(nu));
    if (s.flip()) r->set_reference(s.vec(nu));
    return r;
  }
  if (k == 2) {
    auto act = std::make_shared<TActuation<double>>(st, s.mat(st->get_nv(), nu));
    auto r = std::make_shared<ResidualModelJointEffortTpl<double>>(st, act, s.vec(nu), nu, s.flip());
    if (s.flip()) r->set_reference(s.vec(nu));
    return r;
  }
  auto r = std::make_shared<ResidualModelJointAccelerationTpl<double>>(st, s.vec(st->get_nv()), nu);
  if (s.flip()) r->set_reference(s.vec(st->get_nv()));
  return r;
}
static std::shared_ptr<Cost> gen_cost(Src& s, Case& c, StP st, int nu, bool joint) {
  auto r = gen_res(s, c, st, nu, joint);
  if (s.chance(1, 5)) return std::make_shared<CostModelResidualTpl<double>>(st, r);
  return std::make_shared<CostModelResidualTpl<double>>(st, gen_act(s, c, r->get_nr()), r);
}
static std::shared_ptr<Con> gen_constraint(Src& s, Case& c, StP st, int nu, bool joint) {
  auto r = gen_res(s, c, st, nu, joint);
  bool T = s.flip();
  int k = s.integer(0, 2);
  if (k == 0) return std::make_shared<ConstraintModelResidualTpl<double>>(st, r, T);
  VectorXd l(r->get_nr()), u(r->get_nr());
  lim(s, l, u);
  auto m = std::make_shared<ConstraintModelResidualTpl<double>>(st, r, l, u, T);
  if (k == 2) {
    lim(s, l, u);
    m->update_bounds(l, u);
  }
  return m;
}
static std::shared_ptr<CostSum> gen_sum(Src& s, Case& c, StP st, int nu) {
  auto m = std::make_shared<CostSum>(st, nu);
  int n = s.integer(0, 3);
  for (int i = 0; i < n; ++i)
    m->addCost("c" + std::to_string(s.integer(0, 9)), gen_cost(s, c, st, nu, false), s.logu(0.01, 100.), s.chance(2, 3));
  for (auto& i : m->get_costs())
    if (s.chance(1, 4)) i.second->weight = s.uni(0., 3.);
  std::vector<std::string> names;
  for (auto& i : m->get_costs()) names.push_back(i.first);
  for (auto& i : names)
    if (s.chance(1, 4)) m->changeCostStatus(i, s.flip());
  return m;
}
static std::shared_ptr<ConMan> gen_man(Src& s, Case& c, StP st, int nu) {
  auto m = std::make_shared<ConMan>(st, nu);
  int n = s.integer(0, 3);
  for (int i = 0; i < n; ++i)
    m->addConstraint("k" + std::to_string(s.integer(0, 9)), gen_constraint(s, c, st, nu, false), s.chance(2, 3));
  std::vector<std::string> names;
  for (auto& i : m->get_constraints()) names.push_back(i.first);
  for (auto& i : names)
    if (s.chance(1, 4)) m->changeConstraintStatus(i, s.flip());
  return m;
}
static std::shared_ptr<Diff> gen_dm(Src& s, Case& c, StP st, int nu) {
  int nv = st->get_nv();
  std::shared_ptr<Diff> m;
  if (s.flip()) {
    LQ l = LQ::gen(s, 2 * nv, nu, s.integer(0, 2), s.integer(0, 2), 0.3);
    m = std::make_shared<DifferentialActionModelLQRTpl<double>>(l.A.topLeftCorner(nv, nv), l.A.topRightCorner(nv, nv),
                                                                s.mat(nv, nu), l.Q, l.R, l.N, l.G, l.H, l.f.head(nv),
                                                                l.q, l.r, l.g, l.h);
    if (s.flip()) limit_g(s, *m);
    c.desc << " diff-lqr";
  } else {
    m = std::make_shared<TDiff<double>>(st, gen_affine(s, nv, 2 * nv + nu), nu, gen_sum(s, c, st, nu),
                                        gen_man(s, c, st, nu));
    c.desc << " diff-costs";
  }
  if (s.flip()) limit_u(s, *m);
  return m;
}
static std::shared_ptr<Ctrl> gen_ct(Src& s, Case& c, int kind, int nw) {
  auto k = make_ctrl(kind, nw);
  // all the kinds of the quadratic parametrization
  if (kind >= 2 && s.chance(1, 3)) return std::make_shared<ControlParametrizationModelPolyTwoRKTpl<double>>(nw, two);
  return k.m;
}
static std::shared_ptr<Action> gen_am(Src& s, Case& c, StP st, int nw) {
  int k = s.integer(0, 4);
  if (k == 0) {
    LQ l = LQ::gen(s, st->get_nx(), nw, s.integer(0, 2), s.integer(0, 2), 0.3);
    auto m = l.model();
    if (s.flip()) limit_u(s, *m);
    if (s.flip()) limit_g(s, *m);
    c.label("lqr");
    return m;
  }
  auto d = gen_dm(s, c, st, nw);
  int scheme = std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
  auto ct = gen_ct(s, c, scheme ? s.integer(0, 3) : 0, nw);
  double dt = gen_dt(s);
  std::shared_ptr<Integ> m;
  if (s.chance(1, 4)) {  // constructors without a parametrization
    bool wr = s.flip();
    if (scheme) m = std::make_shared<IntegratedActionModelRKTpl<double>>(d, scheme == 2 ? two : scheme == 3 ? three : four, dt, wr);
    else m = std::make_shared<IntegratedActionModelEulerTpl<double>>(d, dt, wr);
  } else {
    m = make_integ(scheme, d, ct, dt, s.flip());
  }
  if (s.flip()) m->set_dt(gen_dt(s));
  if (s.flip()) limit_u(s, *m);
  c.label(scheme ? "rk" + std::to_string(scheme) : "euler");
  return m;
}
static std::shared_ptr<Action> gen_any(Src& s, Case& c, StP& st, Pt& p) {
  std::shared_ptr<Action> m;
  if (s.chance(1, 6)) {
    auto u = std::make_shared<ActionModelUnicycleTpl<double>>();
    if (s.flip()) u->set_dt(s.logu(1e-3, 1.));
    if (s.flip()) u->set_cost_weights(s.vec(2, 5.));
    if (s.flip()) limit_u(s, *u);
    m = u;
    st = u->get_state();
    c.label("unicycle");
  } else {
    m = gen_am(s, c, st, s.integer(1, 3));
  }
  if (s.chance(1, 6)) {
    auto n = std::make_shared<ActionModelNumDiffTpl<double>>(m, s.flip());
    if (s.flip()) limit_u(s, *n);
    m = n;
    p.diff = false;
    c.label("numdiff");
  }
  return m;
}

// ---- families
static void states(Src& s, Case& c) {
  StP st = gen_st(s, 2 * s.integer(1, 3));
  if (s.chance(1, 3)) {
    st = std::make_shared<StateNumDiffTpl<double>>(st);
    if (s.flip()) {
      VectorXd l(st->get_nx()), u(st->get_nx());
      lim(s, l, u);
      st->set_lb(l);
      st->set_ub(u);
    }
  }
  c.desc << "state " << st->get_nx() << (st->get_has_limits() ? " limited" : "");
  c.nontrivial = st->get_has_limits();
  c.label("state");
  roundtrip<StateAbstractTpl>("state", st, gen_pt(s, *st, 1));
}
static void terms(Src& s, Case& c) {
  int nu = s.integer(1, 3), k = s.integer(0, 7);
  StP st = gen_st(s, 2 * s.integer(1, 2));
  Pt p = gen_pt(s, *st, nu);
  c.nontrivial = true;
  static const char* nm[] = {"control", "activation", "residual", "cost", "constraint", "sum", "manager", "squashing"};
  c.desc << nm[k];
  c.label(nm[k]);
  switch (k) {
    case 0: {
      int kind = s.integer(0, 3);
      auto m = gen_ct(s, c, kind, s.integer(1, 3));
      p.u = s.vec(m->get_nu(), 2.).cast<float>().cast<double>();
      p.w = s.vec(m->get_nw()).cwiseAbs().cast<float>().cast<double>();
      if (s.chance(1, 4)) m = std::make_shared<ControlParametrizationModelNumDiffTpl<double>>(m), p.diff = false;
      return roundtrip<ControlParametrizationModelAbstractTpl>(nm[k], m, p);
    }
    case 1: return roundtrip<ActivationModelAbstractTpl>(nm[k], gen_act(s, c, s.integer(1, 4)), p);
    case 2: return roundtrip<ResidualModelAbstractTpl>(nm[k], gen_res(s, c, st, nu, true), p);
    case 3: {
      auto m = gen_cost(s, c, st, nu, true);
      if (s.chance(1, 5)) m = std::make_shared<CostModelNumDiffTpl<double>>(m), p.diff = false;
      return roundtrip<CostModelAbstractTpl>(nm[k], m, p);
    }
    case 4: return roundtrip<ConstraintModelAbstractTpl>(nm[k], gen_constraint(s, c, st, nu, true), p);
    case 5: return roundtrip_val(*gen_sum(s, c, st, nu), p);
    case 6: return roundtrip_val(*gen_man(s, c, st, nu), p);
    default: {
      auto a = std::make_shared<TActuation<double>>(st, s.mat(st->get_nv(), nu));
      VectorXd l = s.vec(nu).array() - 1., u = l.array() + s.uni(0.1, 3.);
      auto q = std::make_shared<SquashingModelSmoothSatTpl<double>>(l, u, nu);
      if (s.flip()) q->set_smooth(s.uni(0.05, 0.9));
      if (s.flip()) {
        VectorXd sl = s.vec(nu).array() - 1.;
        q->set_s_lb(sl);
        q->set_s_ub(sl.array() + s.uni(0.1, 2.));
      }
      auto m = std::make_shared<ActuationSquashingModelTpl<double>>(a, q, nu);
      return roundtrip<ActuationModelAbstractTpl>(nm[k], m, p);
    }
  }
}
static void actions(Src& s, Case& c) {
  StP st = gen_st(s, 2 * s.integer(1, 2));
  c.nontrivial = true;
  if (s.chance(1, 3)) {
    auto m = gen_dm(s, c, st, s.integer(1, 3));
    Pt p = gen_pt(s, *st, m->get_nu());
    if (m->get_nr() != 1 && s.chance(1, 4)) {
      auto n = std::make_shared<DifferentialActionModelNumDiffTpl<double>>(m, s.flip());
      if (s.flip()) limit_u(s, *n);
      m = n;
      p.diff = false;
    }
    c.label("differential");
    return roundtrip<DifferentialActionModelAbstractTpl>("differential", m, p);
  }
  bool diff = true;
  Pt q;
  auto m = gen_any(s, c, st, q);
  Pt p = gen_pt(s, *m->get_state(), m->get_nu());
  p.diff = q.diff;
  c.desc << " " << (m->get_has_control_limits() ? "limited" : "");
  roundtrip<ActionModelAbstractTpl>("action", m, p);
}
// Edits of the cast object must not reach the original.
static void independence(Src& s, Case& c) {
  StP st = gen_st(s, 2);
  int nu = s.integer(1, 2);
  Pt p = gen_pt(s, *st, nu);
  c.nontrivial = true;
  auto sum = gen_sum(s, c, st, nu);
  auto man = gen_man(s, c, st, nu);
  auto d = std::make_shared<TDiff<double>>(st, gen_affine(s, 1, 2 + nu), nu, sum, man);
  Out c0, e0, c1, e1;
  see(c0, e0, *d, p);
  std::shared_ptr<Diff> base = d;
  auto b = std::dynamic_pointer_cast<TDiff<double>>(base->cast<float>()->cast<double>());
  require(b != nullptr, "kind");
  // what a user may edit
  std::vector<std::string> names;
  for (auto& i : b->costs->get_costs()) names.push_back(i.first);
  for (auto& n : names) {
    b->costs->get_costs().find(n)->second->weight = 7.;
    b->costs->changeCostStatus(n, s.flip());
  }
  names.clear();
  for (auto& i : b->cons->get_constraints()) names.push_back(i.first);
  for (auto& n : names) {
    auto k = b->cons->get_constraints().find(n)->second->constraint;
    if (k->get_ng()) k->update_bounds(VectorXd::Constant(k->get_ng(), -9.), VectorXd::Constant(k->get_ng(), 9.));
    b->cons->changeConstraintStatus(n, s.flip());
  }
  b->set_u_lb(VectorXd::Constant(nu, -3.));
  b->set_u_ub(VectorXd::Constant(nu, 3.));
  auto vs = std::dynamic_pointer_cast<StateVectorTpl<double>>(b->get_state());
  require(vs != nullptr, "kind");
  see(c1, e1, *d, p);
  compare("shared", c1, c0, -1, true);
  compare("shared", e1, e0, -1, true);
}
static void problems(Src& s, Case& c) {
  StP st = gen_st(s, 2 * s.integer(1, 2));
  int T = s.integer(1, 4);
  std::vector<std::shared_ptr<Action>> r;
  for (int i = 0; i < T; ++i)
    r.push_back(i && s.chance(1, 3) ? r[s.integer(0, i - 1)] : gen_am(s, c, st, s.integer(1, 2)));
  auto term = s.chance(1, 3) ? r[0] : gen_am(s, c, st, 1);
  VectorXd x0 = s.vec(st->get_nx());
  auto p = std::make_shared<Problem>(x0, r, term);
  if (s.flip()) p->set_nthreads(s.integer(1, 3));
  if (s.chance(1, 3)) p->set_x0(x0 = s.vec(st->get_nx()));
  if (s.chance(1, 4)) p->circularAppend(r[s.integer(0, T - 1)]);
  c.desc << " T=" << T;
  c.nontrivial = true;
  Traj xs, us;
  for (int i = 0; i <= T; ++i) xs.push_back(s.vec(st->get_nx()).cast<float>().cast<double>());
  for (int i = 0; i < T; ++i) us.push_back(s.vec(p->get_runningModels()[i]->get_nu()).cast<float>().cast<double>());
  double cost0 = p->calc(xs, us);
  p->calcDiff(xs, us);
  auto f = p->cast<float>();
  auto b = f.cast<double>();
  require(b.get_T() == p->get_T() && f.get_T() == p->get_T(), "T");
  require(b.get_nthreads() == p->get_nthreads(), "nthreads");
  require(b.get_nx() == p->get_nx() && b.get_ndx() == p->get_ndx(), "nx");
  nearm("x0", b.get_x0(), p->get_x0().cast<float>().cast<double>(), 0);
  require(p->get_x0() == x0, "original");
  near("problem-cost", b.calc(xs, us), cost0, 2e-5);
  b.calcDiff(xs, us);
  near("original", p->calc(xs, us), cost0, 0);
  std::vector<Vec<float>> xf, uf;
  for (auto& x : xs) xf.push_back(x.cast<float>());
  for (auto& u : us) uf.push_back(u.cast<float>());
  near("problem-float-cost", f.calc(xf, uf), cost0, 1e-3);
  for (int i = 0; i <= T; ++i) {
    auto m = i < T ? p->get_runningModels()[i] : p->get_terminalModel();
    auto n = i < T ? b.get_runningModels()[i] : b.get_terminalModel();
    auto dm = i < T ? p->get_runningDatas()[i] : p->get_terminalData();
    auto dn = i < T ? b.get_runningDatas()[i] : b.get_terminalData();
    Out c0, e0, c1, e1;
    Pt q;
    VectorXd un = VectorXd::Zero(m->get_nu());
    m->calc(m->createData(), xs[i], un);
    n->calc(n->createData(), xs[i], un);
    see(c0, e0, *m, q, false);
    see(c1, e1, *n, q, false);
    compare("node", c1, c0, CFG, true);
    Out a0, a1;
    evals(a0, *m, *dm, i == T, false);
    evals(a1, *n, *dn, i == T, false);
    compare("node-data", a1, a0, 2e-5, false);
  }
}
// Cones and supports are plain values.
template <class S>
static void see(Out& c, Out& e, FrictionConeTpl<S>& m, const Pt&) {
  c.add("mu", m.get_mu());
  c.add("nf", m.get_nf());
  c.add("inner", m.get_inner_appr());
  c.add("min", m.get_min_nforce());
  c.add("max", m.get_max_nforce() >= std::numeric_limits<S>::max() ? INF : (double)m.get_max_nforce());
  e.add("A", m.get_A());
  c.add("R", m.get_R());
  e.add("lb", bound<S>(m.get_lb()));
  e.add("ub", bound<S>(m.get_ub()));
}
template <class S>
static void see(Out& c, Out& e, WrenchConeTpl<S>& m, const Pt&) {
  c.add("mu", m.get_mu());
  c.add("nf", m.get_nf());
  c.add("inner", m.get_inner_appr());
  c.add("min", m.get_min_nforce());
  c.add("max", m.get_max_nforce() >= std::numeric_limits<S>::max() ? INF : (double)m.get_max_nforce());
  c.add("box", m.get_box());
  e.add("A", m.get_A());
  c.add("R", m.get_R());
  e.add("lb", bound<S>(m.get_lb()));
  e.add("ub", bound<S>(m.get_ub()));
}
template <class S>
static void see(Out& c, Out& e, CoPSupportTpl<S>& m, const Pt&) {
  c.add("box", m.get_box());
  e.add("A", m.get_A());
  c.add("R", m.get_R());
  e.add("lb", bound<S>(m.get_lb()));
  e.add("ub", bound<S>(m.get_ub()));
}
static void cones(Src& s, Case& c) {
  Eigen::Matrix3d R = so3_exp(s.vec(3, 2.));
  double mu = s.logu(0.1, 2.);
  int nf = 2 * s.integer(2, 6);
  bool inner = s.flip();
  double mn = s.flip() ? 0. : s.uni(0., 5.), mx = s.flip() ? std::numeric_limits<double>::infinity() : mn + s.uni(0.1, 100.);
  Eigen::Vector2d box(s.uni(0.01, 0.5), s.uni(0.01, 0.5));
  c.nontrivial = true;
  int k = s.integer(0, 2);
  c.desc << "cone " << k;
  if (k == 0) roundtrip_val(FrictionConeTpl<double>(R, mu, nf, inner, mn, mx), Pt());
  if (k == 1) roundtrip_val(WrenchConeTpl<double>(R, mu, box, nf, inner, mn, mx), Pt());
  if (k == 2) roundtrip_val(CoPSupportTpl<double>(R, box), Pt());
}

int main(int argc, char** argv) {
  Check k("C26", "the object has parameters or bounds a cast must carry over");
  k.family("states", 4000, 60000, states);
  k.family("terms", 15000, 300000, terms);
  k.family("actions", 8000, 150000, actions);
  k.family("independence", 3000, 40000, independence);
  k.family("problems", 2000, 40000, problems);
  k.family("cones", 2000, 30000, cones);
  k.assume("Disturbances of numerically differentiated models are chosen for the scalar type and not carried over.");
  k.assume("Derivatives of numerically differentiated models are not compared across precisions.");
  return k.main(argc, argv);
}
