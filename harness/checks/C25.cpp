// C25: models are pure functions of their parameters and inputs.
#include <list>
#include "common/nodes.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
using namespace vf;
using namespace crocoddyl;

// All results of an evaluation, in order.
struct Out {
  std::vector<std::pair<std::string, MatrixXd>> v;
  template <class M>
  void add(const char* n, const M& m) { v.emplace_back(n, MatrixXd(m)); }
  void add(const char* n, double d) { v.emplace_back(n, MatrixXd::Constant(1, 1, d)); }
};
static void same_out(const std::string& tag, const Out& a, const Out& b, const std::string& what) {
  require(a.v.size() == b.v.size(), tag, what);
  for (std::size_t i = 0; i < a.v.size(); ++i)
{
    MatrixXd g = a.v[i].second, w = b.v[i].second;
    // The gradient of a norm is undefined at zero.
    if (g.rows() == w.rows() && g.cols() == w.cols())
      for (int j = 0; j < g.size(); ++j)
        if (std::isnan(g.data()[j]) && std::isnan(w.data()[j])) g.data()[j] = w.data()[j] = 0.;
    nearm(tag, g, w, 1e-12, what + " " + a.v[i].first);
  }
}

// A model under test with its parameters: `fresh` builds another model with
// the current parameters from scratch.
struct Sub {
  std::string name;
  std::shared_ptr<State> st;
  int nu = 0;
  virtual ~Sub() {}
  virtual std::shared_ptr<void> data() = 0;
  // what 1: values, 3: values and derivatives. T: without control.
  virtual Out eval(std::shared_ptr<void> d, const VectorXd& x, const VectorXd& u, bool T, int what) = 0;
  virtual std::shared_ptr<Sub> fresh() = 0;
  virtual bool mutate(Src&) { return false; }
  virtual std::shared_ptr<Sub> copy() { return nullptr; }
  virtual bool terminal() { return true; }
  virtual VectorXd genx(Src& s) { return st ? gen_x(s, *st, 1.) : VectorXd(0); }
  virtual VectorXd genu(Src& s) { return s.vec(nu, 2.); }
};
typedef std::shared_ptr<Sub> SubP;

// ---- action models
struct ActionSub : Sub {
  std::shared_ptr<Action> m;
  bool with_r = true;  // a cost sum has no residual of its own
  std::shared_ptr<void> data() override { return m->createData(); }
  Out eval(std::shared_ptr<void> p, const VectorXd& x, const VectorXd& u, bool T, int what) override {
    auto d = std::static_pointer_cast<ActionData>(p);
    Out o;
    T ? m->calc(d, x) : m->calc(d, x, u);
    if (what & 2) T ? m->calcDiff(d, x) : m->calcDiff(d, x, u);
    int ng = T ? m->get_ng_T() : m->get_ng(), nh = T ? m->get_nh_T() : m->get_nh();
    o.add("cost", d->cost);
    o.add("g", d->g.head(ng));
    o.add("h", d->h.head(nh));
    o.add("xnext", d->xnext);
    if (what & 2) {
      o.add("Lx", d->Lx);
      o.add("Lxx", d->Lxx);
      o.add("Gx", d->Gx.topRows(ng));
      o.add("Hx", d->Hx.topRows(nh));
    }
    if (!T && with_r) o.add("r", d->r);
    if ((what & 2) && !T) {
      o.add("Fx", d->Fx);
      o.add("Fu", d->Fu);
      o.add("Lu", d->Lu);
      o.add("Lxu", d->Lxu);
      o.add("Luu", d->Luu);
      o.add("Gu", d->Gu.topRows(ng));
      o.add("Hu", d->Hu.topRows(nh));
    }
    if (!T) {  // a constraint manager refreshes its bounds when it is evaluated
      o.add("g_lb", m->get_g_lb().head(ng));
      o.add("g_ub", m->get_g_ub().head(ng));
    }
    o.add("u_lb", m->get_u_lb());
    o.add("u_ub", m->get_u_ub());
    o.add("limited", double(m->get_has_control_limits()));
    return o;
  }
};
struct LqrSub : ActionSub {
  LQ l;
  typedef ActionModelLQRTpl<double> M;
  LqrSub(const LQ& l_, std::shared_ptr<M> m_) : l(l_) {
    m = m_;
    st = m->get_state();
    nu = m->get_nu();
    name = "lqr";
  }
  SubP fresh() override { return std::make_shared<LqrSub>(l, l.model()); }
  SubP copy() override { return std::make_shared<LqrSub>(l, std::make_shared<M>(dynamic_cast<M&>(*m))); }
  bool mutate(Src& s) override {
    LQ n = LQ::gen(s, st->get_nx(), nu, l.g.size(), l.h.size(), 0.1);
    int mask = s.integer(1, 63);
    if (mask & 1) l.A = n.A, l.f = n.f;
    if (mask & 2) l.B = n.B;
    if (mask & 4) l.Q = n.Q, l.R = n.R, l.N = n.N;
    if (mask & 8) l.q = n.q, l.r = n.r;
    if (mask & 16) l.G = n.G, l.g = n.g;
    if (mask & 32) l.H = n.H, l.h = n.h;
    dynamic_cast<M&>(*m).set_LQR(l.A, l.B, l.Q, l.R, l.N, l.G, l.H, l.f, l.q, l.r, l.g, l.h);
    return true;
  }
};
struct UnicycleSub : ActionSub {
  typedef ActionModelUnicycleTpl<double> M;
  double dt;
  VectorXd w;
  UnicycleSub(double dt_, const VectorXd& w_, std::shared_ptr<M> m_ = nullptr) : dt(dt_), w(w_) {
    if (!m_) {
      m_ = std::make_shared<M>();
      m_->set_dt(dt);
      m_->set_cost_weights(w);
    }
    m = m_;
    st = m->get_state();
    nu = 2;
    name = "unicycle";
  }
  SubP fresh() override { return std::make_shared<UnicycleSub>(dt, w); }
  SubP copy() override { return std::make_shared<UnicycleSub>(dt, w, std::make_shared<M>(dynamic_cast<M&>(*m))); }
  bool mutate(Src& s) override {
    auto& a = dynamic_cast<M&>(*m);
    if (s.flip()) a.set_dt(dt = s.logu(1e-3, 2.));
    else a.set_cost_weights(w = s.vec(2, 5.));
    return true;
  }
};

// ---- differential models: parameters that several holders share
struct DiffPar {
  std::string name;
  virtual ~DiffPar() {}
  virtual std::shared_ptr<Diff> make() = 0;
  virtual bool mutate(Src&, Diff&) { return false; }
  virtual std::shared_ptr<DiffPar> clone() = 0;
  virtual std::shared_ptr<Diff> copy(Diff&) { return nullptr; }
};
struct NlPar : DiffPar {
  std::shared_ptr<NlDiff> m;
  VectorXd lb, ub;
  std::shared_ptr<Diff> make() override {
    auto n = std::make_shared<NlDiff>(*m);
    if (lb.size()) n->set_u_lb(lb), n->set_u_ub(ub);
    return n;
  }
  bool mutate(Src& s, Diff& d) override {
    int n = m->get_nu();
    lb = s.vec(n).array() - 1.;
    ub = lb.array() + s.uni(0., 2.);
    d.set_u_lb(lb);
    d.set_u_ub(ub);
    return true;
  }
  std::shared_ptr<DiffPar> clone() override { return std::make_shared<NlPar>(*this); }
  std::shared_ptr<Diff> copy(Diff& d) override { return std::make_shared<NlDiff>(dynamic_cast<NlDiff&>(d)); }
};
struct DlqrPar : DiffPar {
  typedef DifferentialActionModelLQRTpl<double> M;
  int nq, nu, ng, nh;
  MatrixXd Aq, Av, B;
  VectorXd f;
  LQ l;
  void draw(Src& s, int mask) {
    LQ n = LQ::gen(s, 2 * nq, nu, ng, nh, 0.1);
    if (mask & 1) Aq = n.A.topLeftCorner(nq, nq);
    if (mask & 2) Av = n.A.topRightCorner(nq, nq), f = n.f.head(nq);
    if (mask & 4) B = s.mat(nq, nu);
    if (mask & 8) l.Q = n.Q, l.R = n.R, l.N = n.N;
    if (mask & 16) l.q = n.q, l.r = n.r;
    if (mask & 32) l.G = n.G, l.g = n.g, l.H = n.H, l.h = n.h;
  }
  std::shared_ptr<Diff> make() override {
    return std::make_shared<M>(Aq, Av, B, l.Q, l.R, l.N, l.G, l.H, f, l.q, l.r, l.g, l.h);
  }
  bool mutate(Src& s, Diff& d) override {
    draw(s, s.integer(1, 63));
    dynamic_cast<M&>(d).set_LQR(Aq, Av, B, l.Q, l.R, l.N, l.G, l.H, f, l.q, l.r, l.g, l.h);
    return true;
  }
  std::shared_ptr<DiffPar> clone() override { return std::make_shared<DlqrPar>(*this); }
  std::shared_ptr<Diff> copy(Diff& d) override { return std::make_shared<M>(dynamic_cast<M&>(d)); }
};
static std::shared_ptr<Act> make_act(const ActRef& r) {
  switch (r.kind) {
    case QUAD: return std::make_shared<ActivationModelQuadTpl<double>>(r.nr);
    case WQUAD: return std::make_shared<ActivationModelWeightedQuadTpl<double>>(r.w);
    case FLATEXP: return std::make_shared<ActivationModelQuadFlatExpTpl<double>>(r.nr, r.par);
    case FLATLOG: return std::make_shared<ActivationModelQuadFlatLogTpl<double>>(r.nr, r.par);
    case S1: return std::make_shared<ActivationModelSmooth1NormTpl<double>>(r.nr, r.par);
    case S2: return std::make_shared<ActivationModelSmooth2NormTpl<double>>(r.nr, r.par);
    case BARRIER: return std::make_shared<ActivationModelQuadraticBarrierTpl<double>>(Bounds(r.lb, r.ub));
    case WBARRIER:
      return std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<double>>(Bounds(r.lb, r.ub), r.w);
    default: return std::make_shared<ActivationModel2NormBarrierTpl<double>>(r.nr, r.par, r.hess);
  }
}
// The residual, cost and constraint of the library rebuilt from their parameters.
static std::shared_ptr<Res> make_res(const ResRef& r) {
  if (r.control) return std::make_shared<ResidualModelControlTpl<double>>(r.st, r.uref);
  return std::make_shared<NlResidual>(r);
}
static std::shared_ptr<Cost> make_cost(const CostCase& c) {
  return std::make_shared<CostModelResidualTpl<double>>(c.r.st, make_act(c.a), make_res(c.r));
}
static bool mutate_cost(Src& s, CostCase& c) {
  if (c.r.control && s.flip()) {
    c.r.uref = s.vec(c.r.nr);
    dynamic_cast<ResidualModelControlTpl<double>&>(*c.m->get_residual()).set_reference(c.r.uref);
    return true;
  }
  return mutate_act(s, c.a, *c.m->get_activation());
}
static std::shared_ptr<Con> make_con(const ConCase& c) {
  auto r = make_res(c.r);
  std::shared_ptr<Con> m;
  if (c.ineq) {
    VectorXd l = c.bounded ? c.lb : VectorXd(VectorXd::Constant(c.r.nr, -INF));
    VectorXd u = c.bounded ? c.ub : VectorXd(VectorXd::Constant(c.r.nr, INF));
    m = std::make_shared<ConstraintModelResidualTpl<double>>(c.r.st, r, l, u, c.T);
  } else {
    m = std::make_shared<ConstraintModelResidualTpl<double>>(c.r.st, r, c.T);
  }
  return m;
}
static bool mutate_con(Src& s, ConCase& c) {
  if (!c.ineq) return false;
  c.lb = s.vec(c.r.nr).array() - 1.;
  c.ub = c.lb.array() + s.uni(0.1, 3.);
  c.bounded = true;
  c.m->update_bounds(c.lb, c.ub);
  return true;
}
struct CostsPar : DiffPar {
  DiffCostsCase d;
  std::shared_ptr<Diff> make() override {
    auto& m = *d.m;
    auto costs = std::make_shared<CostSum>(m.get_state(), m.get_nu());
    auto cons = std::make_shared<ConMan>(m.get_state(), m.get_nu());
    for (auto& c : d.costs) costs->addCost(c.name, make_cost(c), c.weight, c.active);
    for (auto& c : d.cons) cons->addConstraint(c.name, make_con(c), c.active);
    return std::make_shared<DiffCosts>(m.get_state(), m.get_nu(), m.f, m.xref, costs, cons);
  }
  bool mutate(Src& s, Diff&) override {
    int k = s.integer(0, 3);
    auto& c = d.costs[s.integer(0, d.costs.size() - 1)];
    if (k == 0) {
      c.weight = s.logu(0.05, 5.);
      d.m->costs->get_costs().find(c.name)->second->weight = c.weight;
      return true;
    }
    if (k == 1) {
      c.active = !c.active;
      d.m->costs->changeCostStatus(c.name, c.active);
      return true;
    }
    if (k == 2 || d.cons.empty()) return mutate_cost(s, c);
    auto& n = d.cons[s.integer(0, d.cons.size() - 1)];
    return mutate_con(s, n);
  }
  // The model under test is the generated one.
  std::shared_ptr<DiffPar> clone() override { return nullptr; }
};
struct DiffSub : Sub {
  std::shared_ptr<DiffPar> p;
  std::shared_ptr<Diff> m;
  DiffSub(std::shared_ptr<DiffPar> p_, std::shared_ptr<Diff> m_) : p(p_), m(m_) {
    name = p->name;
    st = m->get_state();
    nu = m->get_nu();
  }
  std::shared_ptr<void> data() override { return m->createData(); }
  Out eval(std::shared_ptr<void> q, const VectorXd& x, const VectorXd& u, bool T, int what) override {
    auto d = std::static_pointer_cast<DiffData>(q);
    Out o;
    T ? m->calc(d, x) : m->calc(d, x, u);
    if (what & 2) T ? m->calcDiff(d, x) : m->calcDiff(d, x, u);
    int ng = T ? m->get_ng_T() : m->get_ng(), nh = T ? m->get_nh_T() : m->get_nh();
    o.add("cost", d->cost);
    o.add("g", d->g.head(ng));
    o.add("h", d->h.head(nh));
    if (!T) o.add("xout", d->xout);
    if (what & 2) {
      o.add("Lx", d->Lx);
      o.add("Lxx", d->Lxx);
      o.add("Gx", d->Gx.topRows(ng));
      o.add("Hx", d->Hx.topRows(nh));
    }
    if ((what & 2) && !T) {
      o.add("Fx", d->Fx);
      o.add("Fu", d->Fu);
      o.add("Lu", d->Lu);
      o.add("Lxu", d->Lxu);
      o.add("Luu", d->Luu);
      o.add("Gu", d->Gu.topRows(ng));
      o.add("Hu", d->Hu.topRows(nh));
    }
    if (!T) {  // a constraint manager refreshes its bounds when it is evaluated
      o.add("g_lb", m->get_g_lb().head(ng));
      o.add("g_ub", m->get_g_ub().head(ng));
    }
    o.add("u_lb", m->get_u_lb());
    o.add("u_ub", m->get_u_ub());
    o.add("limited", double(m->get_has_control_limits()));
    return o;
  }
  SubP fresh() override {
    auto c = p->clone();
    return std::make_shared<DiffSub>(c ? c : p, p->make());
  }
  bool mutate(Src& s) override { return p->mutate(s, *m); }
  SubP copy() override {
    auto c = p->copy(*m);
    return c ? std::make_shared<DiffSub>(p->clone(), c) : nullptr;
  }
};
static std::shared_ptr<DiffPar> gen_par(Src& s, Case& c, std::shared_ptr<Diff>& m, int nu) {
  int k = s.integer(0, 2);
  if (k == 0) {
    auto p = std::make_shared<DlqrPar>();
    p->name = "diff-lqr";
    p->nq = s.integer(1, 2);
    p->nu = nu;
    p->ng = s.integer(0, 2);
    p->nh = s.integer(0, 2);
    p->draw(s, 63);
    m = p->make();
    return p;
  }
  auto st = gen_state(s, 2);
  if (k == 1) {
    auto p = std::make_shared<NlPar>();
    p->name = "nl";
    ModelSpec sp;
    sp.ng = s.integer(0, 2);
    sp.nh = s.integer(0, 2);
    sp.ng_T = s.integer(0, sp.ng);
    sp.nh_T = s.integer(0, sp.nh);
    p->m = gen_nldiff(s, st, nu, sp);
    m = p->make();
    return p;
  }
  auto p = std::make_shared<CostsPar>();
  p->name = "costs";
  p->d = gen_diffcosts(s, st, nu, false);
  m = p->d.m;
  return p;
}
struct IntegSub : ActionSub {
  std::shared_ptr<DiffPar> p;
  std::shared_ptr<Diff> diff;
  int scheme, ck, nw;
  double dt;
  bool wr;
  IntegSub(std::shared_ptr<DiffPar> p_, std::shared_ptr<Diff> d, int sc, int ck_, int nw_, double dt_, bool wr_,
           std::shared_ptr<Integ> m_ = nullptr)
      : p(p_), diff(d), scheme(sc), ck(ck_), nw(nw_), dt(dt_), wr(wr_) {
    if (!m_) m_ = make_integ(scheme, diff, make_ctrl(ck, nw).m, dt, wr);
    m = m_;
    st = m->get_state();
    nu = m->get_nu();
    name = (scheme ? "rk" + std::to_string(scheme) : std::string("euler")) + "-" + p->name;
    with_r = p->name != "costs";
  }
  SubP fresh() override { return std::make_shared<IntegSub>(p, p->make(), scheme, ck, nw, dt, wr); }
  // Copies share the differential model.
  SubP copy() override {
    std::shared_ptr<Integ> n;
    if (scheme == 0)
      n = std::make_shared<IntegratedActionModelEulerTpl<double>>(
          dynamic_cast<IntegratedActionModelEulerTpl<double>&>(*m));
    else
      n = std::make_shared<IntegratedActionModelRKTpl<double>>(dynamic_cast<IntegratedActionModelRKTpl<double>&>(*m));
    return std::make_shared<IntegSub>(p, diff, scheme, ck, nw, dt, wr, n);
  }
  bool mutate(Src& s) override {
    if (s.flip()) {
      dynamic_cast<Integ&>(*m).set_dt(dt = gen_dt(s));
      return true;
    }
    if (p->name == "nl") return false;  // the control limits are read when the integrator is built
    return p->mutate(s, *diff);
  }
};
struct NumSub : ActionSub {
  SubP in;
  double dist;
  bool gauss, set;
  typedef ActionModelNumDiffTpl<double> M;
  NumSub(SubP i, bool g, double d, bool set_) : in(i), dist(d), gauss(g), set(set_) {
    auto n = std::make_shared<M>(std::static_pointer_cast<ActionSub>(in)->m, gauss);
    if (set) n->set_disturbance(dist);
    m = n;
    st = in->st;
    nu = in->nu;
    name = "numdiff-" + in->name;
    with_r = std::static_pointer_cast<ActionSub>(in)->with_r;
  }
  SubP fresh() override { return std::make_shared<NumSub>(in->fresh(), gauss, dist, set); }
  bool terminal() override { return false; }  // leaves Fx alone
  bool mutate(Src& s) override {
    if (with_r && s.flip()) return in->mutate(s);  // bounds are read when wrapped
    dynamic_cast<M&>(*m).set_disturbance(dist = s.logu(1e-7, 1e-4));
    set = true;
    return true;
  }
};

// ---- activations, residuals, costs, constraints
struct ActSub : Sub {
  ActRef r;
  std::shared_ptr<Act> m;
  ActSub(const ActRef& r_, std::shared_ptr<Act> m_) : r(r_), m(m_) {
    name = act_names[r.kind];
    nu = r.nr;
  }
  std::shared_ptr<void> data() override { return m->createData(); }
  bool terminal() override { return false; }
  Out eval(std::shared_ptr<void> q, const VectorXd&, const VectorXd& u, bool, int what) override {
    auto d = std::static_pointer_cast<ActData>(q);
    Out o;
    m->calc(d, u);
    o.add("a", d->a_value);
    if (what & 2) {
      m->calcDiff(d, u);
      o.add("Ar", d->Ar);
      o.add("Arr", MatrixXd(d->Arr));
    }
    return o;
  }
  SubP fresh() override { return std::make_shared<ActSub>(r, make_act(r)); }
  bool mutate(Src& s) override { return mutate_act(s, r, *m); }
  template <class M>
  static std::shared_ptr<Act> cp(Act& a) { return std::make_shared<M>(dynamic_cast<M&>(a)); }
  SubP copy() override {
    std::shared_ptr<Act> c;
    switch (r.kind) {
      case QUAD: c = cp<ActivationModelQuadTpl<double>>(*m); break;
      case WQUAD: c = cp<ActivationModelWeightedQuadTpl<double>>(*m); break;
      case FLATEXP: c = cp<ActivationModelQuadFlatExpTpl<double>>(*m); break;
      case FLATLOG: c = cp<ActivationModelQuadFlatLogTpl<double>>(*m); break;
      case S1: c = cp<ActivationModelSmooth1NormTpl<double>>(*m); break;
      case S2: c = cp<ActivationModelSmooth2NormTpl<double>>(*m); break;
      case BARRIER: c = cp<ActivationModelQuadraticBarrierTpl<double>>(*m); break;
      case WBARRIER: c = cp<ActivationModelWeightedQuadraticBarrierTpl<double>>(*m); break;
      default: c = cp<ActivationModel2NormBarrierTpl<double>>(*m);
    }
    return std::make_shared<ActSub>(r, c);
  }
};
// Cost or constraint with its data collector.
struct CostSub : Sub {
  CostCase c;
  Collector col;
  CostSub(const CostCase& c_) : c(c_) {
    st = c.r.st;
    nu = c.r.nu;
    name = "cost-" + c.r.name + "-" + act_names[c.a.kind];
  }
  std::shared_ptr<void> data() override { return c.m->createData(&col); }
  Out eval(std::shared_ptr<void> q, const VectorXd& x, const VectorXd& u, bool T, int what) override {
    auto d = std::static_pointer_cast<CostData>(q);
    Out o;
    T ? c.m->calc(d, x) : c.m->calc(d, x, u);
    if (what & 2) T ? c.m->calcDiff(d, x) : c.m->calcDiff(d, x, u);
    o.add("cost", d->cost);
    if (what & 2) {
      o.add("Lx", d->Lx);
      o.add("Lxx", d->Lxx);
    }
    if ((what & 2) && !T) {
      o.add("Lu", d->Lu);
      o.add("Lxu", d->Lxu);
      o.add("Luu", d->Luu);
    }
    return o;
  }
  SubP fresh() override {
    CostCase n = c;
    n.m = make_cost(c);
    return std::make_shared<CostSub>(n);
  }
  bool mutate(Src& s) override { return mutate_cost(s, c); }
};
struct ConSub : Sub {
  ConCase c;
  Collector col;
  ConSub(const ConCase& c_) : c(c_) {
    st = c.r.st;
    nu = c.r.nu;
    name = std::string(c.ineq ? "ineq-" : "eq-") + c.r.name;
  }
  std::shared_ptr<void> data() override { return c.m->createData(&col); }
  bool terminal() override { return c.m->get_T_constraint(); }
  Out eval(std::shared_ptr<void> q, const VectorXd& x, const VectorXd& u, bool T, int what) override {
    auto d = std::static_pointer_cast<ConData>(q);
    Out o;
    T ? c.m->calc(d, x) : c.m->calc(d, x, u);
    if (what & 2) T ? c.m->calcDiff(d, x) : c.m->calcDiff(d, x, u);
    o.add("g", d->g);
    o.add("h", d->h);
    o.add("lb", c.m->get_lb());
    o.add("ub", c.m->get_ub());
    if (what & 2) {
      o.add("Gx", d->Gx);
      o.add("Hx", d->Hx);
    }
    if ((what & 2) && !T) {
      o.add("Gu", d->Gu);
      o.add("Hu", d->Hu);
    }
    return o;
  }
  SubP fresh() override {
    ConCase n = c;
    n.m = make_con(c);
    return std::make_shared<ConSub>(n);
  }
  bool mutate(Src& s) override { return mutate_con(s, c); }
};
// Residuals of the library; joint data is filled from the inputs.
struct ResSub : Sub {
  int kind;  // 0 control, 1 joint effort, 2 joint acceleration
  VectorXd ref;
  std::shared_ptr<NlActuation> act;
  std::shared_ptr<Res> m;
  bool fwd;
  ResSub(int k, const VectorXd& r, std::shared_ptr<NlActuation> a, bool f) : kind(k), ref(r), act(a), fwd(f) {
    st = act->get_state();
    nu = act->get_nu();
    if (kind == 0) m = std::make_shared<ResidualModelControlTpl<double>>(st, ref);
    if (kind == 1) m = std::make_shared<ResidualModelJointEffortTpl<double>>(st, act, ref, nu, fwd);
    if (kind == 2) m = std::make_shared<ResidualModelJointAccelerationTpl<double>>(st, ref, nu);
    static const char* nm[] = {"control", "joint-effort", "joint-acceleration"};
    name = nm[kind];
  }
  struct D {
    std::shared_ptr<JointDataAbstractTpl<double>> j;
    std::unique_ptr<DataCollectorJointTpl<double>> col;
    std::shared_ptr<ResData> d;
  };
  std::shared_ptr<void> data() override {
    auto d = std::make_shared<D>();
    d->j = std::make_shared<JointDataAbstractTpl<double>>(st, act, nu);
    d->col.reset(new DataCollectorJointTpl<double>(d->j));
    d->d = m->createData(d->col.get());
    return d;
  }
  Out eval(std::shared_ptr<void> q, const VectorXd& x, const VectorXd& u, bool T, int what) override {
    auto& d = *std::static_pointer_cast<D>(q);
    VectorXd v = T ? VectorXd(VectorXd::Zero(nu)) : u;
    const VectorXd val = act->value(x, v);
    for (int i = 0; i < d.j->tau.size(); ++i) d.j->tau[i] = val.size() ? val[i % val.size()] : 0.;
    d.j->a = st->get_nv() ? VectorXd(x.tail(st->get_nv())) : VectorXd(0);
    d.j->dtau_dx.setConstant(v.sum());
    d.j->dtau_du.setConstant(x.sum());
    d.j->da_dx.setConstant(v.sum() + 1.);
    d.j->da_du.setConstant(x.sum() + 1.);
    Out o;
    T ? m->calc(d.d, x) : m->calc(d.d, x, u);
    if (what & 2) T ? m->calcDiff(d.d, x) : m->calcDiff(d.d, x, u);
    o.add("r", d.d->r);
    if (what & 2) {
      o.add("Rx", d.d->Rx);
      if (!T) o.add("Ru", d.d->Ru);
    }
    return o;
  }
  SubP fresh() override { return std::make_shared<ResSub>(kind, ref, act, fwd); }
  bool mutate(Src& s) override {
    ref = s.vec(ref.size());
    if (kind == 0) dynamic_cast<ResidualModelControlTpl<double>&>(*m).set_reference(ref);
    if (kind == 1) dynamic_cast<ResidualModelJointEffortTpl<double>&>(*m).set_reference(ref);
    if (kind == 2) dynamic_cast<ResidualModelJointAccelerationTpl<double>&>(*m).set_reference(ref);
    return true;
  }
};
struct SquashSub : Sub {
  typedef SquashingModelSmoothSatTpl<double> Sat;
  std::shared_ptr<NlActuation> act;
  VectorXd ulb, uub, slb, sub;
  double smooth;
  std::shared_ptr<Sat> sq;
  std::shared_ptr<ActuationSquashingModelTpl<double>> m;
  void build(std::shared_ptr<Sat> q) {
    sq = q;
    m = std::make_shared<ActuationSquashingModelTpl<double>>(act, sq, nu);
  }
  std::shared_ptr<void> data() override { return m->createData(); }
  bool terminal() override { return false; }
  Out eval(std::shared_ptr<void> q, const VectorXd& x, const VectorXd& u, bool, int what) override {
    auto d = std::static_pointer_cast<ActuationData>(q);
    Out o;
    m->calc(d, x, u);
    o.add("tau", d->tau);
    if (what & 2) {
      m->calcDiff(d, x, u);
      o.add("dtau_dx", d->dtau_dx);
      o.add("dtau_du", d->dtau_du);
    }
    o.add("s_lb", sq->get_s_lb());
    o.add("s_ub", sq->get_s_ub());
    return o;
  }
  SubP fresh() override {
    auto n = std::make_shared<SquashSub>(*this);
    auto q = std::make_shared<Sat>(ulb, uub, nu);
    if (smooth > 0.) q->set_smooth(smooth);
    if (slb.size()) q->set_s_lb(slb), q->set_s_ub(sub);
    n->build(q);
    return n;
  }
  bool mutate(Src& s) override {
    if (s.flip()) {
      sq->set_smooth(smooth = s.uni(0.05, 0.9));
      slb.resize(0);  // documented: resets the limits of s
    } else {
      slb = s.vec(nu).array() - 1.;
      sub = slb.array() + s.uni(0.1, 2.);
      sq->set_s_lb(slb);
      sq->set_s_ub(sub);
    }
    return true;
  }
};
struct CtrlSub : Sub {
  int kind, nw;
  CtrlKind k;
  CtrlSub(int kind_, int nw_) : kind(kind_), nw(nw_), k(make_ctrl(kind_, nw_)) {
    name = "ctrl-" + k.name;
    nu = k.nu() + 1;
  }
  std::shared_ptr<void> data() override { return k.m->createData(); }
  bool terminal() override { return false; }
  VectorXd genu(Src& s) override {
    VectorXd u = s.vec(nu, 2.);
    u[0] = s.uni(0., 1.);
    return u;
  }
  Out eval(std::shared_ptr<void> q, const VectorXd&, const VectorXd& tu, bool, int what) override {
    auto d = std::static_pointer_cast<CtrlData>(q);
    VectorXd u = tu.tail(nu - 1);
    double t = tu[0];
    Out o;
    k.m->calc(d, t, u);
    o.add("w", d->w);
    if (what & 2) {
      k.m->calcDiff(d, t, u);
      o.add("dw_du", d->dw_du);
      MatrixXd A = MatrixXd::Constant(2, nw, 1.5), out = MatrixXd::Zero(2, nu - 1), outT = MatrixXd::Zero(nu - 1, 2);
      k.m->multiplyByJacobian(d, A, out);
      k.m->multiplyJacobianTransposeBy(d, A.transpose(), outT);
      o.add("AJ", out);
      o.add("JtA", outT);
      k.m->params(d, t, d->w);
      o.add("u", d->u);
    }
    return o;
  }
  SubP fresh() override { return std::make_shared<CtrlSub>(kind, nw); }
};

// ---- the histories
static void history(Src& s, Case& c, SubP first) {
  c.label(first->name);
  c.desc << first->name << ":";
  struct Obj {
    SubP s;
    std::vector<std::shared_ptr<void>> d;
  };
  std::vector<Obj> objs;
  objs.push_back(Obj{first, {first->data()}});
  int steps = s.integer(2, 12), changes = 0, evals = 0;
  bool changed = false, copied = false, without = false, checked = false;
  auto check = [&](Obj& o, std::shared_ptr<void> d, bool T, int what) {
    VectorXd x = o.s->genx(s), u = o.s->genu(s);
    auto f = o.s->fresh();
    auto fd = f->data();
    Out want = f->eval(fd, x, u, T, what), got = o.s->eval(d, x, u, T, what);
    const char* w = T ? "without control" : "evaluation";
    same_out("history", got, want, w);
    // Again, on the same data and on new data.
    same_out("repeat", o.s->eval(d, x, u, T, what), want, w);
    if (s.chance(1, 3)) same_out("new-data", o.s->eval(o.s->data(), x, u, T, what), want, w);
    if (evals + changes > 0) checked = true;
  };
  for (int i = 0; i < steps; ++i) {
    Obj& o = objs[s.integer(0, objs.size() - 1)];
    auto d = o.d[s.integer(0, o.d.size() - 1)];
    switch (s.integer(0, 6)) {
      case 0:
      case 1: {
        bool T = o.s->terminal() && s.chance(1, 3);
        int what = s.flip() ? 3 : 1;
        c.desc << (T ? " T" : " e") << what;
        o.s->eval(d, o.s->genx(s), o.s->genu(s), T, what);
        ++evals;
        without |= T;
        break;
      }
      case 2:
        c.desc << " data";
        o.d.push_back(o.s->data());
        break;
      case 3:
      case 4:
        if (o.s->mutate(s)) ++changes, changed = true, c.desc << " set";
        break;
      case 5: {
        auto n = objs.size() < 3 ? o.s->copy() : nullptr;
        if (!n) break;
        c.desc << " copy";
        objs.push_back(Obj{n, {n->data()}});
        copied = true;
        break;
      }
      default: {
        bool T = o.s->terminal() && s.chance(1, 3);
        c.desc << (T ? " CT" : " C");
        check(o, d, T, s.chance(1, 4) ? 1 : 3);
        without |= T;
        ++evals;
      }
    }
  }
  // At the end every model with every data.
  for (auto& o : objs)
    for (auto& d : o.d) check(o, d, o.s->terminal() && s.chance(1, 4), 3);
  if (changed) c.label("changed");
  if (copied) c.label("copied");
  if (without) c.label("without-control");
  c.nontrivial = checked && (evals + changes >= 2);
}
static void actions(Src& s, Case& c) {
  int k = s.integer(0, 5);
  std::shared_ptr<ActionSub> a;
  if (k == 0) {
    LQ l = LQ::gen(s, s.integer(1, 4), s.integer(1, 3), s.integer(0, 2), s.integer(0, 2), 0.1);
    a = std::make_shared<LqrSub>(l, l.model());
  } else if (k == 1) {
    a = std::make_shared<UnicycleSub>(s.logu(1e-3, 2.), s.vec(2, 5.));
  } else {
    std::shared_ptr<Diff> m;
    int nw = s.integer(1, 2);
    auto p = gen_par(s, c, m, nw);
    int scheme = std::vector<int>{0, 2, 3, 4}[s.integer(0, 3)];
    int ck = scheme == 0 ? 0 : s.integer(0, 3);
    a = std::make_shared<IntegSub>(p, m, scheme, ck, nw, gen_dt(s), s.chance(3, 4));
  }
  if (k < 3 && s.chance(1, 4)) return history(s, c, std::make_shared<NumSub>(a, false, 1e-5, false));
  history(s, c, a);
}
static void diffs(Src& s, Case& c) {
  std::shared_ptr<Diff> m;
  auto p = gen_par(s, c, m, s.integer(1, 3));
  history(s, c, std::make_shared<DiffSub>(p, m));
}
static void terms(Src& s, Case& c) {
  int k = s.integer(0, 3);
  if (k == 0) {
    ActRef r;
    r.kind = (ActKind)s.integer(0, NACTS - 1);
    r.nr = s.integer(1, 4);
    auto m = build_act(s, r);
    return history(s, c, std::make_shared<ActSub>(r, m));
  }
  auto st = gen_state(s, 3);
  int nu = s.integer(1, 3);
  if (k == 1) return history(s, c, std::make_shared<CostSub>(gen_cost(s, st, nu)));
  if (k == 2) return history(s, c, std::make_shared<ConSub>(gen_con(s, st, nu)));
  auto act = gen_actuation(s, st, nu, s.flip());
  int kind = s.integer(0, 2);
  int n = kind == 0 ? nu : kind == 1 ? act->get_nu() : st->get_nv();
  if (kind == 1 && act->get_nu() > st->get_nv()) kind = 0;
  history(s, c, std::make_shared<ResSub>(kind, s.vec(n), act, s.flip()));
}
static void controls(Src& s, Case& c) {
  if (s.flip()) return history(s, c, std::make_shared<CtrlSub>(s.integer(0, 3), s.integer(1, 3)));
  auto q = std::make_shared<SquashSub>();
  q->st = gen_state(s, 3);
  q->nu = s.integer(1, 3);
  q->act = gen_actuation(s, q->st, q->nu, s.flip());
  q->ulb = s.vec(q->nu).array() - 1.;
  q->uub = q->ulb.array() + s.uni(0.1, 3.);
  q->smooth = 0.;
  q->name = "squashing";
  q->build(std::make_shared<SquashSub::Sat>(q->ulb, q->uub, q->nu));
  history(s, c, q);
}

int main(int argc, char** argv) {
  Check k("C25", "at least two evaluations or parameter changes, on several data objects or copies, before the checked one");
  k.family("actions", 30000, 120000, actions);
  k.family("differential", 20000, 80000, diffs);
  k.family("terms", 40000, 150000, terms);
  k.family("controls", 20000, 80000, controls);
  k.assume("Copies share what they hold by pointer (residuals, activations, differential models).");
  k.assume("Removing the bounds of a constraint turns it into an equality, which needs new data (see C22).");
  k.assume("The control limits of an integrated model are read when it is built.");
  return k.main(argc, argv);
}
