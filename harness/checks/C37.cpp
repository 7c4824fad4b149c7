// Models that users derive from the base classes get the documented defaults.
#include "common/costs.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ActivationModelAbstractTpl<double> Activ;
typedef DataCollectorAbstractTpl<double> Shared;

// What the derived classes compute: anything smooth of the state and control.
struct Law {
  SmoothMap f;
  VectorXd operator()(const State& st, const VectorXd& x, const VectorXd& u) const { return f(arg(st, x, u)); }
  MatrixXd jac(const State& st, const VectorXd& x, const VectorXd& u) const { return f.jac(arg(st, x, u)); }
  static VectorXd arg(const State& st, const VectorXd& x, const VectorXd& u) {
    VectorXd z(st.get_ndx() + u.size());
    z << ref_diff(st, st.zero(), x), u;
    return z;
  }
  static Law gen(Src& s, const State& st, int nu, int rows) { return {SmoothMap::gen(s, rows, st.get_ndx() + nu, 1., 0.3)}; }
};

class UserRes : public Res {
 public:
  CROCODDYL_BASE_DERIVED_CAST(ResidualModelBase, UserRes)
  template <typename... A>
  UserRes(const Law& l, A... a) : Res(a...), L(l) {}
  void calc(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override { d->r = L(*state_, x, u); }
  void calcDiff(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    MatrixXd J = L.jac(*state_, x, u);
    d->Rx = J.leftCols(state_->get_ndx()), d->Ru = J.rightCols(u.size());
  }
  using Res::calc;
  using Res::calcDiff;
  Law L;
};
class UserCost : public Cost {
 public:
  CROCODDYL_BASE_DERIVED_CAST(CostModelBase, UserCost)
  template <typename... A>
  UserCost(const Law& l, A... a) : Cost(a...), L(l) {}
  void calc(const std::shared_ptr<CostData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override { d->cost = L(*state_, x, u)[0]; }
  void calcDiff(const std::shared_ptr<CostData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    MatrixXd J = L.jac(*state_, x, u);
    int n = state_->get_ndx();
    d->Lx = J.row(0).head(n), d->Lu = J.row(0).tail(u.size());
    MatrixXd H = J.transpose() * J;
    d->Lxx = H.topLeftCorner(n, n), d->Lxu = H.topRightCorner(n, u.size()), d->Luu = H.bottomRightCorner(u.size(), u.size());
  }
  using Cost::calc;
  using Cost::calcDiff;
  Law L;
};
class UserCon : public Con {
 public:
  CROCODDYL_BASE_DERIVED_CAST(ConstraintModelBase, UserCon)
  template <typename... A>
  UserCon(const Law& l, A... a) : Con(a...), L(l) {}
  void calc(const std::shared_ptr<ConData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    VectorXd v = L(*state_, x, u);
    d->g = v.head(d->g.size()), d->h = v.tail(d->h.size());
  }
  void calcDiff(const std::shared_ptr<ConData>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    MatrixXd J = L.jac(*state_, x, u);
    int n = state_->get_ndx(), g = d->g.size(), h = d->h.size();
    d->Gx = J.topLeftCorner(g, n), d->Gu = J.topRightCorner(g, u.size());
    d->Hx = J.bottomLeftCorner(h, n), d->Hu = J.bottomRightCorner(h, u.size());
  }
  using Con::calc;
  using Con::calcDiff;
  Law L;
};
template <class Base, class Data, class Name>
class UserAction : public Base {
 public:
  CROCODDYL_BASE_DERIVED_CAST(Name, UserAction)
  template <typename... A>
  UserAction(const Law& l, A... a) : Base(a...), L(l) {}
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override { d->cost = L(*this->state_, x, u)[0]; }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    MatrixXd J = L.jac(*this->state_, x, u);
    d->Lx = J.row(0).head(this->state_->get_ndx()), d->Lu = J.row(0).tail(u.size());
  }
  using Base::calc;
  using Base::calcDiff;
  Law L;
};
typedef UserAction<Action, ActionData, ActionModelBase> UAction;
typedef UserAction<Diff, DiffData, DifferentialActionModelBase> UDiff;

static void zero(const char* tag, const MatrixXd& m, long r, long c) {
  require(m.rows() == r && m.cols() == c, std::string(tag) + "-size", std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " instead of " + std::to_string(r) + "x" + std::to_string(c));
  require((m.array() == 0.).all(), std::string(tag) + "-zero", str(m));
}
static void equal(const char* tag, const MatrixXd& a, const MatrixXd& b) {
  require(a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(), tag, str(a) + " instead of " + str(b));
}
static bool flag(Src& s) { return s.chance(2, 3); }

static void residual(Src& s, Case& c) {
  auto st = gen_state(s, 2, s.flip());
  int nv = st->get_nv(), nr = s.integer(1, 4), n = st->get_ndx();
  bool q = true, v = true, u = true, with = s.flip();
  int nu = with ? s.integer(0, 4) : nv, given = s.integer(0, 3);
  if (given > 0) q = flag(s);
  if (given > 1) v = flag(s);
  if (given > 2) u = flag(s);
  Law l = Law::gen(s, *st, nu, nr);
  std::shared_ptr<UserRes> m;
  size_t zr = nr, zu = nu;
  std::shared_ptr<State> S = st;
  if (with)
    m = given == 0   ? std::make_shared<UserRes>(l, S, zr, zu)
        : given == 1 ? std::make_shared<UserRes>(l, S, zr, zu, q)
        : given == 2 ? std::make_shared<UserRes>(l, S, zr, zu, q, v)
                     : std::make_shared<UserRes>(l, S, zr, zu, q, v, u);
  else
    m = given == 0   ? std::make_shared<UserRes>(l, S, zr)
        : given == 1 ? std::make_shared<UserRes>(l, S, zr, q)
        : given == 2 ? std::make_shared<UserRes>(l, S, zr, q, v)
                     : std::make_shared<UserRes>(l, S, zr, q, v, u);
  c.desc << "residual nr=" << nr << " nu=" << nu << (with ? "" : " by default") << " " << q << v << u;
  c.label("residual");
  require(m->get_nr() == zr && m->get_nu() == zu && m->get_state() == S, "sizes");
  require(m->get_q_dependent() == q && m->get_v_dependent() == v && m->get_u_dependent() == u, "dependence");
  Shared sh;
  auto d = m->createData(&sh), e = m->createData(&sh);
  require(d->shared == &sh, "shared");
  zero("r", d->r, nr, 1), zero("Rx", d->Rx, nr, n), zero("Ru", d->Ru, nr, nu), zero("Arr_Rx", d->Arr_Rx, nr, n), zero("Arr_Ru", d->Arr_Ru, nr, nu);
  VectorXd x = gen_x(s, *st, 1.), w = s.vec(nu, 2.);
  if (s.flip()) m->calc(d, x, w), m->calcDiff(d, x, w);
  m->calc(d, x), m->calcDiff(d, x);
  m->calc(e, x, VectorXd::Zero(nu)), m->calcDiff(e, x, VectorXd::Zero(nu));
  equal("r", d->r, e->r), equal("Rx", d->Rx, e->Rx), equal("Ru", d->Ru, e->Ru);
  c.nontrivial = true;
}

static std::shared_ptr<Activ> activ(Src& s, int nr) {
  if (s.flip()) return std::make_shared<ActivationModelWeightedQuadTpl<double>>(s.vec(nr).cwiseAbs());
  return std::make_shared<ActivationModelQuadTpl<double>>(nr);
}
// References are the business of the derived class.
template <class M>
static void reference(Src& s, M& m) {
  require(throws([&] { m.set_reference(VectorXd(s.vec(2))); }), "set-reference");
  require(throws([&] { m.template get_reference<VectorXd>(); }), "get-reference");
}
static void cost(Src& s, Case& c) {
  auto st = gen_state(s, 2, s.flip());
  std::shared_ptr<State> S = st;
  int nv = st->get_nv(), n = st->get_ndx(), nr = s.integer(1, 4), nu = s.integer(0, 4), ctor = s.integer(0, 5);
  size_t zr = nr, zu = nu;
  std::shared_ptr<Activ> a = activ(s, nr);
  std::shared_ptr<UserCost> m;
  std::shared_ptr<Res> r = std::make_shared<NlResidual>(ResRef());
  if (ctor == 2 || ctor == 5) nu = nv;
  Law l = Law::gen(s, *st, nu, 1);
  Law lr = Law::gen(s, *st, nu, nr);
  r = std::make_shared<UserRes>(lr, S, zr, (size_t)nu);
  bool quad = ctor >= 3, given = ctor == 0 || ctor == 3;
  switch (ctor) {
    case 0: m = std::make_shared<UserCost>(l, S, a, r); break;
    case 1: m = std::make_shared<UserCost>(l, S, a, zu); break;
    case 2: m = std::make_shared<UserCost>(l, S, a); break;
    case 3: m = std::make_shared<UserCost>(l, S, r); break;
    case 4: m = std::make_shared<UserCost>(l, S, zr, zu); break;
    default: m = std::make_shared<UserCost>(l, S, zr);
  }
  c.desc << "cost ctor " << ctor << " nr=" << nr << " nu=" << nu;
  c.label("ctor" + std::to_string(ctor));
  if (ctor == 0) {
    std::shared_ptr<Activ> b = activ(s, nr + 1);
    require(throws([&] { UserCost(l, S, b, r); }), "nr-mismatch");
  }
  require(m->get_state() == S && m->get_nu() == (size_t)nu, "sizes");
  require(m->get_residual()->get_nr() == zr && m->get_residual()->get_nu() == (size_t)nu, "residual-sizes");
  require(!given || m->get_residual() == r, "residual-kept");
  require(m->get_activation()->get_nr() == zr, "activation-size");
  if (quad)
    require(dynamic_cast<ActivationModelQuadTpl<double>*>(m->get_activation().get()) != nullptr, "default-activation");
  else
    require(m->get_activation() == a, "activation-kept");
  reference(s, *m);
  Shared sh;
  auto d = m->createData(&sh), e = m->createData(&sh);
  require(d->shared == &sh && d->cost == 0. && d->residual && d->activation, "data");
  zero("Lx", d->Lx, n, 1), zero("Lu", d->Lu, nu, 1), zero("Lxx", d->Lxx, n, n), zero("Lxu", d->Lxu, n, nu), zero("Luu", d->Luu, nu, nu);
  zero("r", d->residual->r, nr, 1);
  VectorXd x = gen_x(s, *st, 1.), w = s.vec(nu, 2.);
  if (s.flip()) m->calc(d, x, w), m->calcDiff(d, x, w);
  m->calc(d, x), m->calcDiff(d, x);
  m->calc(e, x, VectorXd::Zero(nu)), m->calcDiff(e, x, VectorXd::Zero(nu));
  require(d->cost == e->cost, "cost");
  equal("Lx", d->Lx, e->Lx), equal("Lu", d->Lu, e->Lu), equal("Lxx", d->Lxx, e->Lxx), equal("Lxu", d->Lxu, e->Lxu), equal("Luu", d->Luu, e->Luu);
  c.nontrivial = true;
}

static void constraint(Src& s, Case& c) {
  auto st = gen_state(s, 2, s.flip());
  std::shared_ptr<State> S = st;
  int nv = st->get_nv(), n = st->get_ndx(), ctor = s.integer(0, 2), nu = ctor == 2 ? nv : s.integer(0, 4), ng = s.integer(0, 3), nh = s.integer(0, 3);
  size_t zu = nu, zg = ng, zh = nh;
  bool T = true, given = s.flip();
  Law l = Law::gen(s, *st, nu, ng + nh);
  std::shared_ptr<UserCon> m;
  std::shared_ptr<Res> r;
  if (ctor == 0) {
    int nr = s.integer(1, 5);
    bool q = s.flip(), v = s.flip();
    T = q || v;
    r = std::make_shared<UserRes>(Law::gen(s, *st, nu, nr), S, (size_t)nr, zu, q, v, true);
    bool bad = nh > nr || ng > 2 * (nr - nh);
    if (bad) {
      require(throws([&] { UserCon(l, S, r, zg, zh); }), "too-many");
      c.label("rejected");
      return;
    }
    m = std::make_shared<UserCon>(l, S, r, zg, zh);
  } else {
    if (given) T = s.flip();
    if (ctor == 1)
      m = given ? std::make_shared<UserCon>(l, S, zu, zg, zh, T) : std::make_shared<UserCon>(l, S, zu, zg, zh);
    else if (given)
      m = std::make_shared<UserCon>(l, S, zg, zh, T);
    else
      m = std::make_shared<UserCon>(l, S, zg, zh);
  }
  c.desc << "constraint ctor " << ctor << " nu=" << nu << " ng=" << ng << " nh=" << nh << " T=" << T;
  c.label("ctor" + std::to_string(ctor));
  require(m->get_state() == S && m->get_nu() == zu && m->get_T_constraint() == T, "sizes");
  require(ctor == 0 ? m->get_residual() == r : m->get_residual()->get_nr() == zg + zh && m->get_residual()->get_nu() == zu, "residual");
  if (ng + nh == 0) {
    Shared sh;
    require(throws([&] { m->createData(&sh); }), "nothing");
    return;
  }
  VectorXd lb = VectorXd::Constant(ng, -INF), ub = VectorXd::Constant(ng, INF);
  bool bounded = true;
  int k = s.integer(0, 5);
  for (int i = 0;; ++i) {
    int g = bounded ? ng : 0, h = bounded ? nh : ng + nh;
    require((long)m->get_ng() == g && (long)m->get_nh() == h, "rows", std::to_string(m->get_ng()) + "+" + std::to_string(m->get_nh()));
    equal("lb", m->get_lb(), lb), equal("ub", m->get_ub(), ub);
    ConstraintType t = g && h ? ConstraintType::Both : g ? ConstraintType::Inequality : ConstraintType::Equality;
    require(m->get_type() == t, "type", std::to_string((int)m->get_type()));
    Shared sh;
    auto d = m->createData(&sh), e = m->createData(&sh);
    zero("g", d->g, g, 1), zero("h", d->h, h, 1), zero("Gx", d->Gx, g, n), zero("Hx", d->Hx, h, n), zero("Gu", d->Gu, g, nu), zero("Hu", d->Hu, h, nu);
    VectorXd x = gen_x(s, *st, 1.), w = s.vec(nu, 2.);
    if (s.flip()) m->calc(d, x, w), m->calcDiff(d, x, w);
    m->calc(d, x), m->calcDiff(d, x);
    m->calc(e, x, VectorXd::Zero(nu)), m->calcDiff(e, x, VectorXd::Zero(nu));
    equal("g", d->g, e->g), equal("h", d->h, e->h), equal("Gx", d->Gx, e->Gx), equal("Hx", d->Hx, e->Hx), equal("Gu", d->Gu, e->Gu), equal("Hu", d->Hu, e->Hu);
    if (i == k) break;
    switch (s.integer(0, 2)) {
      case 0:
        m->remove_bounds();
        bounded = false;
        lb.setConstant(-INF), ub.setConstant(INF);
        c.label("removed");
        break;
      case 1: {
        VectorXd a(ng), b(ng);
        for (int j = 0; j < ng; ++j) {
          a[j] = s.chance(1, 4) ? -INF : s.real(2.);
          b[j] = s.chance(1, 4) ? INF : (std::isinf(a[j]) ? 0. : a[j]) + s.uni(0., 2.);
        }
        m->update_bounds(a, b);
        lb = a, ub = b, bounded = true;
        c.label("bounds");
        break;
      }
      default: {
        VectorXd a = VectorXd::Constant(ng, -1.), b = VectorXd::Constant(ng, 1.);
        int z = s.integer(0, ng ? 6 : 1), j = ng ? s.integer(0, ng - 1) : 0;
        if (z == 0) a = VectorXd::Zero(ng + 1);
        if (z == 1) b = VectorXd::Zero(ng + 1);
        if (z == 2) a[j] = 2.;
        if (z == 3) a[j] = b[j] = INF;
        if (z == 4) a[j] = b[j] = -INF;
        if (z == 5) a[j] = b[j] = std::numeric_limits<double>::max();
        if (z == 6) a[j] = b[j] = -std::numeric_limits<double>::max();
        require(throws([&] { m->update_bounds(a, b); }), "bad-bounds", std::to_string(z));
        c.label("rejected");
      }
    }
  }
  c.nontrivial = true;
}

template <class M, class D>
static void action_of(Src& s, Case& c, bool discrete) {
  auto st = gen_state(s, 2, s.flip());
  std::shared_ptr<State> S = st;
  int n = st->get_ndx(), given = s.integer(0, 5), nu = s.integer(0, 4), v[5] = {0, 0, 0, 0, 0};
  for (int i = 0; i < given; ++i) v[i] = s.integer(0, 3);
  size_t z[5];
  for (int i = 0; i < 5; ++i) z[i] = v[i];
  size_t zu = nu;
  Law l = Law::gen(s, *st, nu, 1);
  std::shared_ptr<M> m = given == 0   ? std::make_shared<M>(l, S, zu)
                         : given == 1 ? std::make_shared<M>(l, S, zu, z[0])
                         : given == 2 ? std::make_shared<M>(l, S, zu, z[0], z[1])
                         : given == 3 ? std::make_shared<M>(l, S, zu, z[0], z[1], z[2])
                         : given == 4 ? std::make_shared<M>(l, S, zu, z[0], z[1], z[2], z[3])
                                      : std::make_shared<M>(l, S, zu, z[0], z[1], z[2], z[3], z[4]);
  c.desc << (discrete ? "action" : "differential action") << " nu=" << nu << " nr=" << v[0] << " ng=" << v[1] << " nh=" << v[2] << " ng_T=" << v[3] << " nh_T=" << v[4];
  require(m->get_state() == S && m->get_nu() == zu && m->get_nr() == z[0] && m->get_ng() == z[1] && m->get_nh() == z[2] && m->get_ng_T() == z[3] && m->get_nh_T() == z[4], "sizes");
  int g = std::max(v[1], v[3]), h = std::max(v[2], v[4]), nr = v[0];
  equal("g_lb", m->get_g_lb(), VectorXd::Constant(g, -INF)), equal("g_ub", m->get_g_ub(), VectorXd::Constant(g, INF));
  equal("u_lb", m->get_u_lb(), VectorXd::Constant(nu, -INF)), equal("u_ub", m->get_u_ub(), VectorXd::Constant(nu, INF));
  require(!m->get_has_control_limits(), "limits");
  if (s.flip()) {  // limits as they are set; the model is limited when any of them is finite
    VectorXd b[2] = {m->get_u_lb(), m->get_u_ub()};
    for (int i = s.integer(1, 4); i > 0; --i) {
      bool low = s.flip();
      VectorXd& w = b[low ? 0 : 1];
      for (int j = 0; j < nu; ++j) w[j] = s.flip() ? (low ? -INF : INF) : (low ? -1. : 1.) * s.uni(0., 2.);
      low ? m->set_u_lb(w) : m->set_u_ub(w);
      equal("u_lb-set", m->get_u_lb(), b[0]), equal("u_ub-set", m->get_u_ub(), b[1]);
      require(m->get_has_control_limits() == (b[0].array().isFinite().any() || b[1].array().isFinite().any()), "limits-set");
    }
  }
  auto d = m->createData(), e = m->createData();
  require(d->cost == 0., "cost");
  zero("Fx", d->Fx, discrete ? n : st->get_nv(), n), zero("Fu", d->Fu, discrete ? n : st->get_nv(), nu), zero("r", d->r, nr, 1);
  zero("Lx", d->Lx, n, 1), zero("Lu", d->Lu, nu, 1), zero("Lxx", d->Lxx, n, n), zero("Lxu", d->Lxu, n, nu), zero("Luu", d->Luu, nu, nu);
  zero("g", d->g, g, 1), zero("Gx", d->Gx, g, n), zero("Gu", d->Gu, g, nu), zero("h", d->h, h, 1), zero("Hx", d->Hx, h, n), zero("Hu", d->Hu, h, nu);
  VectorXd x = gen_x(s, *st, 1.), w = s.vec(nu, 2.);
  if (s.flip()) m->calc(d, x, w), m->calcDiff(d, x, w);
  m->calc(d, x), m->calcDiff(d, x);
  m->calc(e, x, VectorXd::Zero(nu)), m->calcDiff(e, x, VectorXd::Zero(nu));
  require(d->cost == e->cost, "value");
  equal("Lx", d->Lx, e->Lx), equal("Lu", d->Lu, e->Lu);
  c.nontrivial = true;
}
static void action(Src& s, Case& c) { s.flip() ? action_of<UAction, ActionData>(s, c, true) : action_of<UDiff, DiffData>(s, c, false); }

// Sums and stacks treat them like the library's own.
static void sums(Src& s, Case& c) {
  auto st = gen_state(s, 2, s.flip());
  std::shared_ptr<State> S = st;
  int nu = s.integer(0, 3), n = s.integer(1, 5), ndx = st->get_ndx();
  size_t zu = nu;
  CostSum sum(S, zu);
  ConMan man(S, zu);
  std::map<std::string, std::pair<Law, double>> costs;
  struct Rows {
    Law l;
    int ng, nh;
    bool T;
    VectorXd lb, ub;
  };
  std::map<std::string, Rows> cons;
  for (int i = 0; i < n; ++i) {
    std::string name = std::string(1, (char)('a' + s.integer(0, 25))) + std::to_string(i);
    bool active = s.chance(3, 4);
    if (s.flip()) {
      Law l = Law::gen(s, *st, nu, 1);
      double w = s.logu(0.1, 10.);
      std::shared_ptr<Cost> m = s.flip() ? std::make_shared<UserCost>(l, S, (size_t)s.integer(1, 3), zu) : std::make_shared<UserCost>(l, S, activ(s, 2), zu);
      sum.addCost(name, m, w, active);
      if (active) costs[name] = {l, w};
    } else {
      int ng = s.integer(0, 2), nh = s.integer(ng ? 0 : 1, 2);
      Rows r{Law::gen(s, *st, nu, ng + nh), ng, nh, s.flip(), VectorXd::Constant(ng, -INF), VectorXd::Constant(ng, INF)};
      auto m = std::make_shared<UserCon>(r.l, S, zu, (size_t)ng, (size_t)nh, r.T);
      if (s.flip()) {
        r.lb = s.vec(ng), r.ub = r.lb.array() + 1.;
        m->update_bounds(r.lb, r.ub);
      }
      man.addConstraint(name, m, active);
      if (active) cons[name] = r;
    }
  }
  c.desc << n << " terms, " << costs.size() << " active costs, " << cons.size() << " active constraints";
  c.nontrivial = costs.size() + cons.size() > 1;
  VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu, 2.);
  for (int T = 0; T < 2; ++T) {
    VectorXd w = T ? VectorXd::Zero(nu) : u;
    Shared sh;
    auto d = sum.createData(&sh);
    auto q = man.createData(&sh);
    q->resize(&man, !T);
    if (T) {
      sum.calc(d, x), sum.calcDiff(d, x);
      man.calc(q, x), man.calcDiff(q, x);
    } else {
      sum.calc(d, x, u), sum.calcDiff(d, x, u);
      man.calc(q, x, u), man.calcDiff(q, x, u);
    }
    double v = 0.;
    VectorXd L = VectorXd::Zero(ndx + nu);
    MatrixXd H = MatrixXd::Zero(ndx + nu, ndx + nu);
    for (auto& k : costs) {
      MatrixXd J = k.second.first.jac(*st, x, w);
      v += k.second.second * k.second.first(*st, x, w)[0];
      L += k.second.second * J.transpose(), H += k.second.second * J.transpose() * J;
    }
    near("cost", d->cost, v, 1e-12, "cost");
    nearm("Lx", MatrixXd(d->Lx), L.head(ndx), 1e-12, "Lx");
    nearm("Lxx", MatrixXd(d->Lxx), H.topLeftCorner(ndx, ndx), 1e-12, "Lxx");
    if (!T) {
      nearm("Lu", MatrixXd(d->Lu), L.tail(nu), 1e-12, "Lu");
      nearm("Lxu", MatrixXd(d->Lxu), H.topRightCorner(ndx, nu), 1e-12, "Lxu");
      nearm("Luu", MatrixXd(d->Luu), H.bottomRightCorner(nu, nu), 1e-12, "Luu");
    }
    int ng = 0, nh = 0;
    VectorXd lb(0), ub(0);
    for (auto& k : cons) {
      if (T && !k.second.T) continue;
      VectorXd f = k.second.l(*st, x, w);
      MatrixXd J = k.second.l.jac(*st, x, w);
      int a = k.second.ng, b = k.second.nh;
      require(ng + a <= q->g.size() && nh + b <= q->h.size(), "rows");
      nearm("g", VectorXd(q->g.segment(ng, a)), VectorXd(f.head(a)), 1e-12, "g");
      nearm("h", VectorXd(q->h.segment(nh, b)), VectorXd(f.tail(b)), 1e-12, "h");
      nearm("Gx", MatrixXd(q->Gx.middleRows(ng, a)), MatrixXd(J.topLeftCorner(a, ndx)), 1e-12, "Gx");
      nearm("Hx", MatrixXd(q->Hx.middleRows(nh, b)), MatrixXd(J.bottomLeftCorner(b, ndx)), 1e-12, "Hx");
      if (!T) {
        nearm("Gu", MatrixXd(q->Gu.middleRows(ng, a)), MatrixXd(J.topRightCorner(a, nu)), 1e-12, "Gu");
        nearm("Hu", MatrixXd(q->Hu.middleRows(nh, b)), MatrixXd(J.bottomRightCorner(b, nu)), 1e-12, "Hu");
      }
      lb.conservativeResize(ng + a), ub.conservativeResize(ng + a);
      lb.tail(a) = k.second.lb, ub.tail(a) = k.second.ub;
      ng += a, nh += b;
    }
    require(q->g.size() == ng && q->h.size() == nh, "rows", std::to_string(q->g.size()) + "+" + std::to_string(q->h.size()));
    require((long)(T ? man.get_ng_T() : man.get_ng()) == ng && (long)(T ? man.get_nh_T() : man.get_nh()) == nh, "count");
    if (!T) equal("lb", man.get_lb(), lb), equal("ub", man.get_ub(), ub);
  }
}

int main(int argc, char** argv) {
  Check k("C37",
          "A case is a model derived from a base class (residual, cost, constraint, action, differential action) with "
          "generated sizes and any of the base constructors, or sums and stacks of such models. Non-trivial: it was "
          "evaluated with and without control; more than one active term.");
  k.family("residual", 40000, 800000, residual);
  k.family("cost", 40000, 800000, cost);
  k.family("constraint", 40000, 800000, constraint);
  k.family("action", 40000, 800000, action);
  k.family("sums", 40000, 800000, sums);
  return k.main(argc, argv);
}
