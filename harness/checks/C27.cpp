// C27: invalid arguments are rejected and leave objects unchanged.
// USES_SOLVERS
//
// Every object is driven by a history of valid changes. In each state of the
// history every invalid call the object's operations document is made (wrong
// sizes, values out of range, models that do not fit), each one has to raise an
// error, and what the object answers (getters, and evaluations on data that
// exists and on fresh data) is compared bit by bit with what it answered before.
// Valid calls at the edge of the permitted range have to be accepted.
#include "common/solve.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
using namespace vf;
using namespace crocoddyl;

namespace {
struct Snap {
  std::vector<std::pair<std::string, MatrixXd>> v;
  void add(const std::string& n, double d) { v.emplace_back(n, MatrixXd::Constant(1, 1, d)); }
  template <class M>
  void add(const std::string& n, const Eigen::MatrixBase<M>& m) {
    v.emplace_back(n, m);
  }
};
void compare(const Snap& a, const Snap& b, const std::string& what) {
  require(a.v.size() == b.v.size(), "changed", what + ": other queries");
  for (size_t i = 0; i < a.v.size(); ++i)
    if (!same(a.v[i].second, b.v[i].second))
      fail("changed-" + a.v[i].first, "after the rejected call " + what + " the object answers " + str(b.v[i].second) +
                                          " instead of " + str(a.v[i].second) + " for " + a.v[i].first);
}
// kind: 0 has to throw and change nothing, 1 has to be accepted, 2 is ignored
// (no error, no change)
struct Op {
  std::string name;
  int kind;
  std::function<void()> f;
};
typedef std::vector<Op> Ops;
enum { BAD = 0, GOOD = 1, IGNORED = 2 };

// Runs the invalid and edge calls in an order of its own.
void sweep(Src& s, Case& c, Ops ops, const std::function<Snap()>& snap) {
  const size_t off = ops.empty() ? 0 : s.draw(ops.size());
  std::rotate(ops.begin(), ops.begin() + off, ops.end());
  snap();
  Snap before = snap();
  int bad = 0;
  for (Op& o : ops) {
    const bool t = throws(o.f);
    if (o.kind == BAD && !t) fail("accepted-" + o.name, "invalid call " + o.name + " was accepted");
    if (o.kind != BAD && t) fail("rejected-" + o.name, "valid call " + o.name + " was rejected");
    if (o.kind == GOOD) {
      snap();
      before = snap();
    } else {
      compare(before, snap(), o.name);
      ++bad;
    }
  }
  if (bad >= 3) c.nontrivial = true;
  if (!c.desc.str().empty()) c.desc << " ";
  c.desc << bad << "/" << ops.size();
}

VectorXd wrong(Src& s, int n) {
  std::vector<int> k = {n + 1, n + 2, 2 * n + 3};
  if (n > 0) k.push_back(n - 1), k.push_back(0);
  return s.vec(s.pick(k));
}
MatrixXd wrongm(Src& s, int r, int c) {
  const int dr = s.integer(0, 2), dc = s.integer(0, 2);
  if (dr == 0 && dc == 0) return s.mat(r + 1, c);
  int rr = dr == 2 && r > 0 ? r - 1 : dr ? r + 1 : r;
  int cc = dc == 2 && c > 0 ? c - 1 : dc ? c + 1 : c;
  return s.mat(rr, cc);
}
double above(double v) { return std::nextafter(v, INF); }
double below(double v) { return std::nextafter(v, -INF); }
VectorXd bound(Src& s, int n, bool up) {
  VectorXd v(n);
  for (int i = 0; i < n; ++i) v[i] = s.chance(1, 6) ? (up ? INF : -INF) : (up ? 1. : -1.) * s.uni(0., 3.);
  return v;
}

void state_snap(Snap& p, const State& st) {
  p.add("state-lb", st.get_lb());
  p.add("state-ub", st.get_ub());
  p.add("state-limits", st.get_has_limits());
  p.add("nx", st.get_nx());
  p.add("ndx", st.get_ndx());
}
void state_ops(Src& s, Ops& o, State& st) {
  State* m = &st;
  const VectorXd a = wrong(s, st.get_nx()), b = wrong(s, st.get_nx());
  o.push_back({"state-set_lb", BAD, [=] { m->set_lb(a); }});
  o.push_back({"state-set_ub", BAD, [=] { m->set_ub(b); }});
  if (s.flip()) {
    const VectorXd l = bound(s, st.get_nx(), false), u = bound(s, st.get_nx(), true);
    o.push_back({"state-lb", GOOD, [=] { m->set_lb(l); }});
    o.push_back({"state-ub", GOOD, [=] { m->set_ub(u); }});
  }
}

// --- action and differential models -----------------------------------------
template <class D>
void common_data(Snap& p, const D& d, const std::string& w) {
  p.add(w + "cost", d.cost);
  p.add(w + "r", d.r);
  p.add(w + "g", d.g);
  p.add(w + "h", d.h);
  p.add(w + "Fx", d.Fx);
  p.add(w + "Fu", d.Fu);
  p.add(w + "Lx", d.Lx);
  p.add(w + "Lu", d.Lu);
  p.add(w + "Lxx", d.Lxx);
  p.add(w + "Lxu", d.Lxu);
  p.add(w + "Luu", d.Luu);
  p.add(w + "Gx", d.Gx);
  p.add(w + "Gu", d.Gu);
  p.add(w + "Hx", d.Hx);
  p.add(w + "Hu", d.Hu);
}
void out(Snap& p, const ActionData& d, const std::string& w) {
  p.add(w + "xnext", d.xnext);
  common_data(p, d, w);
}
void out(Snap& p, const DiffData& d, const std::string& w) {
  p.add(w + "xout", d.xout);
  common_data(p, d, w);
}
template <class M, class D>
Snap model_snap(M& m, const std::shared_ptr<D>& old, const VectorXd& x, const VectorXd& u) {
  Snap p;
  p.add("nu", m.get_nu());
  p.add("nr", m.get_nr());
  p.add("ng", m.get_ng());
  p.add("nh", m.get_nh());
  p.add("ng_T", m.get_ng_T());
  p.add("nh_T", m.get_nh_T());
  p.add("limits", m.get_has_control_limits());
  p.add("u_lb", m.get_u_lb());
  p.add("u_ub", m.get_u_ub());
  p.add("g_lb", m.get_g_lb());
  p.add("g_ub", m.get_g_ub());
  state_snap(p, *m.get_state());
  std::shared_ptr<D> fresh = m.createData();
  for (auto& d : {fresh, old}) {
    const std::string w = d == old ? "old-" : "";
    m.calc(d, x, u);
    m.calcDiff(d, x, u);
    out(p, *d, w);
    m.calc(d, x);
    m.calcDiff(d, x);
    out(p, *d, w + "T-");
  }
  return p;
}
// checked: the evaluations check their arguments themselves
template <class M, class D>
void model_ops(Src& s, Ops& o, const std::shared_ptr<M>& m, const std::shared_ptr<D>& d, bool checked, bool g_setters = true,
               bool u_setters = true) {
  const int nx = m->get_state()->get_nx(), nu = m->get_nu();
  const int ng = std::max(m->get_ng(), m->get_ng_T());
  const VectorXd x = gen_x(s, *m->get_state(), 1.), u = s.vec(nu);
  const VectorXd xw = wrong(s, nx), uw = wrong(s, nu);
  if (checked) {
    o.push_back({"calc-x", BAD, [=] { m->calc(d, xw, u); }});
    o.push_back({"calc-u", BAD, [=] { m->calc(d, x, uw); }});
    o.push_back({"calc-T-x", BAD, [=] { m->calc(d, xw); }});
    o.push_back({"calcDiff-x", BAD, [=] { m->calcDiff(d, xw, u); }});
    o.push_back({"calcDiff-u", BAD, [=] { m->calcDiff(d, x, uw); }});
    o.push_back({"calcDiff-T-x", BAD, [=] { m->calcDiff(d, xw); }});
  }
  o.push_back({"quasiStatic-u", BAD, [=] {
                 VectorXd w = uw;
                 m->quasiStatic(d, w, x, 10, 1e-9);
               }});
  o.push_back({"quasiStatic-x", BAD, [=] {
                 VectorXd w = u;
                 m->quasiStatic(d, w, xw, 10, 1e-9);
               }});
  o.push_back({"quasiStatic_x", BAD, [=] { m->quasiStatic_x(d, xw, 10, 1e-9); }});
  const VectorXd b1 = wrong(s, nu), b2 = wrong(s, nu), b3 = wrong(s, ng), b4 = wrong(s, ng);
  if (u_setters) {
    o.push_back({"set_u_lb", BAD, [=] { m->set_u_lb(b1); }});
    o.push_back({"set_u_ub", BAD, [=] { m->set_u_ub(b2); }});
  }
  if (g_setters) {
    o.push_back({"set_g_lb", BAD, [=] { m->set_g_lb(b3); }});
    o.push_back({"set_g_ub", BAD, [=] { m->set_g_ub(b4); }});
  }
  if (s.flip()) {
    const VectorXd l = bound(s, nu, false), h = bound(s, nu, true), gl = bound(s, ng, false), gu = bound(s, ng, true);
    if (u_setters) {
      o.push_back({"u_lb", GOOD, [=] {
                     m->set_u_lb(l);
                     nearm("get-u_lb", m->get_u_lb(), l, 0);
                   }});
      o.push_back({"u_ub", GOOD, [=] {
                     m->set_u_ub(h);
                     nearm("get-u_ub", m->get_u_ub(), h, 0);
                   }});
    }
    if (g_setters) {
      o.push_back({"g_lb", GOOD, [=] { m->set_g_lb(gl); }});
      o.push_back({"g_ub", GOOD, [=] { m->set_g_ub(gu); }});
    }
  }
  state_ops(s, o, *m->get_state());
}

template <class M>
struct LqArgs {
  static const int na = 0;
};
// The arguments of set_LQR: matrices then vectors.
struct LqPack {
  std::vector<MatrixXd> M;
  std::vector<VectorXd> v;
};
typedef ActionModelLQRTpl<double> Lqr;
typedef DifferentialActionModelLQRTpl<double> DLqr;
void apply(Lqr& m, const LqPack& p) {
  m.set_LQR(p.M[0], p.M[1], p.M[2], p.M[3], p.M[4], p.M[5], p.M[6], p.v[0], p.v[1], p.v[2], p.v[3], p.v[4]);
}
void apply(DLqr& m, const LqPack& p) {
  m.set_LQR(p.M[0], p.M[1], p.M[2], p.M[3], p.M[4], p.M[5], p.M[6], p.M[7], p.v[0], p.v[1], p.v[2], p.v[3], p.v[4]);
}
std::shared_ptr<Lqr> build(const LqPack& p, Lqr*) {
  return std::make_shared<Lqr>(p.M[0], p.M[1], p.M[2], p.M[3], p.M[4], p.M[5], p.M[6], p.v[0], p.v[1], p.v[2], p.v[3],
                               p.v[4]);
}
std::shared_ptr<DLqr> build(const LqPack& p, DLqr*) {
  return std::make_shared<DLqr>(p.M[0], p.M[1], p.M[2], p.M[3], p.M[4], p.M[5], p.M[6], p.M[7], p.v[0], p.v[1], p.v[2],
                                p.v[3], p.v[4]);
}
// off: 0 for the action model, 1 for the differential one
LqPack gen_pack(Src& s, int off, int n, int nu, int ng, int nh, bool zero_cost) {
  LqPack p;
  const int nx = off ? 2 * n : n;
  p.M.push_back(s.mat(n, n));
  if (off) p.M.push_back(s.mat(n, n));
  p.M.push_back(s.mat(n, nu));
  MatrixXd L = zero_cost ? MatrixXd(MatrixXd::Zero(nx + nu, nx + nu)) : s.spd(nx + nu, 0.1);
  p.M.push_back(L.topLeftCorner(nx, nx));
  p.M.push_back(L.bottomRightCorner(nu, nu));
  p.M.push_back(L.topRightCorner(nx, nu));
  p.M.push_back(s.mat(ng, nx + nu));
  p.M.push_back(s.mat(nh, nx + nu));
  p.v = {s.vec(n), s.vec(nx), s.vec(nu), s.vec(ng), s.vec(nh)};
  return p;
}
template <class M>
void lq_snap(Snap& p, const M& m) {
  p.add("B", m.get_B());
  p.add("Q", m.get_Q());
  p.add("R", m.get_R());
  p.add("N", m.get_N());
  p.add("G", m.get_G());
  p.add("H", m.get_H());
  p.add("f", m.get_f());
  p.add("q", m.get_q());
  p.add("r", m.get_r());
  p.add("gv", m.get_g());
  p.add("hv", m.get_h());
}
template <class M>
void lq_ops(Src& s, Ops& o, const std::shared_ptr<M>& m, int off, int n, int nu, int ng, int nh) {
  static const char* names[] = {"A", "B", "Q", "R", "N", "G", "H"};
  const LqPack ok = gen_pack(s, off, n, nu, ng, nh, false);
  for (size_t i = 0; i < ok.M.size(); ++i) {
    LqPack b = ok;
    const std::string nm = off && i == 0 ? "Aq" : off && i == 1 ? "Av" : names[i - off];
    b.M[i] = wrongm(s, ok.M[i].rows(), ok.M[i].cols());
    o.push_back({"set_LQR-" + nm, BAD, [=] { apply(*m, b); }});
    // The constructors take the dimensions from A, B, G and H
    LqPack k = ok;
    bool defines = nm == "A" || nm == "Aq" || nm == "B" || nm == "G" || nm == "H";
    if (!defines) o.push_back({"construct-" + nm, BAD, [=] { build(b, (M*)nullptr); }});
  }
  for (size_t i = 0; i < ok.v.size(); ++i) {
    static const char* vn[] = {"f", "q", "r", "g", "h"};
    LqPack b = ok;
    b.v[i] = wrong(s, ok.v[i].size());
    o.push_back({std::string("set_LQR-") + vn[i], BAD, [=] { apply(*m, b); }});
    o.push_back({std::string("construct-") + vn[i], BAD, [=] { build(b, (M*)nullptr); }});
  }
  LqPack b = ok;
  const int kind = s.integer(0, 2);
  MatrixXd& Q = b.M[2 + off];
  MatrixXd& R = b.M[3 + off];
  MatrixXd& N = b.M[4 + off];
  if (kind == 0 || nu == 0)
    Q(s.draw(Q.rows()), 0) = 0., Q.diagonal()[s.draw(Q.rows())] = -s.uni(0.1, 2.);
  else if (kind == 1)
    R.diagonal()[s.draw(nu)] = -s.uni(0.1, 2.);
  else {  // each block is definite, the whole is not
    N.setZero();
    const int i = s.draw(Q.rows()), j = s.draw(nu);
    N(i, j) = 1. + 2. * std::sqrt(Q(i, i) * R(j, j));
  }
  if (kind == 0 || nu == 0) {
    const MatrixXd t = Q;
    Q = t.triangularView<Eigen::Upper>();
    Q = (Q + MatrixXd(Q.transpose())).eval();
    Q.diagonal() /= 2.;
  }
  o.push_back({"set_LQR-indefinite", BAD, [=] { apply(*m, b); }});
  o.push_back({"construct-indefinite", BAD, [=] { build(b, (M*)nullptr); }});
  o.push_back({"set_LQR", GOOD, [=] { apply(*m, ok); }});
  if (s.chance(1, 4)) {
    const LqPack z = gen_pack(s, off, n, nu, ng, nh, true);
    o.push_back({"set_LQR-zero-cost", GOOD, [=] { apply(*m, z); }});
  }
}

void disturbance(Src& s, Ops& o, const std::function<void(double)>& set, const std::function<double()>& get) {
  const double b = -s.logu(1e-12, 1.);
  o.push_back({"set_disturbance", BAD, [=] { set(b); }});
  o.push_back({"set_disturbance-tiny", BAD, [=] { set(-4.9e-324); }});
  if (s.flip()) {
    const double v = s.logu(1e-8, 1e-5);
    o.push_back({"disturbance", GOOD, [=] {
                   set(v);
                   near("get-disturbance", get(), v, 0);
                 }});
  }
}

void actions(Src& s, Case& c) {
  const int kind = s.integer(0, 4);
  static const char* kn[] = {"nonlinear", "lqr", "unicycle", "integrated", "numdiff"};
  c.label(kn[kind]);
  c.desc << kn[kind];
  std::shared_ptr<Action> m;
  std::shared_ptr<ActionModelNumDiffTpl<double>> nd;
  std::shared_ptr<Lqr> lqr;
  IntegCase ic;
  int n = 0, nu = s.integer(0, 3), ng = 0, nh = 0;
  if (kind == 0 || kind == 4) {
    ModelSpec sp;
    sp.ng = s.integer(0, 2);
    sp.nh = s.integer(0, 2);
    sp.ng_T = kind == 4 ? sp.ng : s.integer(0, 3);
    sp.nh_T = kind == 4 ? sp.nh : s.integer(0, 2);
    m = gen_nlaction(s, gen_state(s), nu, sp);
    if (kind == 4) m = nd = std::make_shared<ActionModelNumDiffTpl<double>>(m, s.flip());
  } else if (kind == 1) {
    n = s.integer(1, 4);
    ng = s.integer(0, 2);
    nh = s.integer(0, 2);
    m = lqr = build(gen_pack(s, 0, n, nu, ng, nh, false), (Lqr*)nullptr);
  } else if (kind == 2) {
    m = std::make_shared<ActionModelUnicycleTpl<double>>();
  } else {
    ic = gen_integ(s, c);
    m = ic.m;
  }
  const VectorXd x = gen_x(s, *m->get_state(), 1.), u = s.vec(m->get_nu());
  std::shared_ptr<ActionData> d = m->createData();
  auto snap = [&] {
    Snap p = model_snap(*m, d, x, u);
    if (lqr) {
      p.add("A", lqr->get_A());
      lq_snap(p, *lqr);
    }
    if (kind == 2) p.add("dt", static_cast<ActionModelUnicycleTpl<double>&>(*m).get_dt());
    if (kind == 3) {
      p.add("dt", ic.m->get_dt());
      p.add("same-differential", ic.m->get_differential().get() == ic.d.m.get());
      p.add("same-control", ic.m->get_control().get() == ic.k.m.get());
      const std::shared_ptr<DiffData> dd = ic.d.m->createData();
      ic.d.m->calc(dd, x, VectorXd::Constant(ic.d.nu, 0.3));
      out(p, *dd, "differential-");
    }
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    model_ops(s, o, m, d, kind != 0, kind != 3, true);
    if (lqr) lq_ops(s, o, lqr, 0, n, nu, ng, nh);
    if (kind == 2) {
      auto q = std::static_pointer_cast<ActionModelUnicycleTpl<double>>(m);
      const double b = -s.logu(1e-12, 2.), g = s.logu(1e-6, 1.);
      o.push_back({"unicycle-dt", BAD, [=] { q->set_dt(b); }});
      o.push_back({"unicycle-dt-zero", BAD, [=] { q->set_dt(0.); }});
      o.push_back({"unicycle-dt-valid", GOOD, [=] {
                     q->set_dt(g);
                     near("get-dt", q->get_dt(), g, 0);
                   }});
    }
    if (kind == 3) {
      auto q = ic.m;
      const double b = -s.logu(1e-12, 2.), g = s.logu(1e-6, 1.);
      o.push_back({"integrated-dt", BAD, [=] { q->set_dt(b); }});
      if (s.flip())
        o.push_back({"integrated-dt-valid", GOOD, [=] {
                       q->set_dt(g);
                       near("get-dt", q->get_dt(), g, 0);
                     }});
      if (s.chance(1, 4)) o.push_back({"integrated-dt-zero", GOOD, [=] { q->set_dt(0.); }});
      ModelSpec sp;
      std::shared_ptr<Diff> other = gen_nldiff(s, ic.d.st, ic.d.nu + s.integer(1, 2), sp);
      std::shared_ptr<Ctrl> k = ic.k.m;
      const int scheme = ic.scheme;
      o.push_back({"set_differential", BAD, [=] { q->set_differential(other); }});
      o.push_back({"construct-control", BAD, [=] { make_integ(scheme, other, k, 0.1, true); }});
      if (ic.d.nu > 0) {
        std::shared_ptr<Diff> less = gen_nldiff(s, ic.d.st, ic.d.nu - 1, sp);
        o.push_back({"set_differential-less", BAD, [=] { q->set_differential(less); }});
        o.push_back({"construct-control-less", BAD, [=] { make_integ(scheme, less, k, 0.1, true); }});
      }
    }
    if (nd)
      disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    sweep(s, c, o, snap);
  }
}

void diffs(Src& s, Case& c) {
  const int kind = s.integer(0, 3);
  static const char* kn[] = {"nonlinear", "lqr", "costs", "numdiff"};
  c.label(kn[kind]);
  c.desc << kn[kind];
  std::shared_ptr<Diff> m;
  std::shared_ptr<DLqr> lqr;
  std::shared_ptr<DifferentialActionModelNumDiffTpl<double>> nd;
  int n = 0, nu = s.integer(0, 3), ng = 0, nh = 0;
  if (kind == 0 || kind == 3) {
    ModelSpec sp;
    sp.nr = s.integer(1, 3);
    sp.ng = sp.ng_T = s.integer(0, 2);
    sp.nh = sp.nh_T = s.integer(0, 2);
    m = gen_nldiff(s, gen_state(s), nu, sp);
    if (kind == 3) m = nd = std::make_shared<DifferentialActionModelNumDiffTpl<double>>(m, sp.nr > 1 && s.flip());
  } else if (kind == 1) {
    n = s.integer(1, 2);
    ng = s.integer(0, 2);
    nh = s.integer(0, 2);
    m = lqr = build(gen_pack(s, 1, n, nu, ng, nh, false), (DLqr*)nullptr);
  } else {
    nu = std::max(nu, 1);
    m = gen_diffcosts(s, gen_state(s), nu, false).m;
  }
  const VectorXd x = gen_x(s, *m->get_state(), 1.), u = s.vec(m->get_nu());
  std::shared_ptr<DiffData> d = m->createData();
  auto snap = [&] {
    Snap p;
    if (kind == 2) {  // the constraint manager decides the sizes
      m->calc(d, x, u);
      m->calcDiff(d, x, u);
      out(p, *d, "");
      p.add("u_lb", m->get_u_lb());
      p.add("u_ub", m->get_u_ub());
    } else {
      p = model_snap(*m, d, x, u);
    }
    if (lqr) {
      p.add("Aq", lqr->get_Aq());
      p.add("Av", lqr->get_Av());
      lq_snap(p, *lqr);
    }
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    model_ops(s, o, m, d, kind == 1 || kind == 3, kind != 2);
    if (lqr) lq_ops(s, o, lqr, 1, n, nu, ng, nh);
    if (nd) {
      disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
      ModelSpec sp;
      sp.nr = 1;
      std::shared_ptr<Diff> one = gen_nldiff(s, m->get_state(), nu, sp);
      o.push_back({"construct-gauss", BAD, [=] { DifferentialActionModelNumDiffTpl<double> k(one, true); }});
      o.push_back({"construct-no-gauss", GOOD, [=] { DifferentialActionModelNumDiffTpl<double> k(one, false); }});
    }
    sweep(s, c, o, snap);
  }
}

// --- states ------------------------------------------------------------------
void states(Src& s, Case& c) {
  std::shared_ptr<State> st;
  std::shared_ptr<StateNumDiffTpl<double>> nd;
  const bool num = s.flip();
  if (num)
    st = nd = std::make_shared<StateNumDiffTpl<double>>(gen_state(s));
  else
    st = std::make_shared<StateVectorTpl<double>>(2 * s.integer(1, 4));
  c.label(num ? "numdiff" : "vector");
  const int nx = st->get_nx(), n = st->get_ndx();
  const State& like = num ? *st : *st;
  (void)like;
  auto point = [&](double a) {
    VectorXd x = st->zero(), dx(n), xo(nx);
    for (int i = 0; i < n; ++i) dx[i] = std::sin(a * (i + 1));
    st->integrate(x, dx, xo);
    return xo;
  };
  const double a0 = s.real(3.), a1 = s.real(3.);
  const VectorXd x0 = point(a0), x1 = point(a1), dx = s.vec(n);
  auto snap = [&] {
    Snap p;
    state_snap(p, *st);
    VectorXd d(n), xo(nx);
    MatrixXd J1 = MatrixXd::Zero(n, n), J2 = J1;
    st->diff(x0, x1, d);
    st->integrate(x0, dx, xo);
    p.add("diff", d);
    p.add("integrate", xo);
    st->Jdiff(x0, x1, J1, J2);
    p.add("Jdiff1", J1);
    p.add("Jdiff2", J2);
    st->Jintegrate(x0, dx, J1, J2);
    p.add("Jintegrate1", J1);
    p.add("Jintegrate2", J2);
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 2);
  for (int k = 0; k < steps; ++k) {
    Ops o;
    state_ops(s, o, *st);
    auto X = [&] { return wrong(s, nx); };
    auto D = [&] { return wrong(s, n); };
    VectorXd w = X(), wd = D();
    o.push_back({"diff-x0", BAD, [=] { VectorXd r(n); st->diff(w, x1, r); }});
    w = X();
    o.push_back({"diff-x1", BAD, [=] { VectorXd r(n); st->diff(x0, w, r); }});
    o.push_back({"diff-out", BAD, [=] { VectorXd r = wd; st->diff(x0, x1, r); }});
    o.push_back({"integrate-x", BAD, [=] { VectorXd r(nx); st->integrate(w, dx, r); }});
    wd = D();
    o.push_back({"integrate-dx", BAD, [=] { VectorXd r(nx); st->integrate(x0, wd, r); }});
    w = X();
    o.push_back({"integrate-out", BAD, [=] { VectorXd r = w; st->integrate(x0, dx, r); }});
    if (num) {
      o.push_back({"Jdiff-x0", BAD, [=] { MatrixXd a(n, n), b(n, n); st->Jdiff(w, x1, a, b); }});
      o.push_back({"Jdiff-x1", BAD, [=] { MatrixXd a(n, n), b(n, n); st->Jdiff(x0, w, a, b); }});
      o.push_back({"Jintegrate-x", BAD, [=] { MatrixXd a(n, n), b(n, n); st->Jintegrate(w, dx, a, b); }});
      o.push_back({"Jintegrate-dx", BAD, [=] { MatrixXd a(n, n), b(n, n); st->Jintegrate(x0, wd, a, b); }});
      disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    }
    const MatrixXd bad = wrongm(s, n, n), ok = MatrixXd::Zero(n, n), none(0, 0);
    for (int wh = 0; wh < 2; ++wh) {
      const Jcomponent one = wh ? second : first;
      const std::string tail = wh ? "-second" : "-first";
      for (int both_ = 0; both_ < 2; ++both_) {
        const Jcomponent comp = both_ ? both : one;
        const std::string t2 = tail + (both_ ? "-both" : "");
        o.push_back({"Jdiff" + t2, BAD, [=] {
                       MatrixXd a = wh ? ok : bad, b = wh ? bad : ok;
                       st->Jdiff(x0, x1, a, b, comp);
                     }});
        for (int op = 0; op < 3; ++op)
          o.push_back({"Jintegrate" + t2 + "-" + std::to_string(op), BAD, [=] {
                         MatrixXd a = wh ? ok : bad, b = wh ? bad : ok;
                         st->Jintegrate(x0, dx, a, b, comp, AssignmentOp(op));
                       }});
      }
      // The other matrix is not used
      o.push_back({"Jdiff-only" + tail, GOOD, [=] {
                     MatrixXd a = wh ? none : ok, b = wh ? ok : none;
                     st->Jdiff(x0, x1, a, b, one);
                   }});
      o.push_back({"Jintegrate-only" + tail, GOOD, [=] {
                     MatrixXd a = wh ? none : ok, b = wh ? ok : none;
                     st->Jintegrate(x0, dx, a, b, one, setto);
                   }});
    }
    if (!num) {
      o.push_back({"transport-both", BAD, [=] { MatrixXd a = ok; st->JintegrateTransport(x0, dx, a, both); }});
      o.push_back({"transport-first", GOOD, [=] { MatrixXd a = ok; st->JintegrateTransport(x0, dx, a, first); }});
      o.push_back({"transport-second", GOOD, [=] { MatrixXd a = ok; st->JintegrateTransport(x0, dx, a, second); }});
    }
    sweep(s, c, o, snap);
  }
}

// --- control parametrizations ------------------------------------------------
void controls(Src& s, Case& c) {
  const int nw = s.integer(1, 4);
  const CtrlKind k = make_ctrl(s.integer(0, 3), nw);
  const bool num = s.chance(1, 4);
  std::shared_ptr<ControlParametrizationModelNumDiffTpl<double>> nd;
  std::shared_ptr<Ctrl> m = k.m;
  if (num) m = nd = std::make_shared<ControlParametrizationModelNumDiffTpl<double>>(k.m);
  c.label(num ? "numdiff" : k.name);
  const int nu = m->get_nu();
  const double t = s.uni(0., 1.);
  const VectorXd u = s.vec(nu), w = s.vec(nw);
  std::shared_ptr<CtrlData> d = m->createData();
  auto snap = [&] {
    Snap p;
    p.add("nu", m->get_nu());
    p.add("nw", m->get_nw());
    for (auto& dd : {m->createData(), d}) {
      m->calc(dd, t, u);
      m->calcDiff(dd, t, u);
      p.add("w", dd->w);
      p.add("dw_du", dd->dw_du);
      m->params(dd, t, w);
      p.add("u", dd->u);
    }
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 2);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    const VectorXd uw = wrong(s, nu), ww = wrong(s, nw), wl = s.vec(nw), wu = s.vec(nw);
    const VectorXd u2 = wrong(s, nu), w2 = wrong(s, nw);
    if (!num || true) {
      o.push_back({"calc-u", BAD, [=] { m->calc(d, t, uw); }});
      o.push_back({"params-w", BAD, [=] { m->params(d, t, ww); }});
      o.push_back({"bounds-w_lb", BAD, [=] { VectorXd a(nu), b(nu); m->convertBounds(ww, wu, a, b); }});
      o.push_back({"bounds-w_ub", BAD, [=] { VectorXd a(nu), b(nu); m->convertBounds(wl, w2, a, b); }});
      o.push_back({"bounds-u_lb", BAD, [=] { VectorXd a = uw, b(nu); m->convertBounds(wl, wu, a, b); }});
      o.push_back({"bounds-u_ub", BAD, [=] { VectorXd a(nu), b = u2; m->convertBounds(wl, wu, a, b); }});
    }
    const int r = s.integer(1, 4);
    const MatrixXd A = s.mat(r, nw), O = s.mat(r, nu), At = s.mat(nw, r), Ot = s.mat(nu, r);
    auto cols = [&](int n) { return n + (n > 0 && s.flip() ? -1 : 1); };
    const MatrixXd Ac = s.mat(r, cols(nw)), Oc = s.mat(r, cols(nu)), Or = s.mat(cols(r), nu);
    const MatrixXd Tc = s.mat(cols(nw), r), Pc = s.mat(cols(nu), r), Pr = s.mat(nu, cols(r));
    for (int op = 0; op < 3 && !num; ++op) {
      const AssignmentOp a = AssignmentOp(op);
      auto mj = [=](const char* n, int kind, MatrixXd X, MatrixXd Y) {
        return Op{std::string("multiplyByJacobian-") + n, kind, [=] { MatrixXd y = Y; m->multiplyByJacobian(d, X, y, a); }};
      };
      auto mt = [=](const char* n, int kind, MatrixXd X, MatrixXd Y) {
        return Op{std::string("multiplyJacobianTransposeBy-") + n, kind,
                  [=] { MatrixXd y = Y; m->multiplyJacobianTransposeBy(d, X, y, a); }};
      };
      o.push_back(mj("A", BAD, Ac, O));
      o.push_back(mj("cols", BAD, A, Oc));
      o.push_back(mj("rows", BAD, A, Or));
      o.push_back(mt("A", BAD, Tc, Ot));
      o.push_back(mt("rows", BAD, At, Pc));
      o.push_back(mt("cols", BAD, At, Pr));
      o.push_back(mj("valid", GOOD, A, O));
      o.push_back(mt("valid", GOOD, At, Ot));
    }
#ifdef NDEBUG
    o.push_back({"multiply-op", BAD, [=] { MatrixXd y = O; m->multiplyByJacobian(d, A, y, AssignmentOp(3)); }});
    o.push_back({"multiplyT-op", BAD, [=] { MatrixXd y = Ot; m->multiplyJacobianTransposeBy(d, At, y, AssignmentOp(3)); }});
#endif
    if (nd) disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    sweep(s, c, o, snap);
  }
}

// --- activations -------------------------------------------------------------
void activations(Src& s, Case& c) {
  ActRef ref;
  ref.kind = ActKind(s.integer(0, NACTS - 1));
  ref.nr = s.integer(1, 4);
  std::shared_ptr<Act> m = build_act(s, ref);
  std::shared_ptr<Act> base = m;
  std::shared_ptr<ActivationModelNumDiffTpl<double>> nd;
  if (s.chance(1, 5)) m = nd = std::make_shared<ActivationModelNumDiffTpl<double>>(base);
  c.label(nd ? "numdiff" : act_names[ref.kind]);
  c.desc << act_names[ref.kind];
  const int n = ref.nr;
  const VectorXd r = s.vec(n, 2.) + VectorXd::Constant(n, 1e-3);
  std::shared_ptr<ActData> d = m->createData();
  typedef ActivationModelWeightedQuadTpl<double> WQ;
  typedef ActivationModelWeightedQuadraticBarrierTpl<double> WB;
  typedef ActivationModelQuadraticBarrierTpl<double> QB;
  typedef ActivationModelQuadFlatExpTpl<double> FE;
  typedef ActivationModelQuadFlatLogTpl<double> FL;
  typedef ActivationModel2NormBarrierTpl<double> NB;
  auto snap = [&] {
    Snap p;
    for (auto& dd : {m->createData(), d}) {
      m->calc(dd, r);
      m->calcDiff(dd, r);
      p.add("a", dd->a_value);
      p.add("Ar", dd->Ar);
      p.add("Arr", MatrixXd(dd->Arr));
    }
    p.add("nr", m->get_nr());
    if (auto q = dynamic_cast<WQ*>(base.get())) p.add("weights", q->get_weights());
    if (auto q = dynamic_cast<WB*>(base.get())) {
      p.add("weights", q->get_weights());
      p.add("lb", q->get_bounds().lb);
      p.add("ub", q->get_bounds().ub);
    }
    if (auto q = dynamic_cast<QB*>(base.get())) {
      p.add("lb", q->get_bounds().lb);
      p.add("ub", q->get_bounds().ub);
    }
    if (auto q = dynamic_cast<FE*>(base.get())) p.add("alpha", q->get_alpha());
    if (auto q = dynamic_cast<FL*>(base.get())) p.add("alpha", q->get_alpha());
    if (auto q = dynamic_cast<NB*>(base.get())) p.add("alpha", q->get_alpha());
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    const VectorXd rw = wrong(s, n), r2 = wrong(s, n), ww = wrong(s, n);
    o.push_back({"calc-r", BAD, [=] { m->calc(d, rw); }});
    o.push_back({"calcDiff-r", BAD, [=] { m->calcDiff(d, r2); }});
    const double neg = -s.logu(1e-12, 3.);
    switch (ref.kind) {
      case WQUAD: o.push_back({"set_weights", BAD, [=] { static_cast<WQ&>(*base).set_weights(ww); }}); break;
      case FLATEXP:
        o.push_back({"set_alpha", BAD, [=] { static_cast<FE&>(*base).set_alpha(neg); }});
        o.push_back({"construct-alpha", BAD, [=] { FE k(n, neg); }});
        o.push_back({"construct-alpha-zero", GOOD, [=] { FE k(n, 0.); }});
        break;
      case FLATLOG:
        o.push_back({"set_alpha", BAD, [=] { static_cast<FL&>(*base).set_alpha(neg); }});
        o.push_back({"construct-alpha", BAD, [=] { FL k(n, neg); }});
        o.push_back({"construct-alpha-zero", GOOD, [=] { FL k(n, 0.); }});
        break;
      case NORMB:
        o.push_back({"set_alpha", BAD, [=] { static_cast<NB&>(*base).set_alpha(neg); }});
        o.push_back({"construct-alpha", BAD, [=] { NB k(n, neg); }});
        o.push_back({"construct-alpha-zero", GOOD, [=] { NB k(n, 0.); }});
        break;
      case S1:
        o.push_back({"construct-eps", BAD, [=] { ActivationModelSmooth1NormTpl<double> k(n, neg); }});
        break;
      case S2:
        o.push_back({"construct-eps", BAD, [=] { ActivationModelSmooth2NormTpl<double> k(n, neg); }});
        o.push_back({"construct-eps-zero", GOOD, [=] { ActivationModelSmooth2NormTpl<double> k(n, 0.); }});
        break;
      case BARRIER:
      case WBARRIER: {
        const VectorXd big = wrong(s, n).cwiseAbs();
        const bool w = ref.kind == WBARRIER;
        o.push_back({"set_bounds", BAD, [=] {
                       const Bounds b(-big, big);
                       if (w)
                         static_cast<WB&>(*base).set_bounds(b);
                       else
                         static_cast<QB&>(*base).set_bounds(b);
                     }});
        if (w) {
          const VectorXd one = VectorXd::Ones(n);
          o.push_back({"set_weights", BAD, [=] { static_cast<WB&>(*base).set_weights(ww); }});
          o.push_back({"construct-weights", BAD, [=] { WB k(Bounds(-one, one), ww); }});
        }
        break;
      }
      default: break;
    }
    // Bounds
    VectorXd lb = s.vec(n), ub = lb + s.vec(n).cwiseAbs();
    o.push_back({"bounds-sizes", BAD, [=] { Bounds b(lb, ww); }});
    o.push_back({"bounds-beta-negative", BAD, [=] { Bounds b(lb, ub, neg); }});
    const double over = s.flip() ? above(1.) : 1. + s.uni(1e-9, 3.);
    o.push_back({"bounds-beta-above-one", BAD, [=] { Bounds b(lb, ub, over); }});
    VectorXd u2 = ub;
    const int j = s.draw(n);
    u2[j] = lb[j] - s.logu(1e-9, 3.);
    o.push_back({"bounds-order", BAD, [=] { Bounds b(lb, u2); }});
    o.push_back({"bounds-beta-0", GOOD, [=] { Bounds b(lb, ub, 0.); }});
    o.push_back({"bounds-beta-1", GOOD, [=] { Bounds b(lb, ub, 1.); }});
    o.push_back({"bounds-equal", GOOD, [=] { Bounds b(lb, lb, 0.5); }});
    o.push_back({"bounds-infinite", GOOD, [=] { Bounds b(VectorXd::Constant(n, -INF), VectorXd::Constant(n, INF), 0.5); }});
    if (nd) disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    sweep(s, c, o, snap);
    mutate_act(s, ref, *base);
  }
}

// --- actuations --------------------------------------------------------------
void actuations(Src& s, Case& c) {
  std::shared_ptr<State> st = gen_state(s);
  const int kind = s.integer(0, 2), nu = s.integer(1, kind == 1 ? (int)st->get_nv() : 3);
  static const char* kn[] = {"base", "squashing", "numdiff"};
  c.label(kn[kind]);
  std::shared_ptr<Actuation> m = gen_actuation(s, st, nu, s.flip());
  std::shared_ptr<SquashingModelSmoothSatTpl<double>> sq;
  std::shared_ptr<ActuationModelNumDiffTpl<double>> nd;
  if (kind == 1) {
    const VectorXd l = s.vec(nu), h = l + VectorXd::Constant(nu, 1.) + s.vec(nu).cwiseAbs();
    sq = std::make_shared<SquashingModelSmoothSatTpl<double>>(l, h, nu);
    m = std::make_shared<ActuationSquashingModelTpl<double>>(m, sq, nu);
  }
  if (kind == 2) m = nd = std::make_shared<ActuationModelNumDiffTpl<double>>(m);
  const int nx = st->get_nx(), nv = st->get_nv();
  const VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu), tau = s.vec(nv);
  std::shared_ptr<ActuationData> d = m->createData();
  auto snap = [&] {
    Snap p;
    p.add("nu", m->get_nu());
    for (auto& dd : {m->createData(), d}) {
      m->calc(dd, x, u);
      m->calcDiff(dd, x, u);
      p.add("tau", dd->tau);
      p.add("dtau_dx", dd->dtau_dx);
      p.add("dtau_du", dd->dtau_du);
      m->torqueTransform(dd, x, u);
      p.add("Mtau", dd->Mtau);
    }
    if (sq) {
      p.add("smooth", sq->get_smooth());
      p.add("d", sq->get_d());
      p.add("s_lb", sq->get_s_lb());
      p.add("s_ub", sq->get_s_ub());
    }
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    const VectorXd xw = wrong(s, nx), uw = wrong(s, nu), tw = wrong(s, nv);
    if (kind != 1 || true) {
      o.push_back({"torqueTransform-x", BAD, [=] { m->torqueTransform(d, xw, u); }});
      o.push_back({"torqueTransform-u", BAD, [=] { m->torqueTransform(d, x, uw); }});
    }
    if (kind) o.push_back({"commands-tau", BAD, [=] { m->commands(d, x, tw); }});
    if (kind == 2) {
      o.push_back({"calc-x", BAD, [=] { m->calc(d, xw, u); }});
      o.push_back({"calc-u", BAD, [=] { m->calc(d, x, uw); }});
      o.push_back({"calcDiff-x", BAD, [=] { m->calcDiff(d, xw, u); }});
      o.push_back({"calcDiff-u", BAD, [=] { m->calcDiff(d, x, uw); }});
      o.push_back({"calc-only-x", BAD, [=] { nd->calc(d, xw); }});
      o.push_back({"calcDiff-only-x", BAD, [=] { nd->calcDiff(d, xw); }});
      o.push_back({"commands-x", BAD, [=] { m->commands(d, xw, tau); }});
      disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    }
    if (sq) {
      const double neg = -s.logu(1e-12, 2.), v = s.logu(1e-3, 1.);
      const VectorXd one = VectorXd::Ones(1);
      o.push_back({"set_smooth", BAD, [=] { sq->set_smooth(neg); }});
      o.push_back({"construct-ns", BAD, [=] { SquashingModelSmoothSatTpl<double> k(-one, one, 0); }});
      if (s.flip()) o.push_back({"smooth", GOOD, [=] { sq->set_smooth(v); }});
    }
    sweep(s, c, o, snap);
  }
}

// --- residuals, costs, constraints ---------------------------------------------
template <class D>
void res_out(Snap& p, const D& d) {
  p.add("r", d.r);
  p.add("Rx", d.Rx);
  p.add("Ru", d.Ru);
}
void residuals(Src& s, Case& c) {
  std::shared_ptr<State> st = gen_state(s);
  const int nv = st->get_nv(), nu = s.integer(1, 3);
  const int kind = s.integer(0, 3);
  static const char* kn[] = {"control", "joint-acceleration", "joint-effort", "numdiff"};
  c.label(kn[kind]);
  typedef ResidualModelControlTpl<double> RC;
  typedef ResidualModelJointAccelerationTpl<double> RA;
  typedef ResidualModelJointEffortTpl<double> RE;
  std::shared_ptr<Actuation> act = gen_actuation(s, st, nu, true);
  std::shared_ptr<ActuationData> ad = act->createData();
  std::shared_ptr<JointDataAbstractTpl<double>> joint = std::make_shared<JointDataAbstractTpl<double>>(st, act, nu);
  joint->tau = s.vec(nu);
  joint->a = s.vec(nv);
  DataCollectorJointTpl<double> shared(joint);
  Collector plain;
  std::shared_ptr<Res> m;
  std::shared_ptr<ResidualModelNumDiffTpl<double>> nd;
  if (kind == 0 || kind == 3) m = std::make_shared<RC>(st, s.vec(nu));
  if (kind == 3) m = nd = std::make_shared<ResidualModelNumDiffTpl<double>>(m);
  if (kind == 1) m = std::make_shared<RA>(st, s.vec(nv), nu);
  if (kind == 2) m = std::make_shared<RE>(st, act, s.vec(nu), nu, s.flip());
  const VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
  auto create = [&] { return m->createData(&shared); };
  std::shared_ptr<ResData> d = create();
  auto snap = [&] {
    Snap p;
    p.add("nr", m->get_nr());
    p.add("nu", m->get_nu());
    for (auto& dd : {create(), d}) {
      m->calc(dd, x, u);
      m->calcDiff(dd, x, u);
      res_out(p, *dd);
    }
    if (auto q = dynamic_cast<RC*>(m.get())) p.add("reference", q->get_reference());
    if (auto q = dynamic_cast<RA*>(m.get())) p.add("reference", q->get_reference());
    if (auto q = dynamic_cast<RE*>(m.get())) p.add("reference", q->get_reference());
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    const VectorXd uw = wrong(s, nu), vw = wrong(s, nv), un = s.vec(nu), vn = s.vec(nv);
    if (kind == 0) {
      auto q = std::static_pointer_cast<RC>(m);
      o.push_back({"set_reference", BAD, [=] { q->set_reference(uw); }});
      o.push_back({"calc-u", BAD, [=] { q->calc(d, x, uw); }});
      o.push_back({"construct-zero", BAD, [=] { RC k(st, (size_t)0); }});
      o.push_back({"construct-empty", BAD, [=] { RC k(st, VectorXd(0)); }});
      if (s.flip()) o.push_back({"reference", GOOD, [=] { q->set_reference(un); }});
    }
    if (kind == 1) {
      auto q = std::static_pointer_cast<RA>(m);
      Collector* pl = &plain;
      o.push_back({"set_reference", BAD, [=] { q->set_reference(vw); }});
      o.push_back({"construct-reference", BAD, [=] { RA k(st, vw, nu); }});
      o.push_back({"construct-reference-2", BAD, [=] { RA k(st, vw); }});
      o.push_back({"collector", BAD, [=] { q->createData(pl); }});
      if (s.flip()) o.push_back({"reference", GOOD, [=] { q->set_reference(vn); }});
    }
    if (kind == 2) {
      auto q = std::static_pointer_cast<RE>(m);
      Collector* pl = &plain;
      o.push_back({"set_reference", BAD, [=] { q->set_reference(uw); }});
      o.push_back({"construct-reference", BAD, [=] { RE k(st, act, uw, nu, true); }});
      o.push_back({"construct-reference-2", BAD, [=] { RE k(st, act, uw); }});
      o.push_back({"construct-zero", BAD, [=] { RE k(st, act, un, 0, true); }});
      o.push_back({"construct-zero-2", BAD, [=] { RE k(st, act, (size_t)0); }});
      o.push_back({"collector", BAD, [=] { q->createData(pl); }});
      if (s.flip()) o.push_back({"reference", GOOD, [=] { q->set_reference(un); }});
    }
    if (nd) disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    sweep(s, c, o, snap);
  }
}

// A constraint without a residual of its own, to reach the base constructors.
struct AnyCon : Con {
  AnyCon(std::shared_ptr<State> st, std::shared_ptr<Res> r, int ng, int nh) : Con(st, r, ng, nh) {}
  void calc(const std::shared_ptr<ConData>&, const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&) override {}
  void calcDiff(const std::shared_ptr<ConData>&, const Eigen::Ref<const VectorXd>&,
                const Eigen::Ref<const VectorXd>&) override {}
  std::shared_ptr<crocoddyl::ConstraintModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::ConstraintModelBase> cloneAsFloat() const override { return nullptr; }
};

void constraints(Src& s, Case& c) {
  std::shared_ptr<State> st = gen_state(s);
  const int nu = s.integer(1, 3);
  const ResCase rc = gen_residual(s, st, nu);
  const int nr = rc.ref.nr;
  typedef ConstraintModelResidualTpl<double> CR;
  const bool ineq = s.chance(2, 3);
  c.label(ineq ? "inequality" : "equality");
  VectorXd l0 = bound(s, nr, false), u0 = bound(s, nr, true);
  std::shared_ptr<Con> m;
  if (ineq)
    m = std::make_shared<CR>(st, rc.m, l0, u0, s.flip());
  else
    m = std::make_shared<CR>(st, rc.m, s.flip());
  std::shared_ptr<ConstraintModelNumDiffTpl<double>> nd;
  if (s.chance(1, 3)) nd = std::make_shared<ConstraintModelNumDiffTpl<double>>(m);
  const VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
  Collector shared;
  auto snap = [&] {
    Snap p;
    p.add("ng", m->get_ng());
    p.add("nh", m->get_nh());
    p.add("type", (int)m->get_type());
    p.add("lb", m->get_lb());
    p.add("ub", m->get_ub());
    p.add("T", m->get_T_constraint());
    const std::shared_ptr<ConData> dd = m->createData(&shared);
    m->calc(dd, x, u);
    m->calcDiff(dd, x, u);
    p.add("g", dd->g);
    p.add("h", dd->h);
    p.add("Gx", dd->Gx);
    p.add("Gu", dd->Gu);
    p.add("Hx", dd->Hx);
    p.add("Hu", dd->Hu);
    if (nd) p.add("disturbance", nd->get_disturbance());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    const double big = std::numeric_limits<double>::max();
    const int n = ineq ? nr : 0;
    const VectorXd lw = wrong(s, n), uw = wrong(s, n);
    const VectorXd l = bound(s, n, false), h = bound(s, n, true);
    o.push_back({"update_bounds-lower", BAD, [=] { m->update_bounds(lw, h); }});
    o.push_back({"update_bounds-upper", BAD, [=] { m->update_bounds(l, uw); }});
    o.push_back({"update_bounds-both", BAD, [=] { m->update_bounds(lw, VectorXd(lw + VectorXd::Ones(lw.size()))); }});
    const VectorXd cl = bound(s, nr, false), cu = bound(s, nr, true);
    const VectorXd cw = wrong(s, nr), cw2 = wrong(s, nr);
    auto rm = rc.m;
    o.push_back({"construct-lower", BAD, [=] { CR k(st, rm, cw, cu); }});
    o.push_back({"construct-upper", BAD, [=] { CR k(st, rm, cl, cw2); }});
    const int j = s.draw(nr);
    auto with = [&](VectorXd v, double a) {
      if (v.size()) v[j] = a;
      return v;
    };
    const double mid = s.real(2.), gap = s.logu(1e-9, 2.);
    struct Bad {
      const char* n;
      double l, u;
    };
    const Bad bads[] = {{"order", mid + gap, mid},         {"lower-inf", INF, INF}, {"lower-max", big, INF},
                        {"upper-minus-inf", -INF, -INF}, {"upper-minus-max", -INF, -big}};
    for (const Bad& b : bads) {
      const VectorXd a1 = with(cl, b.l), b1 = with(cu, b.u);
      o.push_back({std::string("construct-") + b.n, BAD, [=] { CR k(st, rm, a1, b1); }});
      if (ineq) {
        const VectorXd a2 = with(l, b.l), b2 = with(h, b.u);
        o.push_back({std::string("update_bounds-") + b.n, BAD, [=] { m->update_bounds(a2, b2); }});
      }
    }
    const VectorXd eq = VectorXd::Constant(nr, mid);
    o.push_back({"construct-equal-bounds", GOOD, [=] { CR k(st, rm, eq, eq); }});
    o.push_back({"construct-free", GOOD, [=] { CR k(st, rm, VectorXd::Constant(nr, -INF), VectorXd::Constant(nr, INF)); }});
    if (ineq && s.flip()) o.push_back({"update_bounds", GOOD, [=] { m->update_bounds(l, h); }});
    if (ineq && s.chance(1, 4)) o.push_back({"remove_bounds", GOOD, [=] { m->remove_bounds(); }});
    const int nh = s.integer(0, nr), extra = s.integer(1, 3);
    o.push_back({"construct-nh", BAD, [=] { AnyCon k(st, rm, 0, nr + extra); }});
    o.push_back({"construct-ng", BAD, [=] { AnyCon k(st, rm, 2 * (nr - nh) + extra, nh); }});
    o.push_back({"construct-ng-most", GOOD, [=] { AnyCon k(st, rm, 2 * (nr - nh), nh); }});
    Collector* sh = &shared;
    o.push_back({"data-without-constraints", BAD, [=] {
                   AnyCon k(st, rm, 0, 0);
                   k.createData(sh);
                 }});
    if (nd) {
      const std::shared_ptr<ConData> d = nd->createData(&shared);
      const VectorXd xw = wrong(s, st->get_nx()), u2 = wrong(s, nu);
      o.push_back({"numdiff-calc-x", BAD, [=] { nd->calc(d, xw, u); }});
      o.push_back({"numdiff-calc-u", BAD, [=] { nd->calc(d, x, u2); }});
      o.push_back({"numdiff-calcDiff-x", BAD, [=] { nd->calcDiff(d, xw, u); }});
      o.push_back({"numdiff-calcDiff-u", BAD, [=] { nd->calcDiff(d, x, u2); }});
      o.push_back({"numdiff-calc-T", BAD, [=] { nd->calc(d, xw); }});
      o.push_back({"numdiff-calcDiff-T", BAD, [=] { nd->calcDiff(d, xw); }});
      disturbance(s, o, [=](double v) { nd->set_disturbance(v); }, [=] { return nd->get_disturbance(); });
    }
    // One cost on the way
    const int na = s.flip() ? nr + 1 : nr + 2;
    o.push_back({"cost-activation", BAD, [=] {
                   CostModelResidualTpl<double> k(st, std::make_shared<ActivationModelQuadTpl<double>>(na), rm);
                 }});
    if (nr > 1)
      o.push_back({"cost-activation-less", BAD, [=] {
                     CostModelResidualTpl<double> k(st, std::make_shared<ActivationModelQuadTpl<double>>(nr - 1), rm);
                   }});
    auto cd = std::make_shared<CostModelNumDiffTpl<double>>(std::make_shared<CostModelResidualTpl<double>>(st, rm));
    disturbance(s, o, [=](double v) { cd->set_disturbance(v); }, [=] { return cd->get_disturbance(); });
    sweep(s, c, o, snap);
  }
}

// --- cost sums and constraint managers ------------------------------------------
std::string join(const std::set<std::string>& v) {
  std::string r;
  for (auto& e : v) r += e + ",";
  return r;
}
double hash(const std::string& a) { return (double)(std::hash<std::string>()(a) % 1000003); }

void sums(Src& s, Case& c) {
  std::shared_ptr<State> st = gen_state(s);
  const int nu = s.integer(1, 3), nx = st->get_nx(), n = st->get_ndx();
  const std::shared_ptr<CostSum> m = std::make_shared<CostSum>(st, nu);
  const VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
  Collector shared;
  std::vector<std::string> names;
  std::shared_ptr<CostSumData> d;
  auto add = [&] {
    const CostCase k = gen_cost(s, st, nu, true);
    const std::string nm = "c" + std::to_string(names.size());
    m->addCost(nm, k.m, k.weight, s.chance(3, 4));
    names.push_back(nm);
  };
  const int k0 = s.integer(0, 3);
  for (int i = 0; i < k0; ++i) add();
  auto snap = [&] {
    Snap p;
    p.add("nr", m->get_nr());
    p.add("nr_total", m->get_nr_total());
    p.add("nu", m->get_nu());
    p.add("active", hash(join(m->get_active_set())));
    p.add("inactive", hash(join(m->get_inactive_set())));
    for (auto& it : m->get_costs()) {
      p.add(it.first + "-weight", it.second->weight);
      p.add(it.first + "-active", it.second->active);
      p.add(it.first + "-cost", (double)(size_t)it.second->cost.get());
    }
    for (auto& dd : {m->createData(&shared), d}) {
      m->calc(dd, x, u);
      m->calcDiff(dd, x, u);
      p.add("cost", dd->cost);
      p.add("Lx", dd->Lx);
      p.add("Lu", dd->Lu);
      p.add("Lxx", dd->Lxx);
      p.add("Lxu", dd->Lxu);
      p.add("Luu", dd->Luu);
      m->calc(dd, x);
      m->calcDiff(dd, x);
      p.add("T-cost", dd->cost);
      p.add("T-Lx", dd->Lx);
      p.add("T-Lxx", dd->Lxx);
    }
    return p;
  };
  const int steps = s.integer(1, 4);
  for (int i = 0; i < steps; ++i) {
    d = m->createData(&shared);
    Ops o;
    const VectorXd xw = wrong(s, nx), uw = wrong(s, nu);
    o.push_back({"calc-x", BAD, [=] { m->calc(d, xw, u); }});
    o.push_back({"calc-u", BAD, [=] { m->calc(d, x, uw); }});
    o.push_back({"calc-T-x", BAD, [=] { m->calc(d, xw); }});
    o.push_back({"calcDiff-x", BAD, [=] { m->calcDiff(d, xw, u); }});
    o.push_back({"calcDiff-u", BAD, [=] { m->calcDiff(d, x, uw); }});
    o.push_back({"calcDiff-T-x", BAD, [=] { m->calcDiff(d, xw); }});
    // data of a sum with one cost more, one less, or one of another name
    const std::shared_ptr<CostSum> other = std::make_shared<CostSum>(st, nu);
    for (auto& it : m->get_costs()) other->addCost(it.first, it.second->cost, 1.);
    const bool more = names.empty() || m->get_costs().empty() || s.flip();
    const CostCase extra = gen_cost(s, st, nu, true);
    if (more || s.flip()) other->addCost("zz", extra.m, 1.);
    if (!more) other->removeCost(m->get_costs().begin()->first);
    const std::shared_ptr<CostSumData> od = other->createData(&shared);
    o.push_back({"calc-data", BAD, [=] { m->calc(od, x, u); }});
    o.push_back({"calc-T-data", BAD, [=] { m->calc(od, x); }});
    o.push_back({"calcDiff-data", BAD, [=] { m->calcDiff(od, x, u); }});
    o.push_back({"calcDiff-T-data", BAD, [=] { m->calcDiff(od, x); }});
    const CostCase w = gen_cost(s, st, nu + s.integer(1, 2), true);
    const bool act = s.flip();
    o.push_back({"addCost-nu", BAD, [=] { m->addCost("wrong", w.m, 1., act); }});
    o.push_back({"addCost-item-nu", BAD, [=] {
                   m->addCost(std::make_shared<CostItemTpl<double>>("wrong2", w.m, 1., act));
                 }});
    if (!m->get_costs().empty()) {
      auto it = m->get_costs().begin();
      std::advance(it, s.draw(m->get_costs().size()));
      const std::string nm = it->first;
      o.push_back({"addCost-duplicate", IGNORED, [=] { m->addCost(nm, extra.m, 3., act); }});
      o.push_back({"addCost-existing-nu", BAD, [=] { m->addCost(nm, w.m, 1., act); }});
    }
    o.push_back({"removeCost-unknown", IGNORED, [=] { m->removeCost("unknown"); }});
    o.push_back({"changeCostStatus-unknown", IGNORED, [=] { m->changeCostStatus("unknown", act); }});
    const VectorXd v1 = wrong(s, n), v2 = wrong(s, nu);
    const MatrixXd m1 = wrongm(s, n, n), m2 = wrongm(s, n, nu), m3 = wrongm(s, nu, nu);
    o.push_back({"data-set_Lx", BAD, [=] { d->set_Lx(v1); }});
    o.push_back({"data-set_Lu", BAD, [=] { d->set_Lu(v2); }});
    o.push_back({"data-set_Lxx", BAD, [=] { d->set_Lxx(m1); }});
    o.push_back({"data-set_Lxu", BAD, [=] { d->set_Lxu(m2); }});
    o.push_back({"data-set_Luu", BAD, [=] { d->set_Luu(m3); }});
    sweep(s, c, o, snap);
    const int e = s.integer(0, 2);
    if (e == 0 || names.empty()) {
      add();
    } else {
      const std::string nm = s.pick(names);
      if (e == 1 && m->get_costs().count(nm)) m->changeCostStatus(nm, s.flip());
      if (e == 2 && m->get_costs().count(nm)) m->removeCost(nm);
    }
  }
}

void managers(Src& s, Case& c) {
  std::shared_ptr<State> st = gen_state(s);
  const int nu = s.integer(1, 3), nx = st->get_nx();
  const std::shared_ptr<ConMan> m = std::make_shared<ConMan>(st, nu);
  const VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
  Collector shared;
  std::vector<std::string> names;
  std::shared_ptr<ConManData> d;
  auto add = [&] {
    const ConCase k = gen_con(s, st, nu);
    const std::string nm = "c" + std::to_string(names.size());
    m->addConstraint(nm, k.m, s.chance(3, 4));
    names.push_back(nm);
  };
  const int k0 = s.integer(0, 3);
  for (int i = 0; i < k0; ++i) add();
  auto snap = [&] {
    Snap p;
    p.add("ng", m->get_ng());
    p.add("nh", m->get_nh());
    p.add("ng_T", m->get_ng_T());
    p.add("nh_T", m->get_nh_T());
    p.add("nu", m->get_nu());
    p.add("active", hash(join(m->get_active_set())));
    p.add("inactive", hash(join(m->get_inactive_set())));
    for (auto& it : m->get_constraints()) {
      p.add(it.first + "-active", it.second->active);
      p.add(it.first + "-constraint", (double)(size_t)it.second->constraint.get());
      p.add(it.first + "-lb", it.second->constraint->get_lb());
    }
    for (auto& dd : {m->createData(&shared), d}) {
      m->calc(dd, x, u);
      m->calcDiff(dd, x, u);
      p.add("g", dd->g.head(m->get_ng()));
      p.add("h", dd->h.head(m->get_nh()));
      p.add("Gx", dd->Gx.topRows(m->get_ng()));
      p.add("Gu", dd->Gu.topRows(m->get_ng()));
      p.add("Hx", dd->Hx.topRows(m->get_nh()));
      p.add("Hu", dd->Hu.topRows(m->get_nh()));
      p.add("lb", m->get_lb());
      p.add("ub", m->get_ub());
    }
    return p;
  };
  const int steps = s.integer(1, 4);
  for (int i = 0; i < steps; ++i) {
    d = m->createData(&shared);
    Ops o;
    const VectorXd xw = wrong(s, nx), uw = wrong(s, nu);
    o.push_back({"calc-x", BAD, [=] { m->calc(d, xw, u); }});
    o.push_back({"calc-u", BAD, [=] { m->calc(d, x, uw); }});
    o.push_back({"calc-T-x", BAD, [=] { m->calc(d, xw); }});
    o.push_back({"calcDiff-x", BAD, [=] { m->calcDiff(d, xw, u); }});
    o.push_back({"calcDiff-u", BAD, [=] { m->calcDiff(d, x, uw); }});
    o.push_back({"calcDiff-T-x", BAD, [=] { m->calcDiff(d, xw); }});
    const std::shared_ptr<ConMan> other = std::make_shared<ConMan>(st, nu);
    for (auto& it : m->get_constraints()) other->addConstraint(it.first, it.second->constraint, it.second->active);
    const bool more = m->get_constraints().empty() || s.flip();
    const ConCase extra = gen_con(s, st, nu);
    if (more || s.flip()) other->addConstraint("zz", extra.m, true);
    if (!more) other->removeConstraint(m->get_constraints().begin()->first);
    const std::shared_ptr<ConManData> od = other->createData(&shared);
    o.push_back({"calc-data", BAD, [=] { m->calc(od, x, u); }});
    o.push_back({"calc-T-data", BAD, [=] { m->calc(od, x); }});
    o.push_back({"calcDiff-data", BAD, [=] { m->calcDiff(od, x, u); }});
    o.push_back({"calcDiff-T-data", BAD, [=] { m->calcDiff(od, x); }});
    const ConCase w = gen_con(s, st, nu + s.integer(1, 2));
    const bool act = s.flip();
    o.push_back({"addConstraint-nu", BAD, [=] { m->addConstraint("wrong", w.m, act); }});
    if (!m->get_constraints().empty()) {
      auto it = m->get_constraints().begin();
      std::advance(it, s.draw(m->get_constraints().size()));
      const std::string nm = it->first;
      o.push_back({"addConstraint-duplicate", IGNORED, [=] { m->addConstraint(nm, extra.m, act); }});
      o.push_back({"addConstraint-existing-nu", BAD, [=] { m->addConstraint(nm, w.m, act); }});
    }
    o.push_back({"removeConstraint-unknown", IGNORED, [=] { m->removeConstraint("unknown"); }});
    o.push_back({"changeConstraintStatus-unknown", IGNORED, [=] { m->changeConstraintStatus("unknown", act); }});
    const VectorXd v1 = wrong(s, d->g.size()), v2 = wrong(s, d->h.size());
    const MatrixXd m1 = wrongm(s, d->Gx.rows(), d->Gx.cols()), m2 = wrongm(s, d->Gu.rows(), d->Gu.cols());
    const MatrixXd m3 = wrongm(s, d->Hx.rows(), d->Hx.cols()), m4 = wrongm(s, d->Hu.rows(), d->Hu.cols());
    const std::shared_ptr<ConManData> nd = m->createData(&shared);
    o.push_back({"data-set_g", BAD, [=] { nd->set_g(v1); }});
    o.push_back({"data-set_h", BAD, [=] { nd->set_h(v2); }});
    o.push_back({"data-set_Gx", BAD, [=] { nd->set_Gx(m1); }});
    o.push_back({"data-set_Gu", BAD, [=] { nd->set_Gu(m2); }});
    o.push_back({"data-set_Hx", BAD, [=] { nd->set_Hx(m3); }});
    o.push_back({"data-set_Hu", BAD, [=] { nd->set_Hu(m4); }});
    // the data of the evaluations just made keeps its sizes between them
    m->calc(nd, x, u);
    sweep(s, c, o, snap);
    const int e = s.integer(0, 2);
    if (e == 0 || names.empty()) {
      add();
    } else {
      const std::string nm = s.pick(names);
      if (e == 1 && m->get_constraints().count(nm)) m->changeConstraintStatus(nm, s.flip());
      if (e == 2 && m->get_constraints().count(nm)) m->removeConstraint(nm);
    }
  }
}

// --- shooting problems -----------------------------------------------------------
std::shared_ptr<Action> misfit(Src& s, const State& st, int kind, std::shared_ptr<State>* other) {
  // kind 0: another nx, 1: the same nx and another ndx
  std::shared_ptr<State> o;
  const int nx = st.get_nx();
  if (kind == 1 && nx != (int)st.get_ndx())
    o = std::make_shared<StateVectorTpl<double>>(nx);
  else
    o = std::make_shared<StateVectorTpl<double>>(nx + s.integer(1, 2));
  if (other) *other = o;
  return gen_nlaction(s, o, s.integer(0, 2), ModelSpec());
}
void problems(Src& s, Case& c) {
  NodeSpec sp;
  sp.cons = s.flip();
  sp.share_terminal = false;
  const ProblemCase pc = gen_problem(s, c, sp, 4);
  const std::shared_ptr<Problem> p = pc.p;
  const std::shared_ptr<State> st = pc.st;
  const int nx = st->get_nx();
  c.label("T" + std::to_string(pc.T()));
  std::vector<std::shared_ptr<Action>> rm = pc.running;
  std::shared_ptr<Action> tm = pc.terminal;
  const Traj xs = pc.xs(s);
  bool updated = false, known = false;
  // a model and data of a kind that does not belong to it
  auto lqr = [&](int nu) {
    return std::make_shared<Lqr>((size_t)nx, (size_t)nu);
  };
  auto snap = [&] {
    Snap q;
    q.add("T", p->get_T());
    q.add("nx", p->get_nx());
    q.add("ndx", p->get_ndx());
    q.add("nthreads", p->get_nthreads());
    q.add("x0", p->get_x0());
    q.add("models", p->get_runningModels().size());
    q.add("datas", p->get_runningDatas().size());
    for (size_t i = 0; i < p->get_runningModels().size(); ++i) {
      q.add("model" + std::to_string(i), (double)(size_t)p->get_runningModels()[i].get());
      q.add("data" + std::to_string(i), (double)(size_t)p->get_runningDatas()[i].get());
    }
    q.add("terminal-model", (double)(size_t)p->get_terminalModel().get());
    q.add("terminal-data", (double)(size_t)p->get_terminalData().get());
    Traj us;
    for (auto& m : p->get_runningModels()) us.push_back(VectorXd::Constant(m->get_nu(), 0.3));
    Traj x(xs.begin(), xs.end());
    x.resize(p->get_T() + 1, xs[0]);
    q.add("cost", p->calc(x, us));
    q.add("cost-diff", p->calcDiff(x, us));
    for (size_t i = 0; i < p->get_T(); ++i) out(q, *p->get_runningDatas()[i], "node" + std::to_string(i) + "-");
    q.add("T-Lx", p->get_terminalData()->Lx);
    q.add("T-Lxx", p->get_terminalData()->Lxx);
    const Traj r = p->rollout_us(us);
    for (auto& v : r) q.add("rollout", v);
    return q;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    const int T = p->get_T();
    Ops o;
    auto flag = [&, p](const char* n, std::function<void()> f) {
      o.push_back({n, BAD, [=, &updated, &known] {
                     if (!known) {
                       p->is_updated();
                       updated = false;
                       known = true;
                     }
                     try {
                       f();
                     } catch (const std::exception&) {
                       if (p->is_updated() != updated) fail("changed-is_updated", std::string("by ") + n);
                       updated = false;
                       throw;
                     }
                   }});
    };
    auto good = [&, p](const char* n, std::function<void()> f) {
      o.push_back({n, GOOD, [=, &updated, &known] {
                     f();
                     updated = true;
                     known = true;
                   }});
    };
    Traj us;
    for (auto& m : p->get_runningModels()) us.push_back(s.vec(m->get_nu()));
    Traj xx(T + 1, xs[0]), xl = xx, xm = xx, ul = us, um = us;
    xm.push_back(xs[0]);
    xl.pop_back();
    um.push_back(s.vec(1));
    if (T) ul.pop_back();
    for (int w = 0; w < 2; ++w) {
      if (w == 0 && T == 0) continue;
      const Traj xw = w ? xm : xl, uw = w ? um : ul;
      flag("calc-xs", [=] { p->calc(xw, us); });
      flag("calc-us", [=] { p->calc(xx, uw); });
      flag("calcDiff-xs", [=] { p->calcDiff(xw, us); });
      flag("calcDiff-us", [=] { p->calcDiff(xx, uw); });
      flag("rollout-xs", [=] { Traj t = xw; p->rollout(us, t); });
      flag("rollout-us", [=] { Traj t = xx; p->rollout(uw, t); });
      flag("rollout_us", [=] { p->rollout_us(uw); });
      Traj qx(xw.begin(), xw.end() - 1), ok(xx.begin(), xx.end() - 1);
      flag("quasiStatic-xs", [=] { Traj t = us; p->quasiStatic(t, qx); });
      flag("quasiStatic-us", [=] { Traj t = uw; p->quasiStatic(t, ok); });
    }
    flag("quasiStatic_xs", [=] { p->quasiStatic_xs(Traj(xx.begin(), xx.begin() + T + 1)); });
    const VectorXd x0w = wrong(s, nx), x0 = gen_x(s, *st, 1.);
    flag("set_x0", [=] { p->set_x0(x0w); });
    std::shared_ptr<Action> nl = gen_nlaction(s, st, s.integer(1, 2), ModelSpec());
    std::shared_ptr<Action> vec = lqr(1);
    for (int kind = 0; kind < 2; ++kind) {
      const std::shared_ptr<Action> b = misfit(s, *st, kind, nullptr);
      const std::shared_ptr<ActionData> bd = b->createData();
      flag("circularAppend-nx", [=] { p->circularAppend(b); });
      flag("circularAppend-data-nx", [=] { p->circularAppend(b, bd); });
      flag("set_terminalModel", [=] { p->set_terminalModel(b); });
      for (int pos : {0, T / 2, T}) {
        flag("updateModel-nx", [=] { p->updateModel(pos, b); });
        flag("updateNode-nx", [=] { p->updateNode(pos, b, bd); });
      }
      std::vector<std::shared_ptr<Action>> ms = p->get_runningModels();
      const int pos = s.draw(ms.size() + 1);
      ms.insert(ms.begin() + pos, b);
      flag("set_runningModels", [=] { p->set_runningModels(ms); });
      // Constructors
      std::vector<std::shared_ptr<Action>> okm = p->get_runningModels();
      const std::shared_ptr<Action> t = p->get_terminalModel();
      flag("construct-model", [=] { Problem k(x0, ms, t); });
      // (without running nodes the terminal one decides)
      if (T || kind == 0) flag("construct-terminal", [=] { Problem k(x0, okm, b); });
      std::vector<std::shared_ptr<ActionData>> ds, okd;
      for (auto& m : ms) ds.push_back(m->createData());
      for (auto& m : okm) okd.push_back(m->createData());
      const std::shared_ptr<ActionData> td = t->createData();
      flag("construct-data-model", [=] { Problem k(x0, ms, t, ds, td); });
      if (T || kind == 0) flag("construct-data-terminal", [=] { Problem k(x0, okm, b, okd, bd); });
      flag("construct-x0", [=] { Problem k(x0w, okm, t); });
      flag("construct-data-x0", [=] { Problem k(x0w, okm, t, okd, td); });
      std::vector<std::shared_ptr<ActionData>> more = okd, less = okd;
      more.push_back(td);
      flag("construct-datas-more", [=] { Problem k(x0, okm, t, more, td); });
      if (T) {
        less.pop_back();
        flag("construct-datas-less", [=] { Problem k(x0, okm, t, less, td); });
      }
      // a node in the list with data of another kind of model
      std::vector<std::shared_ptr<Action>> mm = okm;
      std::vector<std::shared_ptr<ActionData>> dm = okd;
      const int at = s.draw(okm.size() + 1);
      mm.insert(mm.begin() + at, nl);
      dm.insert(dm.begin() + at, vec->createData());
      flag("construct-checkData", [=] { Problem k(x0, mm, t, dm, td); });
      flag("construct-checkData-terminal", [=] { Problem k(x0, okm, nl, okd, vec->createData()); });
      o.push_back({"construct-valid", GOOD, [=] { Problem k(x0, okm, nl, okd, nl->createData()); }});
    }
    const std::shared_ptr<ActionData> foreign = vec->createData();
    flag("circularAppend-checkData", [=] { p->circularAppend(nl, foreign); });
    for (int pos : {0, T / 2, T}) flag("updateNode-checkData", [=] { p->updateNode(pos, nl, foreign); });
    for (size_t pos : {(size_t)T + 1, (size_t)T + 2, (size_t)-1}) {
      flag("updateModel-index", [=] { p->updateModel(pos, nl); });
      flag("updateNode-index", [=] { p->updateNode(pos, nl, nl->createData()); });
    }
    const int e = s.integer(0, 6);
    if (e == 1) good("updateModel-T", [=] { p->updateModel(T, nl); });
    if (e == 2) good("updateNode-T", [=] { p->updateNode(T, nl, nl->createData()); });
    if (e == 3) good("updateModel-last", [=] { p->updateModel(std::max(T - 1, 0), nl); });
    if (e == 4) good("circularAppend", [=] { if (p->get_T()) p->circularAppend(nl); else p->set_terminalModel(nl); });
    if (e == 5) good("set_runningModels-empty", [=] { p->set_runningModels({}); });
    if (e == 6) {
      std::vector<std::shared_ptr<Action>> ms = p->get_runningModels();
      ms.push_back(nl);
      good("set_runningModels-more", [=] { p->set_runningModels(ms); });
    }
    if (T == 0) {
      flag("circularAppend-empty", [=] { p->circularAppend(nl); });
      flag("circularAppend-data-empty", [=] { p->circularAppend(nl, nl->createData()); });
      // Valid changes of the list come last in this state
      Ops keep;
      for (auto& q : o)
        if (q.kind == BAD) keep.push_back(q);
      o = keep;
    }
    // A valid change of the horizon makes the prepared lengths stale: it has to
    // be the last call of the sweep
    Ops bads, goods;
    for (auto& q : o) (q.kind == GOOD ? goods : bads).push_back(q);
    sweep(s, c, bads, snap);
    sweep(s, c, goods, snap);
    if (T == 0 && s.flip()) p->set_runningModels({nl}), updated = true, known = true;
    if (s.flip()) p->set_x0(x0), nearm("get-x0", p->get_x0(), x0, 0);
  }
}

// --- solvers -----------------------------------------------------------------------
struct SolverOps {
  std::string name;
  int kind;
  std::function<void(Solver&)> f;
};
void solver_snap(Snap& p, Solver& v) {
  for (size_t i = 0; i < v.get_xs().size(); ++i) p.add("xs", v.get_xs()[i]);
  for (size_t i = 0; i < v.get_us().size(); ++i) p.add("us", v.get_us()[i]);
  p.add("feasible", v.get_is_feasible());
  p.add("cost", v.get_cost());
  p.add("iter", v.get_iter());
  p.add("preg", v.get_preg());
  p.add("dreg", v.get_dreg());
  p.add("xreg", v.get_xreg());
  p.add("ureg", v.get_ureg());
  p.add("steplength", v.get_steplength());
  p.add("th_acceptstep", v.get_th_acceptstep());
  p.add("th_stop", v.get_th_stop());
  p.add("th_gaptol", v.get_th_gaptol());
  p.add("stop", v.get_stop());
  if (auto q = dynamic_cast<SolverDDP*>(&v)) {
    p.add("reg_incfactor", q->get_reg_incfactor());
    p.add("reg_decfactor", q->get_reg_decfactor());
    p.add("reg_min", q->get_reg_min());
    p.add("reg_max", q->get_reg_max());
    p.add("alphas", Eigen::Map<const VectorXd>(q->get_alphas().data(), q->get_alphas().size()));
    p.add("th_stepdec", q->get_th_stepdec());
    p.add("th_stepinc", q->get_th_stepinc());
    p.add("th_grad", q->get_th_grad());
    for (auto& k : q->get_k()) p.add("k", k);
    for (auto& k : q->get_Vx()) p.add("Vx", k);
  }
  if (auto q = dynamic_cast<SolverFDDP*>(&v)) p.add("th_acceptnegstep", q->get_th_acceptnegstep());
  if (auto q = dynamic_cast<SolverIntro*>(&v)) {
    p.add("rho", q->get_rho());
    p.add("th_feas", q->get_th_feas());
  }
}
void solvers(Src& s, Case& c) {
  const int kind = s.integer(0, kSolvers - 1);
  c.label(solver_name[kind]);
  c.desc << solver_name[kind];
  NodeSpec sp;
  sp.cons = kind == kIntro || kind == kIpopt;
  sp.bounds = kind == kBoxDDP || kind == kBoxFDDP;
  sp.reg = 0.5;
  const ProblemCase pc = gen_problem(s, c, sp, 4);
  const int T = pc.T();
  // The same problem a second time: its solver sees the valid calls only
  std::vector<std::shared_ptr<Action>> models = pc.p->get_runningModels();
  const std::shared_ptr<Problem> p2 = std::make_shared<Problem>(pc.p->get_x0(), models, pc.p->get_terminalModel());
  const std::shared_ptr<Solver> v = make_solver(kind, pc.p), twin = make_solver(kind, p2);
  auto snap = [&] {
    Snap p;
    solver_snap(p, *v);
    return p;
  };
  const Traj xs = pc.xs(s), us = pc.us(s);
  const int steps = s.integer(1, 3);
  for (int step = 0; step < steps; ++step) {
    std::vector<SolverOps> l;
    auto bad = [&](const std::string& n, std::function<void(Solver&)> f) { l.push_back({n, BAD, f}); };
    auto good = [&](const std::string& n, std::function<void(Solver&)> f) { l.push_back({n, GOOD, f}); };
    // Trajectories of wrong lengths and with one element of a wrong size
    auto lens = [&](const Traj& t, bool some) {
      std::vector<std::pair<std::string, Traj>> r;
      Traj a = t, b = t;
      a.push_back(t.empty() ? VectorXd::Zero(1) : t.back());
      r.emplace_back("more", a);
      if (!t.empty()) {
        b.pop_back();
        if (!b.empty() || some) r.emplace_back("less", b);
        std::vector<size_t> at = {0, t.size() - 1, (size_t)s.draw(t.size())};
        for (size_t i : at) {
          Traj w = t;
          w[i] = wrong(s, t[i].size());
          r.emplace_back("size" + std::to_string(i == 0 ? 0 : i + 1 == t.size() ? 2 : 1), w);
        }
      }
      return r;
    };
    Traj x2 = pc.xs(s), u2 = pc.us(s);
    const bool feas = s.flip();
    for (auto& w : lens(x2, false)) {
      const Traj t = w.second;
      bad("setCandidate-xs-" + w.first, [=](Solver& q) { q.setCandidate(t, u2, feas); });
      bad("setCandidate-only-xs-" + w.first, [=](Solver& q) { q.setCandidate(t, Traj(), feas); });
      bad("set_xs-" + w.first, [=](Solver& q) { q.set_xs(t); });
      bad("solve-xs-" + w.first, [=](Solver& q) { q.solve(t, u2, 2, feas); });
    }
    for (auto& w : lens(u2, false)) {
      const Traj t = w.second;
      bad("setCandidate-us-" + w.first, [=](Solver& q) { q.setCandidate(x2, t, feas); });
      bad("setCandidate-only-us-" + w.first, [=](Solver& q) { q.setCandidate(Traj(), t, feas); });
      bad("set_us-" + w.first, [=](Solver& q) { q.set_us(t); });
      bad("solve-us-" + w.first, [=](Solver& q) { q.solve(x2, t, 2, feas); });
    }
    bad("set_xs-empty", [=](Solver& q) { q.set_xs(Traj()); });
    bad("set_us-empty", [=](Solver& q) { q.set_us(Traj()); });
    const double neg = -s.logu(1e-12, 3.), one_up = s.flip() ? above(1.) : 1. + s.logu(1e-9, 3.);
    bad("set_preg", [=](Solver& q) { q.set_preg(neg); });
    bad("set_dreg", [=](Solver& q) { q.set_dreg(neg); });
    bad("th_acceptstep-zero", [=](Solver& q) { q.set_th_acceptstep(0.); });
    bad("th_acceptstep-negative", [=](Solver& q) { q.set_th_acceptstep(neg); });
    bad("th_acceptstep-above", [=](Solver& q) { q.set_th_acceptstep(one_up); });
    bad("th_stop-zero", [=](Solver& q) { q.set_th_stop(0.); });
    bad("th_stop-negative", [=](Solver& q) { q.set_th_stop(neg); });
    bad("th_gaptol", [=](Solver& q) { q.set_th_gaptol(neg); });
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    bad("set_xreg", [=](Solver& q) { q.set_xreg(neg); });
    bad("set_ureg", [=](Solver& q) { q.set_ureg(neg); });
#pragma GCC diagnostic pop
    if (kind == kIpopt) {
      bad("ipopt-th_stop-zero", [=](Solver& q) { dynamic_cast<SolverIpopt&>(q).set_th_stop(0.); });
      bad("ipopt-th_stop-negative", [=](Solver& q) { dynamic_cast<SolverIpopt&>(q).set_th_stop(neg); });
    }
    const bool ddp = kind <= kIntro;
    auto D = [](Solver& q) -> SolverDDP& { return dynamic_cast<SolverDDP&>(q); };
    if (ddp) {
      const double low = s.flip() ? 1. : s.uni(-1., 1.);
      bad("reg_incfactor", [=](Solver& q) { D(q).set_reg_incfactor(low); });
      bad("reg_decfactor", [=](Solver& q) { D(q).set_reg_decfactor(low); });
      bad("reg_min", [=](Solver& q) { D(q).set_reg_min(neg); });
      bad("reg_max", [=](Solver& q) { D(q).set_reg_max(neg); });
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
      bad("regfactor", [=](Solver& q) { D(q).set_regfactor(low); });
      bad("regmin", [=](Solver& q) { D(q).set_regmin(neg); });
      bad("regmax", [=](Solver& q) { D(q).set_regmax(neg); });
#pragma GCC diagnostic pop
      bad("alphas-empty", [=](Solver& q) { D(q).set_alphas({}); });
      bad("alphas-first-zero", [=](Solver& q) { D(q).set_alphas({0.}); });
      bad("alphas-first-negative", [=](Solver& q) { D(q).set_alphas({neg, 2. * neg}); });
      bad("alphas-zero", [=](Solver& q) { D(q).set_alphas({1., 0.5, 0.}); });
      bad("alphas-negative", [=](Solver& q) { D(q).set_alphas({1., neg}); });
      bad("alphas-equal", [=](Solver& q) { D(q).set_alphas({1., 0.5, 0.5, 0.25}); });
      bad("alphas-increasing", [=](Solver& q) { D(q).set_alphas({1., 0.25, 0.5}); });
      for (double w : {0., neg, one_up}) {
        bad("th_stepdec", [=](Solver& q) { D(q).set_th_stepdec(w); });
        bad("th_stepinc", [=](Solver& q) { D(q).set_th_stepinc(w); });
      }
      bad("th_grad", [=](Solver& q) { D(q).set_th_grad(neg); });
      if (step > 0) {  // there is a direction
        bad("forwardPass-above", [=](Solver& q) { D(q).forwardPass(one_up); });
        bad("forwardPass-negative", [=](Solver& q) { D(q).forwardPass(neg); });
        bad("tryStep-above", [=](Solver& q) { q.tryStep(one_up); });
        bad("tryStep-negative", [=](Solver& q) { q.tryStep(neg); });
      }
    }
    if (kind == kFDDP || kind == kBoxFDDP || kind == kIntro)
      bad("th_acceptnegstep", [=](Solver& q) { dynamic_cast<SolverFDDP&>(q).set_th_acceptnegstep(neg); });
    if (kind == kIntro)
      for (double w : {0., neg, one_up})
        bad("rho", [=](Solver& q) { dynamic_cast<SolverIntro&>(q).set_rho(w); });
    // Edges that are accepted
    switch (s.integer(0, 9)) {
      case 1: good("preg-zero", [](Solver& q) { q.set_preg(0.); near("get-preg", q.get_preg(), 0., 0); }); break;
      case 2: good("dreg-zero", [](Solver& q) { q.set_dreg(0.); near("get-dreg", q.get_dreg(), 0., 0); }); break;
      case 3: good("th_acceptstep-one", [](Solver& q) {
                q.set_th_acceptstep(1.);
                near("get-th_acceptstep", q.get_th_acceptstep(), 1., 0);
              });
        break;
      case 4: good("th_gaptol-zero", [](Solver& q) { q.set_th_gaptol(0.); near("get-th_gaptol", q.get_th_gaptol(), 0., 0); }); break;
      case 5:
        if (ddp) good("reg_factors-edge", [=](Solver& q) {
                   D(q).set_reg_incfactor(above(1.));
                   D(q).set_reg_decfactor(above(1.));
                   near("get-incfactor", D(q).get_reg_incfactor(), above(1.), 0);
                   D(q).set_reg_incfactor(5.);  // a run has to end
                   D(q).set_reg_decfactor(5.);
                 });
        break;
      case 6:
        if (ddp) good("alphas-one", [=](Solver& q) {
                   D(q).set_alphas({1.});
                   require(D(q).get_alphas().size() == 1, "get-alphas");
                 });
        break;
      case 7:
        if (ddp) good("th_steps-one", [=](Solver& q) {
                   D(q).set_th_stepdec(1.);
                   D(q).set_th_stepinc(1.);
                 });
        break;
      case 8:
        if (ddp) good("reg-limits-zero", [=](Solver& q) {
                   D(q).set_reg_min(0.);
                   D(q).set_th_grad(0.);
                 });
        break;
      case 9:
        if (kind == kIntro) good("rho-one", [](Solver& q) { dynamic_cast<SolverIntro&>(q).set_rho(1.); });
        if (kind == kFDDP) good("negstep-zero", [](Solver& q) { dynamic_cast<SolverFDDP&>(q).set_th_acceptnegstep(0.); });
        if (kind == kIpopt) good("th_stop", [](Solver& q) { dynamic_cast<SolverIpopt&>(q).set_th_stop(1e-6); });
        break;
      default: break;
    }
    good("setCandidate-empty", [=](Solver& q) { q.setCandidate(Traj(), Traj(), false); });
    good("set_xs", [=](Solver& q) { q.set_xs(xs); });
    good("set_us", [=](Solver& q) { q.set_us(us); });
    Ops bads, goods;
    for (auto& e : l)
      if (e.kind == BAD)
        bads.push_back({e.name, BAD, [=] { e.f(*v); }});
      else
        goods.push_back({e.name, GOOD, [=] {
                           e.f(*v);
                           e.f(*twin);
                         }});
    if (s.flip()) std::swap(bads, goods);
    sweep(s, c, bads, snap);
    sweep(s, c, goods, snap);
    // Both continue with the same run
    const int maxiter = s.integer(1, 4);
    bool t1, t2, r1 = false, r2 = false;
    t1 = throws([&] { r1 = v->solve(x2, u2, maxiter, false); });
    t2 = throws([&] { r2 = twin->solve(x2, u2, maxiter, false); });
    require(t1 == t2 && r1 == r2, "solves-differently", "the run after rejected calls ends in another way");
    Snap a, b;
    solver_snap(a, *twin);
    solver_snap(b, *v);
    compare(a, b, "any, before a run");
    if (t1) break;
  }
  (void)T;
}

// --- the box QP and the verbose callback ---------------------------------------------
void boxqp(Src& s, Case& c) {
  const int n = s.integer(1, 5);
  BoxQP qp(n);
  const MatrixXd H = s.spd(n, 0.3);
  const VectorXd q = s.vec(n, 2.), lb = -s.vec(n).cwiseAbs() - VectorXd::Constant(n, .1), ub = -lb, x0 = VectorXd::Zero(n);
  CallbackVerbose cb;
  auto snap = [&] {
    Snap p;
    p.add("nx", qp.get_nx());
    p.add("maxiter", qp.get_maxiter());
    p.add("th_acceptstep", qp.get_th_acceptstep());
    p.add("th_grad", qp.get_th_grad());
    p.add("reg", qp.get_reg());
    p.add("alphas", Eigen::Map<const VectorXd>(qp.get_alphas().data(), qp.get_alphas().size()));
    p.add("solution", qp.get_solution().x);
    p.add("free", qp.get_solution().free_idx.size());
    p.add("clamped", qp.get_solution().clamped_idx.size());
    p.add("Hff_inv", qp.get_solution().Hff_inv);
    BoxQP copy = qp;
    p.add("solve", copy.solve(H, q, lb, ub, x0).x);
    p.add("precision", cb.get_precision());
    p.add("level", (int)cb.get_level());
    return p;
  };
  const int steps = s.integer(1, 3);
  for (int i = 0; i < steps; ++i) {
    Ops o;
    BoxQP* m = &qp;
    const MatrixXd Hw = wrongm(s, n, n);
    const VectorXd v = wrong(s, n);
    o.push_back({"solve-H", BAD, [=] { m->solve(Hw, q, lb, ub, x0); }});
    o.push_back({"solve-q", BAD, [=] { m->solve(H, v, lb, ub, x0); }});
    o.push_back({"solve-lb", BAD, [=] { m->solve(H, q, v, ub, x0); }});
    o.push_back({"solve-ub", BAD, [=] { m->solve(H, q, lb, v, x0); }});
    o.push_back({"solve-x", BAD, [=] { m->solve(H, q, lb, ub, v); }});
    const double neg = -s.logu(1e-12, 3.), half = s.flip() ? 0.5 : s.uni(0.5, 2.);
    for (double w : {0., neg, half}) o.push_back({"th_acceptstep", BAD, [=] { m->set_th_acceptstep(w); }});
    o.push_back({"th_grad", BAD, [=] { m->set_th_grad(neg); }});
    o.push_back({"reg", BAD, [=] { m->set_reg(neg); }});
    o.push_back({"alphas-empty", BAD, [=] { m->set_alphas({}); }});
    o.push_back({"alphas-first-zero", BAD, [=] { m->set_alphas({0.}); }});
    o.push_back({"alphas-first-negative", BAD, [=] { m->set_alphas({neg, 2. * neg}); }});
    o.push_back({"alphas-zero", BAD, [=] { m->set_alphas({1., 0.5, 0.}); }});
    o.push_back({"alphas-equal", BAD, [=] { m->set_alphas({1., 0.5, 0.5}); }});
    o.push_back({"alphas-increasing", BAD, [=] { m->set_alphas({1., 0.25, 0.5}); }});
    CallbackVerbose* k = &cb;
    const int pn = -s.integer(1, 5);
    o.push_back({"precision", BAD, [=] { k->set_precision(pn); }});
    o.push_back({"construct-precision", BAD, [=] { CallbackVerbose z(_4, pn); }});
    if (s.flip()) o.push_back({"precision-zero", GOOD, [=] { k->set_precision(0); }});
    switch (s.integer(0, 4)) {
      case 1: o.push_back({"th_acceptstep-edge", GOOD, [=] { m->set_th_acceptstep(below(0.5)); }}); break;
      case 2: o.push_back({"th_grad-zero", GOOD, [=] { m->set_th_grad(0.); }}); break;
      case 3: o.push_back({"reg-zero", GOOD, [=] { m->set_reg(0.); }}); break;
      case 4: o.push_back({"alphas-one", GOOD, [=] { m->set_alphas({1.}); }}); break;
      default: o.push_back({"solve", GOOD, [=] { m->solve(H, q, lb, ub, x0); }});
    }
    sweep(s, c, o, snap);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Check k("C27", "at least three invalid calls were made in one state");
  k.family("actions", 1500, 40000, actions);
  k.family("diffs", 1000, 30000, diffs);
  k.family("states", 400, 10000, states);
  k.family("controls", 400, 10000, controls);
  k.family("activations", 800, 20000, activations);
  k.family("actuations", 500, 12000, actuations);
  k.family("residuals", 500, 12000, residuals);
  k.family("constraints", 600, 15000, constraints);
  k.family("cost-sums", 500, 12000, sums);
  k.family("constraint-managers", 500, 12000, managers);
  k.family("problems", 600, 15000, problems);
  k.family("solvers", 1200, 30000, solvers);
  k.family("box-qp", 300, 8000, boxqp);
  k.assume("Sizes, ranges and consistency that no operation of the library checks (contents that are NaN, sizes checked by assertions only) are left out.");
  k.assume("The contents of output arguments of rejected calls are not compared.");
  return k.main(argc, argv);
}
