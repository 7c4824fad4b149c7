// C30: no sequence of valid calls corrupts memory or uses undefined values.
// VARIANT asan
// WITH_CASES_OF_OTHERS
// USES_SOLVERS
//
// Histories over pools of objects whose lifetimes end in any order, with
// addresses, undefined behaviour, container bounds and internal assertions
// checked at run time. Each history runs twice, with unwritten memory holding
// NaN patterns and zeros, and has to answer the same both times. The generated
// cases of the other checks run in the same build through run.sh.
#include <cstring>
#include <list>
#include "common/solve.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
using namespace vf;
using namespace crocoddyl;

namespace {
struct Trace {
  std::vector<std::pair<std::string, MatrixXd>> v;
  std::vector<std::string> log;
  long calls = 0, threw = 0;
  void add(const std::string& n, double d) { v.emplace_back(n, MatrixXd::Constant(1, 1, d)); }
  template <class M>
  void add(const std::string& n, const Eigen::MatrixBase<M>& m) {
    v.emplace_back(n, m);
  }
  void add(const std::string& n, const Traj& t) {
    add(n, double(t.size()));
    for (auto& x : t) add(n, x);
  }
  // Runs a call that may be rejected or fail.
  template <class F>
  bool call(const std::string& n, F f) {
    ++calls;
    log.push_back(n);
    bool ok = !throws(f);
    add(n + " accepted", double(ok));
    if (!ok) ++threw;
    return ok;
  }
};
typedef std::function<void(Src&, Trace&)> Story;
// Runs the story with both kinds of unwritten memory and compares.
void twice(Src& s, Case& c, const Story& story) {
  const size_t from = s.choices().size();
  Trace a, b;
  {
    Fill f(0xff);
    story(s, a);
  }
  Src again(std::vector<uint64_t>(s.choices().begin() + from, s.choices().end()));
  {
    Fill f(0);
    story(again, b);
  }
  for (size_t i = 0; i < std::min(a.log.size(), 24ul); ++i) c.desc << " " << a.log[i];
  for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); ++i)
    if (a.v[i].first != b.v[i].first || !same(a.v[i].second, b.v[i].second))
      fail("repeat-differs", "identical sequences differ at " + a.v[i].first + ": " + str(a.v[i].second) + " and " + b.v[i].first + " " + str(b.v[i].second));
  require(a.v.size() == b.v.size(), "repeat-differs", "identical sequences differ in length");
  c.nontrivial = a.calls >= 8 && a.calls > 2 * a.threw;
  c.label("calls " + std::to_string(a.calls / 10 * 10) + "+");
  if (a.threw) c.label("with rejected or failing calls");
}

void add_data(Trace& t, const Action& m, const ActionData& d, bool T, bool diff) {
  t.add("cost", d.cost);
  t.add("xnext", d.xnext);
  const int ng = T ? m.get_ng_T() : m.get_ng(), nh = T ? m.get_nh_T() : m.get_nh();
  t.add("g", d.g.head(ng));
  t.add("h", d.h.head(nh));
  if (!diff) return;
  t.add("Lx", d.Lx);
  t.add("Lxx", d.Lxx);
  t.add("Gx", d.Gx.topRows(ng));
  t.add("Hx", d.Hx.topRows(nh));
  if (T) return;
  t.add("Fx", d.Fx), t.add("Fu", d.Fu), t.add("Lu", d.Lu), t.add("Lxu", d.Lxu), t.add("Luu", d.Luu);
  t.add("Gu", d.Gu.topRows(ng)), t.add("Hu", d.Hu.topRows(nh));
}
void add_solver(Trace& t, const Solver& so) {
  t.add("xs", so.get_xs()), t.add("us", so.get_us()), t.add("fs", so.get_fs());
  t.add("solver cost", so.get_cost()), t.add("stop", so.get_stop()), t.add("iter", so.get_iter());
  t.add("merit", so.get_merit()), t.add("d", so.get_d()), t.add("dV", so.get_dV()), t.add("dVexp", so.get_dVexp());
  t.add("preg", so.get_preg()), t.add("dreg", so.get_dreg()), t.add("steplength", so.get_steplength());
  t.add("feas", so.get_feas()), t.add("ffeas", so.get_ffeas()), t.add("gfeas", so.get_gfeas()), t.add("hfeas", so.get_hfeas());
  t.add("feasible", double(so.get_is_feasible()));
  if (auto* d = dynamic_cast<const DDP*>(&so)) {
    t.add("Vx", d->get_Vx()), t.add("Qx", d->get_Qx()), t.add("Qu", d->get_Qu()), t.add("k", d->get_k());
    for (auto& m : d->get_K()) t.add("K", m);
    for (auto& m : d->get_Vxx()) t.add("Vxx", m);
    for (auto& m : d->get_Quu()) t.add("Quu", m);
    for (auto& m : d->get_Qxx()) t.add("Qxx", m);
    for (auto& m : d->get_Qxu()) t.add("Qxu", m);
  }
  if (auto* d = dynamic_cast<const SolverBoxDDP*>(&so))
    for (auto& m : d->get_Quu_inv()) t.add("Quu_inv", m);
}
template <class T>
void print(Trace& t, const T& o) {
  std::ostringstream s;
  s << o;
  t.add("printed characters", s.str().size());
}

// ---- objects whose lifetimes end in any order
struct ActionObj {
  std::shared_ptr<Action> m;
  VectorXd x;  // of its state
};
struct DataObj {
  std::shared_ptr<ActionData> d;
  std::shared_ptr<Action> m;
};
template <class V>
size_t at(Src& s, const V& v) {
  return s.draw(v.size());
}
template <class V>
void room(Src& s, V& v, size_t n) {
  while (v.size() >= n) v.erase(v.begin() + at(s, v));
}
struct World {
  std::vector<std::shared_ptr<State>> states;
  std::vector<ActionObj> actions;
  std::vector<DataObj> datas;
  std::vector<std::shared_ptr<Problem>> problems;
  std::vector<std::shared_ptr<Solver>> solvers;
  std::shared_ptr<Recorder> rec;
  int edits = 0;
  std::map<Solver*, int> seen;  // edits the solver was resized for
};
Traj some_xs(Src& s, const Problem& p, int n) {
  Traj t;
  for (int i = 0; i < n; ++i) t.push_back(gen_x(s, *p.get_terminalModel()->get_state(), 1.));
  return t;
}
Traj some_us(Src& s, const Problem& p) {
  Traj t;
  for (auto& m : p.get_runningModels()) t.push_back(s.vec(m->get_nu(), 1.));
  return t;
}
std::shared_ptr<Action> new_action(Src& s, std::shared_ptr<State> st) {
  NodeSpec sp;
  sp.bounds = s.flip();
  int nu = s.chance(1, 8) ? 0 : s.integer(1, 3);
  auto m = gen_node(s, st, sp, nu, nullptr);
  int k = s.integer(0, 9);
  if (k == 8) {
    auto* n = dynamic_cast<NlAction*>(m.get());
    if (n) n->fault = s.integer(1, 6), n->limit = s.uni(0.5, 3.);
  }
  if (s.chance(1, 4)) {
    m->set_u_lb(s.vec(m->get_nu()).array() - 1.);
    m->set_u_ub(s.vec(m->get_nu()).array() + 1.);
  }
  // A numerical copy of a model whose terminal constraints fit its data.
  if (k == 9 && m->get_ng() == m->get_ng_T() && m->get_nh() == m->get_nh_T() && m->get_nu() > 0)
    m = std::make_shared<ActionModelNumDiffTpl<double>>(m, s.flip());
  return m;
}
// Nodes for a horizon: models of one state, repeated ones included.
std::vector<std::shared_ptr<Action>> some_nodes(Src& s, World& w, const State* st, int n) {
  std::vector<std::shared_ptr<Action>> ok, v;
  for (auto& a : w.actions)
    if (a.m->get_state().get() == st) ok.push_back(a.m);
  for (int i = 0; i < n && !ok.empty(); ++i) v.push_back(s.pick(ok));
  return v;
}
void use_data(Src& s, Trace& t, DataObj& o) {
  VectorXd x = gen_x(s, *o.m->get_state(), 1.), u = s.vec(o.m->get_nu());
  bool T = s.chance(1, 3), diff = s.flip();
  if (s.chance(1, 8)) x = s.vec(x.size() + s.integer(1, 2));
  if (s.chance(1, 8)) u = s.vec(u.size() + s.integer(1, 2));
  // A node evaluated without control keeps the derivatives it had.
  if (t.call(T ? "evaluate-T" : "evaluate", [&] { T ? o.m->calc(o.d, x) : o.m->calc(o.d, x, u); }) &&
      (!diff || t.call("differentiate", [&] { T ? o.m->calcDiff(o.d, x) : o.m->calcDiff(o.d, x, u); })))
    add_data(t, *o.m, *o.d, T, diff);
  else
    t.add("cost", 0.);
}
void use_problem(Src& s, Trace& t, Problem& p) {
  const int T = p.get_T();
  Traj xs = some_xs(s, p, T + 1), us = some_us(s, p);
  int wrong = s.integer(0, 15);
  if (wrong == 12) xs.push_back(xs.back());
  if (wrong == 13) us.push_back(VectorXd::Zero(1));
  if (wrong == 14 && T) xs[s.integer(0, T - 1)] = s.vec(9);
  if (wrong == 15 && T) us[s.integer(0, T - 1)] = s.vec(9);
  switch (s.integer(0, 5)) {
    case 0: t.call("calc", [&] { t.add("total", p.calc(xs, us)); }); break;
    case 1:
      t.call("calc+calcDiff", [&] {
        p.calc(xs, us);
        t.add("total", p.calcDiff(xs, us));
        for (int i = 0; i < T; ++i) add_data(t, *p.get_runningModels()[i], *p.get_runningDatas()[i], false, true);
        add_data(t, *p.get_terminalModel(), *p.get_terminalData(), true, true);
      });
      break;
    case 2: t.call("calcDiff", [&] { t.add("total", p.calcDiff(xs, us)); }); break;
    case 3: t.call("rollout", [&] { t.add("rollout", p.rollout_us(us)); }); break;
    case 4: t.call("rollout", [&] { p.rollout(us, xs); t.add("rollout", xs); }); break;
    default: {
      if (xs.size() && T) xs.pop_back();
      for (auto& x : xs) x.tail(p.get_terminalModel()->get_state()->get_nv()).setZero();
      t.call("quasi-static", [&] { t.add("quasi-static", p.quasiStatic_xs(xs)); });
    }
  }
}
void edit_problem(Src& s, Trace& t, World& w, Problem& p) {
  ++w.edits;
  const State* st = p.get_terminalModel()->get_state().get();
  // sometimes models of another state: rejected
  if (s.chance(1, 10)) st = s.pick(w.states).get();
  auto n = some_nodes(s, w, st, 1);
  if (n.empty()) return;
  const size_t T = p.get_T(), i = s.draw(T + 1 + (s.chance(1, 8) ? 1 : 0));
  switch (s.integer(0, 7)) {
    case 0: t.call("updateModel", [&] { p.updateModel(i, n[0]); }); break;
    case 1: t.call("updateNode", [&] { p.updateNode(i, n[0], n[0]->createData()); }); break;
    case 2: t.call("append", [&] { p.circularAppend(n[0]); }); break;
    case 3: t.call("append-data", [&] { p.circularAppend(n[0], n[0]->createData()); }); break;
    case 4: t.call("terminal", [&] { p.set_terminalModel(n[0]); }); break;
    case 5: {
      auto v = some_nodes(s, w, st, s.chance(1, 8) ? 0 : s.integer(1, 5));
      t.call("running", [&] { p.set_runningModels(v); });
      break;
    }
    case 6: {
      VectorXd x = s.chance(1, 8) ? s.vec(11) : gen_x(s, *p.get_terminalModel()->get_state(), 1.);
      t.call("x0", [&] { p.set_x0(x); });
      break;
    }
    default: t.call("nthreads", [&] { p.set_nthreads(s.integer(1, 4)); }); break;
  }
  t.add("T", p.get_T());
}
void tune(Src& s, Trace& t, Solver& so) {
  t.call("tune", [&] {
    switch (s.integer(0, 8)) {
      case 0: so.set_th_stop(s.logu(1e-9, 1.)); break;
      case 1: so.set_th_gaptol(s.logu(1e-16, 1.)); break;
      case 2: so.set_feasnorm(s.flip() ? L1 : LInf); break;
      case 3: so.set_preg(s.real(1.)); break;
      case 4: so.set_dreg(s.real(1.)); break;
      case 5: so.set_th_acceptstep(s.real(1.2)); break;
      case 6:
        if (auto* d = dynamic_cast<DDP*>(&so)) d->set_alphas(s.flip() ? std::vector<double>{1., 0.5, 0.1} : s.flip() ? std::vector<double>{0.7} : std::vector<double>{});
        break;
      case 7:
        if (auto* d = dynamic_cast<SolverIntro*>(&so)) d->set_equality_solver(s.pick<EqualitySolverType>({LuNull, QrNull, Schur}));
        break;
      default:
        if (auto* d = dynamic_cast<DDP*>(&so)) d->set_reg_max(s.logu(1e-3, 1e3));
    }
  });
}
void use_solver(Src& s, Trace& t, World& w, Solver& so, bool single) {
  Problem& p = *so.get_problem();
  const int T = p.get_T();
  int k = s.integer(0, single ? 9 : 4);
  if (dynamic_cast<SolverIpopt*>(&so) && k > 3) k = 0;
  // Single methods work on what resizeData allocated.
  if (k >= 5 && w.seen[&so] != w.edits) t.call("resize", [&] { so.resizeData(); }), w.seen[&so] = w.edits;
  Traj xs, us;
  if (s.flip()) us = some_us(s, p);
  if (s.flip()) xs = some_xs(s, p, T + 1);
  switch (k) {
    case 0:
    case 1: {
      int it = s.integer(0, 4);
      bool feas = s.chance(1, 4);
      double reg = s.flip() ? NAN : s.logu(1e-9, 1.);
      t.call("solve", [&] { t.add("converged", so.solve(xs, us, it, feas, reg)); });
      break;
    }
    case 2: {
      int bad = s.integer(0, 5);
      if (bad == 4 && us.size()) us.pop_back();
      if (bad == 5 && us.size()) us[s.draw(us.size())] = s.vec(7);
      t.call("candidate", [&] { so.setCandidate(xs, us, s.chance(1, 4)); });
      break;
    }
    case 3: tune(s, t, so); break;
    case 4:
      t.call("callbacks", [&] {
        if (!w.rec) w.rec = std::make_shared<Recorder>();
        so.setCallbacks(s.flip() ? std::vector<std::shared_ptr<CallbackAbstract>>{w.rec} : std::vector<std::shared_ptr<CallbackAbstract>>{});
        t.add("callbacks", so.getCallbacks().size());
      });
      break;
    case 5: t.call("direction", [&] { so.computeDirection(s.flip()); }); break;
    case 6: t.call("step", [&] { t.add("improvement", so.tryStep(s.pick<double>({1., 0.5, 0.01}))); }); break;
    case 7: t.call("stopping", [&] { t.add("stopping", so.stoppingCriteria()); }); break;
    case 8: t.call("expected", [&] { t.add("expected", so.expectedImprovement()); }); break;
    default:
      t.call("feasibilities", [&] {
        t.add("f", so.computeDynamicFeasibility()), t.add("g", so.computeInequalityFeasibility()), t.add("h", so.computeEqualityFeasibility());
      });
  }
  add_solver(t, so);
}
int solver_kind(Src& s, const Problem& p) {
  // Ipopt takes long and copes with fixed controls only
  int k = s.integer(0, s.chance(1, 4) ? kIpopt : kKKT);
  return k;
}

void lifetimes(Src& s, Trace& t) {
  World w;
  const int n = s.integer(8, 30);
  for (int i = 0; i < n; ++i) {
    int op = i == 0 ? 0 : i == 1 ? 1 : s.integer(0, 15);
    if (op >= 5 && w.actions.empty()) op = 1;
    if (op >= 8 && op <= 10 && w.problems.empty()) op = 7;
    if (op >= 12 && w.solvers.empty()) op = w.problems.empty() ? 7 : 11;
    if (op == 11 && w.problems.empty()) op = 7;
    switch (op) {
      case 0:
        room(s, w.states, 2);
        w.states.push_back(gen_state(s, 2));
        t.log.push_back("state");
        break;
      case 1:
      case 2:
        room(s, w.actions, 4);
        t.log.push_back("model");
        w.actions.push_back({new_action(s, s.pick(w.states)), VectorXd()});
        print(t, *w.actions.back().m);
        break;
      case 3: {  // drop something; what still holds it goes on
        t.log.push_back("drop");
        int k = s.integer(0, 4);
        if (k == 0 && w.states.size() > 1) room(s, w.states, w.states.size());
        if (k == 1 && w.actions.size() > 1) room(s, w.actions, w.actions.size());
        if (k == 2 && w.datas.size()) room(s, w.datas, w.datas.size());
        if (k == 3 && w.problems.size()) room(s, w.problems, w.problems.size());
        if (k == 4 && w.solvers.size()) room(s, w.solvers, w.solvers.size());
        break;
      }
      case 4:
        if (w.actions.empty()) break;
        room(s, w.datas, 4);
        w.datas.push_back(DataObj{nullptr, w.actions[at(s, w.actions)].m});
        t.call("data", [&] { w.datas.back().d = w.datas.back().m->createData(); });
        // fallthrough
      case 5:
      case 6:
        if (w.datas.size()) use_data(s, t, w.datas[at(s, w.datas)]);
        break;
      case 7: {
        auto a = w.actions[at(s, w.actions)];
        auto v = some_nodes(s, w, a.m->get_state().get(), s.chance(1, 10) ? 0 : s.integer(1, 4));
        VectorXd x0 = gen_x(s, *a.m->get_state(), 1.);
        room(s, w.problems, 3);
        t.call("problem", [&] {
          if (s.flip()) {
            w.problems.push_back(std::make_shared<Problem>(x0, v, a.m));
          } else {
            std::vector<std::shared_ptr<ActionData>> d;
            for (auto& m : v) d.push_back(m->createData());
            w.problems.push_back(std::make_shared<Problem>(x0, v, a.m, d, a.m->createData()));
          }
          print(t, *w.problems.back());
        });
        break;
      }
      case 8: use_problem(s, t, *w.problems[at(s, w.problems)]); break;
      case 9: edit_problem(s, t, w, *w.problems[at(s, w.problems)]); break;
      case 10:
        if (s.flip()) {
          use_problem(s, t, *w.problems[at(s, w.problems)]);
        } else {
          room(s, w.problems, 4);
          if (w.problems.size()) t.call("copy", [&] { w.problems.push_back(std::make_shared<Problem>(*w.problems[at(s, w.problems)])); });
        }
        break;
      case 11: {
        room(s, w.solvers, 3);
        auto p = w.problems[at(s, w.problems)];
        int k = solver_kind(s, *p);
        if (t.call(std::string("new-") + solver_name[k], [&] { w.solvers.push_back(make_solver(k, p)); }))
          w.seen[w.solvers.back().get()] = w.edits;
        break;
      }
      default: use_solver(s, t, w, *w.solvers[at(s, w.solvers)], s.chance(1, 4));
    }
  }
  // The rest goes in an order of its own.
  for (int k = s.integer(0, 4), j = 0; j < 5; ++j, k = (k + 1) % 5) {
    if (k == 0) w.states.clear();
    if (k == 1) w.actions.clear();
    if (k == 2) w.datas.clear();
    if (k == 3) w.problems.clear();
    if (k == 4) w.solvers.clear();
  }
}

// ---- solvers driven method by method, horizons without nodes included
void methods(Src& s, Trace& t) {
  World w;
  w.states.push_back(gen_state(s, 2));
  const int n = s.integer(1, 3), T = s.chance(1, 6) ? 0 : s.integer(1, 3);
  for (int i = 0; i < n; ++i) w.actions.push_back({new_action(s, w.states[0]), VectorXd()});
  auto v = some_nodes(s, w, w.states[0].get(), T);
  std::shared_ptr<Problem> p;
  t.call("problem", [&] { p = std::make_shared<Problem>(gen_x(s, *w.states[0], 1.), v, s.pick(w.actions).m); });
  if (!p) return;
  std::shared_ptr<Solver> so;
  int kind = solver_kind(s, *p);
  t.call(std::string("new-") + solver_name[kind], [&] { so = make_solver(kind, p); });
  if (!so) return;
  add_solver(t, *so);
  for (int i = s.integer(4, 14); i > 0; --i) {
    if (s.chance(1, 6)) {
      edit_problem(s, t, w, *p);
      continue;
    }
    use_solver(s, t, w, *so, true);
  }
}

// ---- data kept while its model is edited: updated or rejected
struct Stale {
  std::shared_ptr<DiffData> d;
  std::shared_ptr<ActionData> ad;
  std::map<std::string, int> costs, cons;  // name and version of each entry
};
void stale_datas(Src& s, Trace& t) {
  auto st = gen_state(s, 2);
  const int nu = s.integer(1, 3);
  DiffCostsCase k = gen_diffcosts(s, st, nu, false);
  std::shared_ptr<Integ> m = make_integ(s.pick<int>({0, 0, 2, 3, 4}), k.m, make_ctrl(s.integer(0, 3), nu).m, 0.1, s.flip());
  std::map<std::string, int> costs, cons;
  for (auto& c : k.costs) costs[c.name] = 0;
  for (auto& c : k.cons) cons[c.name] = 0;
  int version = 0;
  std::vector<Stale> ds;
  auto fresh = [&] {
    Stale d;
    d.costs = costs, d.cons = cons;
    s.flip() ? d.d = k.m->createData(), 0 : (d.ad = m->createData(), 0);
    return d;
  };
  ds.push_back(fresh());
  auto names = [](const std::map<std::string, int>& a) {
    std::vector<std::string> v;
    for (auto& e : a) v.push_back(e.first);
    return v;
  };
  for (int i = s.integer(3, 12); i > 0; --i) {
    std::string nm(1, 'a' + s.integer(0, 4));
    switch (s.integer(0, 9)) {
      case 0:
        if (!costs.count(nm)) costs[nm] = ++version;
        t.call("+cost-" + nm, [&] {
          CostCase c = gen_cost(s, st, nu);
          k.m->costs->addCost(nm, c.m, c.weight, c.active);
        });
        break;
      case 1: t.call("-cost-" + nm, [&] { k.m->costs->removeCost(nm); costs.erase(nm); }); break;
      case 2: t.call("cost-status-" + nm, [&] { k.m->costs->changeCostStatus(nm, s.flip()); }); break;
      case 3:
        if (!cons.count(nm)) cons[nm] = ++version;
        t.call("+con-" + nm, [&] {
          ConCase c = gen_con(s, st, nu);
          k.m->cons->addConstraint(nm, c.m, c.active);
        });
        break;
      case 4: t.call("-con-" + nm, [&] { k.m->cons->removeConstraint(nm); cons.erase(nm); }); break;
      case 5: t.call("con-status-" + nm, [&] { k.m->cons->changeConstraintStatus(nm, s.flip()); }); break;
      case 6: {  // limits of a constraint
        auto it = k.m->cons->get_constraints().find(nm);
        if (it == k.m->cons->get_constraints().end()) break;
        auto c = it->second->constraint;
        int n = c->get_residual()->get_nr();
        if (s.chance(1, 3)) {
          t.call("remove-bounds-" + nm, [&] { c->remove_bounds(); });
        } else {
          VectorXd lb = s.vec(n).array() - 1., ub = lb.array() + 2.;
          t.call("bounds-" + nm, [&] { c->update_bounds(lb, ub); });
        }
        // it may have become another kind of constraint
        cons[nm] = ++version;
        break;
      }
      default:
        if (ds.size() < 4) ds.push_back(fresh());
        t.log.push_back("data");
    }
    for (auto& d : ds) {
      bool sc = names(d.costs) == names(costs), sk = names(d.cons) == names(cons);
      // An entry replaced by another one of the same name cannot be told apart.
      if ((sc && d.costs != costs) || (sk && d.cons != cons)) continue;
      const bool T = s.chance(1, 3);
      VectorXd x = gen_x(s, *st, 1.);
      Stale f = d;
      bool ok;
      auto both = [&](DiffData& a, DiffData& b) {
        int ng = T ? k.m->get_ng_T() : k.m->get_ng(), nh = T ? k.m->get_nh_T() : k.m->get_nh();
        nearm("stale-cost", VectorXd::Constant(1, a.cost), VectorXd::Constant(1, b.cost), 1e-12);
        nearm("stale-Lxx", a.Lxx, b.Lxx, 1e-12);
        nearm("stale-Lx", a.Lx, b.Lx, 1e-12);
        nearm("stale-g", a.g.head(ng), b.g.head(ng), 1e-12);
        nearm("stale-h", a.h.head(nh), b.h.head(nh), 1e-12);
        nearm("stale-Gx", a.Gx.topRows(ng), b.Gx.topRows(ng), 1e-12);
        nearm("stale-Hx", a.Hx.topRows(nh), b.Hx.topRows(nh), 1e-12);
      };
      if (d.d) {
        VectorXd u = s.vec(nu);
        auto go = [&](std::shared_ptr<DiffData> q) {
          T ? k.m->calc(q, x) : k.m->calc(q, x, u);
          T ? k.m->calcDiff(q, x) : k.m->calcDiff(q, x, u);
        };
        ok = t.call("stale", [&] { go(d.d); });
        if (ok) {
          auto q = k.m->createData();
          go(q);
          both(*d.d, *q);
          t.add("stale cost", q->cost), t.add("stale Lxx", q->Lxx);
        }
      } else {
        VectorXd u = s.vec(m->get_nu());
        auto go = [&](std::shared_ptr<ActionData> q) {
          T ? m->calc(q, x) : m->calc(q, x, u);
          T ? m->calcDiff(q, x) : m->calcDiff(q, x, u);
        };
        ok = t.call("stale-integrated", [&] { go(d.ad); });
        if (ok) {
          auto q = m->createData();
          go(q);
          nearm("stale-Lxx", d.ad->Lxx, q->Lxx, 1e-12);
          nearm("stale-Lx", d.ad->Lx, q->Lx, 1e-12);
          int ng = T ? m->get_ng_T() : m->get_ng(), nh = T ? m->get_nh_T() : m->get_nh();
          nearm("stale-g", d.ad->g.head(ng), q->g.head(ng), 1e-12);
          nearm("stale-h", d.ad->h.head(nh), q->h.head(nh), 1e-12);
          nearm("stale-Gx", d.ad->Gx.topRows(ng), q->Gx.topRows(ng), 1e-12);
          t.add("stale cost", q->cost);
        }
      }
      if (sc && sk) require(ok, "stale-rejected", "data of the current entries was rejected");
      if (!sc || !sk) require(!ok, "stale-accepted", "data made for other entries was used");
    }
  }
}

// ---- the quadratic program solver, resized and reused
void box_qp(Src& s, Trace& t) {
  int n = s.integer(1, 5);
  std::unique_ptr<BoxQP> qp(new BoxQP(n, s.integer(1, 50), 0.1, 1e-9, s.flip() ? 1e-9 : 0.1));
  for (int i = s.integer(2, 8); i > 0; --i) {
    int k = s.integer(0, 6);
    if (k == 5) t.call("resize", [&] { qp->set_nx(n = s.integer(1, 6)); });
    if (k == 4) t.call("iterations", [&] { qp->set_maxiter(s.integer(1, 20)); });
    if (k == 6) t.call("regularization", [&] { qp->set_reg(s.real(1.)); });
    MatrixXd H = s.spd(n, 0.1);
    VectorXd q = s.vec(n, 2.), lb = s.vec(n).array() - 0.5, ub = lb.array() + s.uni(0., 2.), x = s.vec(n);
    if (s.chance(1, 8)) x = s.vec(n + 1);
    if (s.chance(1, 8)) lb = s.vec(n + 1);
    t.call("solve", [&] {
      const BoxQPSolution& r = qp->solve(H, q, lb, ub, x);
      t.add("x", r.x), t.add("inverse", r.Hff_inv);
      t.add("free", r.free_idx.size()), t.add("clamped", r.clamped_idx.size());
    });
    t.add("x", qp->get_solution().x);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Check k("C30", "at least eight calls, more than half of which did something; the cases of the other checks by their own rules");
  k.family("lifetimes", 3200, 30000, [](Src& s, Case& c) { twice(s, c, lifetimes); }, 120);
  k.family("methods", 2400, 20000, [](Src& s, Case& c) { twice(s, c, methods); }, 120);
  k.family("kept-data", 2400, 20000, [](Src& s, Case& c) { twice(s, c, stale_datas); }, 120);
  k.family("box-qp", 800, 5000, [](Src& s, Case& c) { twice(s, c, box_qp); }, 60);
  k.assume("Memory and undefined behaviour are observed by the address and undefined-behaviour sanitizers, checked containers and the assertions of Eigen and the library; unwritten heap memory holds two different patterns.");
  return k.main(argc, argv);
}
