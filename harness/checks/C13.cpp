// Editing a shooting problem has exactly the effect of the edit.
#include "common/nodes.hpp"
using namespace vf;

typedef std::vector<std::shared_ptr<Action>> Models;
typedef std::vector<std::shared_ptr<ActionData>> Datas;

namespace {
// What the problem should be. A null data means "some data of the node's own,
// different from the others", which is learnt when first seen.
struct Ref {
  VectorXd x0;
  Models running;
  std::shared_ptr<Action> terminal;
  Datas datas;
  std::shared_ptr<ActionData> tdata;
  bool updated = false;
};
struct Edit {
  Src& s;
  Case& c;
  ProblemCase k;
  NodeSpec sp;
  Ref r;
  std::vector<std::shared_ptr<ActionData>> old;  // data handed out before (new data must be new)
  std::shared_ptr<State> other, wide;
  Edit(Src& src, Case& cs) : s(src), c(cs) {
    sp.zero_nu = s.chance(1, 4);
    sp.bounds = true;
    sp.empty = true;
    k = gen_problem(s, c, sp, 5);
    r.x0 = k.x0;
    r.running = k.running;
    r.terminal = k.terminal;
    r.datas.assign(k.T(), nullptr);
    int nx = k.st->get_nx();
    other = std::make_shared<crocoddyl::StateVectorTpl<double>>(nx % 2 ? nx + 3 : nx + 2);
    // same nx, another ndx
    if (auto* l = dynamic_cast<LieState*>(k.st.get())) {
      (void)l;
      wide = std::make_shared<crocoddyl::StateVectorTpl<double>>(nx);
      if (wide->get_ndx() == k.st->get_ndx()) wide = nullptr;
    }
  }
  int T() { return r.running.size(); }
  std::shared_ptr<Action> node(std::shared_ptr<State> st = nullptr) {
    std::string d;
    int nu = s.integer(sp.zero_nu ? 0 : 1, 3);
    auto m = !st && T() && s.chance(1, 4) ? r.running[s.integer(0, T() - 1)] : gen_node(s, st ? st : k.st, sp, nu, &d);
    c.desc << "(" << (d.empty() ? "=" : d) << ")";
    return m;
  }
  std::shared_ptr<Action> misfit() { return node(wide && s.flip() ? wide : other); }
  void verify() {
    auto& p = *k.p;
    near("T", p.get_T(), T(), 0);
    near("nx", p.get_nx(), k.st->get_nx(), 0);
    near("ndx", p.get_ndx(), k.st->get_ndx(), 0);
    nearm("x0", p.get_x0(), r.x0, 0);
    require(p.get_runningModels() == r.running, "running-models");
    require(p.get_terminalModel() == r.terminal, "terminal-model");
    require((int)p.get_runningDatas().size() == T(), "data-number");
    for (int i = 0; i <= T(); ++i) {
      auto d = i < T() ? p.get_runningDatas()[i] : p.get_terminalData();
      auto& e = i < T() ? r.datas[i] : r.tdata;
      require(bool(d), "data-null");
      if (e) {
        if (e != d) fail("data-identity", "node " + std::to_string(i));
      } else {
        for (auto& o : old)
          if (o == d) fail("data-reused", "node " + std::to_string(i));
        e = d;
        old.push_back(d);
      }
    }
    for (int i = 0; i < T(); ++i)
      for (int j = i + 1; j <= T(); ++j)
        if (r.datas[i] == (j < T() ? r.datas[j] : r.tdata)) fail("data-shared", std::to_string(i));
  }
  void evaluate() {
    auto& p = *k.p;
    Problem fresh(r.x0, r.running, r.terminal);
    Traj xs, us;
    for (int i = 0; i <= T(); ++i) xs.push_back(gen_x(s, *k.st, 1.));
    for (auto& m : r.running) us.push_back(s.vec(m->get_nu()));
    if (s.chance(1, 3)) {
      xs = p.rollout_us(us);
      Traj e = fresh.rollout_us(us);
      for (int i = 0; i <= T(); ++i)
        if (!same(xs[i], e[i])) fail("rollout", "node " + std::to_string(i));
    }
    double a = p.calc(xs, us), b = fresh.calc(xs, us);
    if (!same(a, b)) fail("cost", num(a) + " vs " + num(b));
    a = p.calcDiff(xs, us), b = fresh.calcDiff(xs, us);
    if (!same(a, b)) fail("cost-diff", num(a) + " vs " + num(b));
    for (int i = 0; i <= T(); ++i) {
      auto& da = i < T() ? *p.get_runningDatas()[i] : *p.get_terminalData();
      auto& db = i < T() ? *fresh.get_runningDatas()[i] : *fresh.get_terminalData();
      same_data("evaluation", da, db, 3, i == T(), "node " + std::to_string(i));
    }
    // wrong sizes are judged by the new horizon
    Traj x2 = xs, u2 = us;
    x2.push_back(xs[0]);
    if (T()) u2.pop_back();
    else u2.push_back(xs[0]);
    require(throws([&] { p.calc(x2, us); }), "size-xs");
    require(throws([&] { p.calc(xs, u2); }), "size-us");
  }
  void edited() { r.updated = true; }
  void accept() {
    auto& p = *k.p;
    int n = T(), i = s.integer(0, n);
    if (s.chance(1, 4)) i = s.flip() || !n ? n : n - 1;
    int op = s.integer(0, 8);
    if (!n && (op == 3 || op == 4)) op = 6;
    switch (op) {
      case 0:
      case 1: {
        c.desc << " node" << i;
        auto m = node();
        auto d = m->createData();
        old.push_back(d);
        p.updateNode(i, m, d);
        (i < n ? r.running[i] : r.terminal) = m;
        (i < n ? r.datas[i] : r.tdata) = d;
        edited();
        c.label(i < n ? "updateNode" : "updateNode-terminal");
        break;
      }
      case 2: {
        c.desc << " model" << i;
        auto m = node();
        p.updateModel(i, m);
        (i < n ? r.running[i] : r.terminal) = m;
        (i < n ? r.datas[i] : r.tdata) = nullptr;
        edited();
        c.label(i < n ? "updateModel" : "updateModel-terminal");
        break;
      }
      case 3:
      case 4: {
        bool given = s.flip();
        c.desc << " append" << given;
        auto m = node();
        std::shared_ptr<ActionData> d;
        if (given) {
          d = m->createData();
          if (s.chance(1, 3) && m == r.running[0]) d = r.datas[0];  // recycling the first node
          old.push_back(d);
          p.circularAppend(m, d);
        } else {
          p.circularAppend(m);
        }
        r.running.erase(r.running.begin());
        r.datas.erase(r.datas.begin());
        r.running.push_back(m);
        r.datas.push_back(d);
        edited();
        c.label(given ? "append-data" : "append");
        break;
      }
      case 5: {
        c.desc << " x0";
        r.x0 = gen_x(s, *k.st, 0.7);
        p.set_x0(r.x0);
        c.label("x0");
        break;
      }
      case 6: {
        int nn = s.chance(1, 20) ? 0 : s.flip() ? n : s.integer(1, 6);
        c.desc << " models" << nn;
        Models ms;
        for (int j = 0; j < nn; ++j) ms.push_back(node());
        p.set_runningModels(ms);
        r.running = ms;
        r.datas.assign(nn, nullptr);
        edited();
        c.label(nn == n ? "models" : nn < n ? "models-shorter" : "models-longer");
        break;
      }
      case 7: {
        c.desc << " terminal";
        auto m = node();
        p.set_terminalModel(m);
        r.terminal = m;
        r.tdata = nullptr;
        edited();
        c.label("terminal");
        break;
      }
      default: {  // go on with another way of building the same
        bool copy = s.flip();
        c.desc << (copy ? " copy" : " ctor5");
        if (copy) {
          auto q = std::make_shared<Problem>(*k.p);
          // editing the copy leaves the original alone
          q->set_x0(VectorXd(gen_x(s, *k.st, 1.)));
          q->updateModel(s.integer(0, n), r.terminal);
          if (n) q->circularAppend(r.running[0]);
          verify();
          k.p = std::make_shared<Problem>(*k.p);
          c.label("copy");
        } else {
          k.p = std::make_shared<Problem>(r.x0, r.running, r.terminal, r.datas, r.tdata);
          c.label("ctor-datas");
        }
        r.updated = k.p->is_updated();  // of a new object: not specified
      }
    }
  }
  void rejected() {
    auto& p = *k.p;
    int n = T(), i = s.integer(0, n), how = s.integer(0, 9);
    c.desc << " bad" << how;
    c.label("reject" + std::to_string(how));
    auto foreign = [&](std::shared_ptr<Action> m) {
      (void)m;
      return std::make_shared<ActionData>(m.get());
    };
    int past = n + 1 + (s.flip() ? 0 : s.integer(0, 3));
    switch (how) {
      case 0: {
        auto m = misfit();
        require(throws([&] { p.updateNode(i, m, m->createData()); }), "updateNode-misfit");
        break;
      }
      case 1: {
        auto m = node();
        require(throws([&] { p.updateNode(i, m, foreign(m)); }), "updateNode-foreign");
        break;
      }
      case 2: {
        auto m = node();
        require(throws([&] { p.updateNode(past, m, m->createData()); }), "updateNode-index");
        break;
      }
      case 3: {
        auto m = misfit();
        require(throws([&] { p.updateModel(i, m); }), "updateModel-misfit");
        break;
      }
      case 4: {
        auto m = node();
        require(throws([&] { p.updateModel(past, m); }), "updateModel-index");
        break;
      }
      case 5: {
        auto m = misfit();
        require(throws([&] { p.circularAppend(m, m->createData()); }), "append-misfit");
        require(throws([&] { p.circularAppend(m); }), "append-misfit");
        break;
      }
      case 6: {
        auto m = node();
        require(throws([&] { p.circularAppend(m, foreign(m)); }), "append-foreign");
        break;
      }
      case 7: {
        VectorXd x = VectorXd::Zero(k.st->get_nx() + (s.flip() ? 1 : -1));
        require(throws([&] { p.set_x0(x); }), "x0-size");
        break;
      }
      case 8: {
        Models ms;
        int nn = s.flip() && n ? n : s.integer(1, 6);
        for (int j = 0; j < nn; ++j) ms.push_back(n ? r.running[s.integer(0, n - 1)] : node());
        ms[s.integer(0, nn - 1)] = misfit();
        require(throws([&] { p.set_runningModels(ms); }), "models-misfit");
        break;
      }
      default: {
        auto m = misfit();
        require(throws([&] { p.set_terminalModel(m); }), "terminal-misfit");
      }
    }
  }
};
}  // namespace

static void edits(Src& s, Case& c) {
  Edit e(s, c);
  e.verify();
  e.r.updated = e.k.p->is_updated();
  e.r.updated = false;
  int n = s.integer(1, 8), acc = 0;
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 4))
      e.rejected();
    else
      e.accept(), ++acc;
    e.verify();
    if (s.chance(1, 2)) {
      bool u = e.k.p->is_updated();
      if (u != e.r.updated) fail(u ? "flag-raised" : "flag-missing", "");
      require(!e.k.p->is_updated(), "flag-cleared");
      e.r.updated = false;
    }
    if (s.chance(1, 2) || i + 1 == n) e.evaluate(), e.verify();
  }
  c.nontrivial = acc > 0;
  c.label("edits" + std::to_string(acc));
}

int main(int argc, char** argv) {
  Check k("C13",
          "A case is a problem of up to five nodes of mixed kinds and a sequence of one to eight edits, a quarter of them "
          "to be rejected (other state dimensions, foreign data, index past the terminal node). After each one the models, "
          "the data objects' identities, sizes and the updated flag are compared with a list model, and evaluations, "
          "derivatives and rollouts bit by bit with a problem built from scratch. Non-trivial: an accepted edit happened.");
  k.family("edits", 12000, 300000, edits);
  return k.main(argc, argv);
}
