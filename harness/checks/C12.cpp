// Shooting problems evaluate node by node.
#include "common/nodes.hpp"
using namespace vf;

static NodeSpec spec(Src& s) {
  NodeSpec sp;
  sp.zero_nu = s.chance(1, 4);
  sp.bounds = true;
  return sp;
}

static void evaluate(Src& s, Case& c) {
  NodeSpec sp = spec(s);
  sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 6);
  auto& p = *k.p;
  int T = k.T();
  near("T", p.get_T(), T, 0);
  near("nx", p.get_nx(), k.st->get_nx(), 0);
  near("ndx", p.get_ndx(), k.st->get_ndx(), 0);
  nearm("x0", p.get_x0(), k.x0, 0);
  require(p.get_runningModels() == k.running && p.get_terminalModel() == k.terminal, "models");
  require((int)p.get_runningDatas().size() == T, "datas");
  int n = s.integer(1, 4);
  for (int it = 0; it < n; ++it) {
    Traj xs = k.xs(s), us = k.us(s);
    int op = s.integer(0, 3);
    c.desc << " op" << op;
    if (op <= 1) {
      double cost = p.calc(xs, us), sum = 0.;
      double dcost = op ? p.calcDiff(xs, us) : 0.;
      double mag = 0.;
      for (int i = 0; i <= T; ++i) {
        auto& m = i < T ? k.running[i] : k.terminal;
        auto d = m->createData();
        if (i < T) {
          m->calc(d, xs[i], us[i]);
          if (op) m->calcDiff(d, xs[i], us[i]);
        } else {
          m->calc(d, xs[i]);
          if (op) m->calcDiff(d, xs[i]);
        }
        sum += d->cost;
        mag += std::fabs(d->cost);
        same_data(op ? "calcDiff" : "calc", i < T ? *p.get_runningDatas()[i] : *p.get_terminalData(), *d, op ? 3 : 1, i == T,
                  "node " + std::to_string(i));
      }
      if (std::fabs(cost - sum) > 1e-12 * (1. + mag)) fail("cost", num(cost) + " vs " + num(sum));
      if (op && std::fabs(dcost - sum) > 1e-12 * (1. + mag)) fail("cost-diff", num(dcost) + " vs " + num(sum));
      c.nontrivial = true;
      c.label(op ? "calcDiff" : "calc");
    } else if (op == 2) {
      Traj out;
      if (s.flip()) {
        out = p.rollout_us(us);
      } else {
        out = k.xs(s);
        p.rollout(us, out);
      }
      require((int)out.size() == T + 1, "rollout-size");
      nearm("rollout-start", out[0], k.x0, 0);
      for (int i = 0; i < T; ++i) {
        auto d = k.running[i]->createData();
        k.running[i]->calc(d, out[i], us[i]);
        if (!same(d->xnext, out[i + 1])) fail("rollout", "node " + std::to_string(i));
        same_data("rollout-data", *p.get_runningDatas()[i], *d, 1, false);
      }
      auto d = k.terminal->createData();
      k.terminal->calc(d, out[T]);
      same_data("rollout-terminal", *p.get_terminalData(), *d, 1, true);
      p.calc(out, us);
      for (int i = 0; i < T; ++i) {
        VectorXd gap = ref_diff(*k.st, p.get_runningDatas()[i]->xnext, out[i + 1]);
        if (gap.allFinite() && gap.cwiseAbs().maxCoeff() > 1e-10) fail("rollout-gap", str(gap));
      }
      c.nontrivial = true;
      c.label("rollout");
    } else {
      Traj qs(xs.begin(), xs.end() - 1);
      for (auto& x : qs) x.tail(k.st->get_nv()).setZero();
      Traj out = us;
      bool alloc = s.flip();
      if (alloc)
        out = p.quasiStatic_xs(qs);
      else
        p.quasiStatic(out, qs);
      require((int)out.size() == T, "quasistatic-size");
      for (int i = 0; i < T; ++i) {
        auto& m = k.running[i];
        auto d = m->createData();
        VectorXd u = alloc ? VectorXd(VectorXd::Zero(m->get_nu())) : us[i];
        m->quasiStatic(d, u, qs[i]);
        if (!same(u, out[i])) fail("quasistatic", "node " + std::to_string(i) + " " + str(out[i]) + " vs " + str(u));
      }
      c.nontrivial = true;
      c.label("quasistatic");
    }
  }
}

static void reject(Src& s, Case& c) {
  ProblemCase k = gen_problem(s, c, spec(s), 4);
  auto& p = *k.p;
  int T = k.T(), nx = k.st->get_nx();
  Traj xs = k.xs(s), us = k.us(s);
  double cost = p.calc(xs, us);
  Traj bx = xs, bu = us;
  int how = s.integer(0, 5), i = s.integer(0, T), j = s.integer(0, T - 1);
  c.desc << " how" << how << " at " << i << "," << j;
  c.label("how" + std::to_string(how));
  c.nontrivial = true;
  if (how == 0) bx.pop_back();
  if (how == 1) bx.push_back(bx.back());
  if (how == 2) bu.pop_back();
  if (how == 3) bu.push_back(bu.back());
  if (how == 4) bx[i] = VectorXd::Zero(nx + (s.flip() ? 1 : -1));
  if (how == 5) bu[j] = VectorXd::Zero(us[j].size() + (us[j].size() && s.flip() ? -1 : 1));
  require(throws([&] { p.calc(bx, bu); }), "calc");
  require(throws([&] { p.calcDiff(bx, bu); }), "calcDiff");
  if (how != 4) {
    Traj out(bx.size());
    require(throws([&] { p.rollout(bu, out); }), "rollout");
    if (how > 1) require(throws([&] { p.rollout_us(bu); }), "rollout-us");
  }
  Traj q(bx.begin(), bx.end() - 1), qu = us;
  for (auto& x : q) x.tail(std::min<int>(x.size(), k.st->get_nv())).setZero();
  if (how <= 1 || (how == 4 && i < T)) {
    require(throws([&] { p.quasiStatic(qu, q); }), "quasistatic-xs");
    require(throws([&] { p.quasiStatic_xs(q); }), "quasistatic-xs");
  }
  if (how == 2 || how == 3 || how == 5) {
    qu = bu;
    require(throws([&] { p.quasiStatic(qu, q); }), "quasistatic-us");
  }
  // still evaluates as before
  require(same(p.calc(xs, us), cost), "after");
  // construction
  NodeSpec sp;
  auto st2 = std::make_shared<crocoddyl::StateVectorTpl<double>>(nx % 2 ? nx + 3 : nx + 2);
  auto bad = gen_node(s, st2, sp, 1, nullptr);
  VectorXd xb = VectorXd::Zero(nx + 1);
  auto models = k.running;
  require(throws([&] { Problem(xb, models, k.terminal); }), "ctor-x0");
  require(throws([&] { Problem(k.x0, models, bad); }), "ctor-terminal");
  auto datas = p.get_runningDatas();
  require(throws([&] { Problem(xb, models, k.terminal, datas, p.get_terminalData()); }), "ctor-datas-x0");
  require(throws([&] { Problem(k.x0, models, bad, datas, bad->createData()); }), "ctor-datas-terminal");
  auto fewer = datas;
  fewer.pop_back();
  require(throws([&] { Problem(k.x0, models, k.terminal, fewer, p.get_terminalData()); }), "ctor-datas-number");
  if (T > 1) {
    models[s.integer(1, T - 1)] = bad;
    require(throws([&] { Problem(k.x0, models, k.terminal); }), "ctor-running");
  }
  auto plain = std::make_shared<ActionData>(k.running[0].get());
  auto d2 = datas;
  d2[j] = plain;
  require(throws([&] { Problem(k.x0, k.running, k.terminal, d2, p.get_terminalData()); }), "ctor-foreign-data");
  require(throws([&] { Problem(k.x0, k.running, k.terminal, datas, plain); }), "ctor-foreign-terminal-data");
}

int main(int argc, char** argv) {
  Check k("C12",
          "A case is a problem of up to six nodes mixing nonlinear, linear-quadratic and integrated models (also shared "
          "between nodes, on Euclidean and Lie states, with constraints, different or no controls) and a sequence of "
          "evaluations, differentiations, rollouts and quasi-static requests; every node's data is compared bit by bit "
          "with the model evaluated alone in new data, or one argument is spoiled. Non-trivial: something was compared.");
  k.family("evaluate", 12000, 300000, evaluate);
  k.family("reject", 6000, 100000, reject);
  return k.main(argc, argv);
}
