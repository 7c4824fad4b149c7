// Cost sums: histories of edits against the sum of the active references.
#include "common/costs.hpp"
using namespace vf;
using namespace crocoddyl;

static std::set<std::string> names(const std::vector<std::string>& v) { return std::set<std::string>(v.begin(), v.end()); }

struct Hist {
  Src& s;
  Case& c;
  std::shared_ptr<State> st;
  int nu;
  std::shared_ptr<CostSum> m;
  std::map<std::string, CostCase> ref;
  // data objects with the number of costs they were made for, and whether
  // they write in an action data object
  struct D {
    std::shared_ptr<CostSumData> d;
    std::shared_ptr<ActionData> shared;
    bool valid;
    std::size_t n;
  };
  std::vector<D> data;
  std::vector<std::shared_ptr<Collector>> cols;
  std::shared_ptr<Action> host;
  int evals = 0, edits = 0;

  Hist(Src& s_, Case& c_) : s(s_), c(c_) {
    st = gen_state(s, 3, true);
    nu = s.integer(1, 3);
    bool def = s.chance(1, 4);
    if (def) nu = st->get_nv();
    m = def ? std::make_shared<CostSum>(st) : std::make_shared<CostSum>(st, nu);
    ModelSpec sp;
    host = gen_nlaction(s, st, nu, sp);
    cols.push_back(std::make_shared<Collector>());
  }
  std::string name() {
    static const char* n[] = {"b", "a", "c", "aa", "B", "", "z"};
    return n[s.integer(0, 6)];
  }
  void make_data() {
    D d;
    d.d = m->createData(cols[0].get());
    if (s.chance(1, 3)) {
      d.shared = host->createData();
      d.d->shareMemory(d.shared.get());
    }
    d.valid = true;
    d.n = ref.size();
    data.push_back(d);
    require(d.d->costs.size() == ref.size(), "data-size");
    auto it = ref.begin();
    for (auto& p : d.d->costs) require(p.first == (it++)->first, "data-names");
  }
  void check_lists() {
    int nr = 0, nt = 0;
    std::set<std::string> act, in;
    for (auto& p : ref) {
      nt += p.second.r.nr;
      if (p.second.active) nr += p.second.r.nr;
      (p.second.active ? act : in).insert(p.first);
    }
    near("nr", m->get_nr(), nr, 0);
    near("nr-total", m->get_nr_total(), nt, 0);
    require(m->get_active_set() == act, "active-set");
    require(m->get_inactive_set() == in, "inactive-set");
    require(names(m->get_active()) == act && m->get_active().size() == act.size(), "active-list");
    require(names(m->get_inactive()) == in && m->get_inactive().size() == in.size(), "inactive-list");
    require(m->get_costs().size() == ref.size(), "costs-size");
    for (auto& p : ref) {
      auto it = m->get_costs().find(p.first);
      require(it != m->get_costs().end(), "costs-name", p.first);
      require(it->second->name == p.first && it->second->active == p.second.active &&
                  it->second->weight == p.second.weight && it->second->cost == p.second.m,
              "cost-item", p.first);
      require(m->getCostStatus(p.first) == p.second.active, "status", p.first);
    }
    require(!m->getCostStatus("unknown"), "status-unknown");
    near("nu", m->get_nu(), nu, 0);
    require(m->get_state() == st, "state");
  }
  void evaluate(D& d) {
    VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
    bool T = s.chance(1, 3), diff = s.chance(2, 3);
    if (!d.valid) {
      if (d.n == ref.size()) return;  // made for other costs: not usable
      require(throws([&] { m->calc(d.d, x, u); }), "stale-calc");
      require(throws([&] { m->calc(d.d, x); }), "stale-calc-T");
      require(throws([&] { m->calcDiff(d.d, x, u); }), "stale-diff");
      require(throws([&] { m->calcDiff(d.d, x); }), "stale-diff-T");
      return;
    }
    CostVal v = cost_zero(*st, nu);
    for (auto& p : ref)
      if (p.second.active) cost_add(v, cost_ref(p.second, x, u, T), p.second.weight);
    c.desc << " eval" << (T ? "T" : "") << (diff ? "D" : "");
    if (T)
      m->calc(d.d, x);
    else
      m->calc(d.d, x, u);
    near("cost", d.d->cost, v.cost, 1e-9, T ? "T" : "");
    if (diff) {
      if (T)
        m->calcDiff(d.d, x);
      else
        m->calcDiff(d.d, x, u);
      near("cost-after", d.d->cost, v.cost, 1e-9);
      nearm("Lx", d.d->Lx, v.Lx, 1e-8, T ? "T" : "");
      nearm("Lxx", d.d->Lxx, v.Lxx, 1e-8, T ? "T" : "");
      if (!T) {
        nearm("Lu", d.d->Lu, v.Lu, 1e-8);
        nearm("Lxu", d.d->Lxu, v.Lxu, 1e-8);
        nearm("Luu", d.d->Luu, v.Luu, 1e-8);
      }
      if (d.shared) {
        nearm("shared-Lx", d.shared->Lx, v.Lx, 1e-8);
        nearm("shared-Lxx", d.shared->Lxx, v.Lxx, 1e-8);
        if (!T) {
          nearm("shared-Lu", d.shared->Lu, v.Lu, 1e-8);
          nearm("shared-Lxu", d.shared->Lxu, v.Lxu, 1e-8);
          nearm("shared-Luu", d.shared->Luu, v.Luu, 1e-8);
        }
      }
      nearm("get-Lx", d.d->get_Lx(), v.Lx, 1e-8);
      nearm("get-Lxx", d.d->get_Lxx(), v.Lxx, 1e-8);
    }
    int na = 0;
    for (auto& p : ref) na += p.second.active;
    if (na) ++evals;
    // each data of an active cost holds that cost's own value
    for (auto& p : ref)
      if (p.second.active)
        near("item-cost", d.d->costs.at(p.first)->cost, cost_ref(p.second, x, u, T).cost, 1e-9, p.first);
  }
  void step() {
    std::string n = name();
    bool known = ref.count(n);
    int op = s.integer(0, 9);
    if (op <= 2) {  // evaluate
      if (data.empty() || !data.back().valid || s.chance(1, 4)) make_data();
      evaluate(data[s.integer(0, data.size() - 1)]);
      return;
    }
    ++edits;
    if (op <= 5) {
      CostCase k = gen_cost(s, st, nu, false);
      if (s.chance(1, 6) && !ref.empty()) {  // a cost object used twice
        auto it = ref.begin();
        std::advance(it, s.integer(0, ref.size() - 1));
        double w = k.weight;
        bool a = k.active;
        k = it->second;
        k.weight = w;
        k.active = a;
      }
      k.name = n;
      c.desc << " add " << n << "(" << k.r.name << "," << (int)k.a.kind << "," << k.weight << "," << k.active << ")";
      if (s.chance(1, 10)) {
        ResCase r = gen_residual(s, st, nu + 1);
        auto bad = std::make_shared<CostModelResidualTpl<double>>(st, r.m);
        bool item = s.flip();
        require(throws([&] {
                  if (item)
                    m->addCost(std::make_shared<CostItemTpl<double>>(n, bad, k.weight, k.active));
                  else
                    m->addCost(n, bad, k.weight, k.active);
                }),
                "add-nu");
        return;
      }
      int how = s.integer(0, 2);
      if (how == 0)
        m->addCost(n, k.m, k.weight, k.active);
      else if (how == 1)
        m->addCost(std::make_shared<CostItemTpl<double>>(n, k.m, k.weight, k.active));
      else {
        k.active = true;
        m->addCost(n, k.m, k.weight);
      }
      if (!known) {
        ref[n] = k;
        for (auto& d : data) d.valid = false;
      } else {
        c.label("duplicate");
      }
    } else if (op == 6) {
      c.desc << " rm " << n;
      m->removeCost(n);
      if (known) {
        ref.erase(n);
        for (auto& d : data) d.valid = false;
      }
    } else if (op <= 8) {
      bool a = s.flip();
      c.desc << " status " << n << a;
      m->changeCostStatus(n, a);
      if (known) ref[n].active = a;
      if (known) c.label("status-change");
    } else if (known) {
      double w = s.chance(1, 5) ? 0. : (s.chance(1, 4) ? -1. : 1.) * s.logu(0.05, 5.);
      c.desc << " weight " << n << w;
      m->get_costs().find(n)->second->weight = w;
      ref[n].weight = w;
    }
  }
};

static void history(Src& s, Case& c) {
  Hist h(s, c);
  h.check_lists();
  int n = s.integer(2, 14);
  for (int i = 0; i < n; ++i) {
    h.step();
    h.check_lists();
  }
  h.make_data();
  for (auto& d : h.data) h.evaluate(d);
  c.nontrivial = h.evals && h.edits >= 2;
}

int main(int argc, char** argv) {
  Check k("C20", "A case is a history of adding (also duplicates, wrong control sizes, items and one object twice), removing, "
          "activating, deactivating, reweighting and evaluating (with and without control, with derivatives, in own or "
          "shared memory) costs. After each step sizes, sets, items, values, gradients and Hessians are compared with "
          "closed forms over a map kept by the harness. Non-trivial: at least two edits and one evaluation with an "
          "active cost.");
  k.assume("data created before a cost was added or removed is not evaluated while the numbers happen to agree");
  k.family("history", 200000, 3000000, history);
  return k.main(argc, argv);
}
