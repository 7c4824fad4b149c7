// Constraint managers: histories of edits against the stack of the active
// references.
#include "common/costs.hpp"
using namespace vf;
using namespace crocoddyl;

struct Stack {
  VectorXd g, h, lb, ub;
  MatrixXd Gx, Gu, Hx, Hu;
};
static void below(MatrixXd& a, const MatrixXd& b) {
  MatrixXd c(a.rows() + b.rows(), b.cols());
  if (a.rows()) c.topRows(a.rows()) = a;
  c.bottomRows(b.rows()) = b;
  a = c;
}
static void below(VectorXd& a, const VectorXd& b) {
  VectorXd c(a.size() + b.size());
  c << a, b;
  a = c;
}

struct Hist {
  Src& s;
  Case& c;
  std::shared_ptr<State> st;
  int nu;
  std::shared_ptr<ConMan> m;
  std::map<std::string, ConCase> ref;
  struct D {
    std::shared_ptr<ConManData> d;
    std::shared_ptr<ActionData> shared;
    bool valid, fresh;  // fresh: the sizes are the running ones
    std::size_t n;
  };
  std::vector<D> data;
  Collector col;
  std::shared_ptr<Action> host;
  std::set<std::shared_ptr<Con>> bounded;  // created with bounds
  int evals = 0, edits = 0;
  bool bounds_current = true;

  Hist(Src& s_, Case& c_) : s(s_), c(c_) {
    st = gen_state(s, 3, true);
    nu = s.integer(1, 3);
    bool def = s.chance(1, 4);
    if (def) nu = st->get_nv();
    m = def ? std::make_shared<ConMan>(st) : std::make_shared<ConMan>(st, nu);
    host = gen_nlaction(s, st, nu, ModelSpec());
  }
  std::string name() {
    static const char* n[] = {"b", "a", "c", "aa", "B", "", "z"};
    return n[s.integer(0, 6)];
  }
  Stack stack(const VectorXd& x, const VectorXd& u, bool T) {
    Stack k;
    int n = st->get_ndx();
    k.g.resize(0); k.h.resize(0); k.lb.resize(0); k.ub.resize(0);
    k.Gx.resize(0, n); k.Hx.resize(0, n); k.Gu.resize(0, nu); k.Hu.resize(0, nu);
    for (auto& p : ref) {
      ConCase& q = p.second;
      if (!q.active || (T && !q.T)) continue;
      VectorXd r = q.r.value(x, u, T);
      MatrixXd Rx, Ru;
      q.r.jac(x, u, T, Rx, Ru);
      below(q.ineq ? k.g : k.h, r);
      below(q.ineq ? k.Gx : k.Hx, Rx);
      below(q.ineq ? k.Gu : k.Hu, Ru);
      if (q.ineq) below(k.lb, q.lb), below(k.ub, q.ub);
    }
    return k;
  }
  D make_data() {
    D d;
    d.d = m->createData(&col);
    d.valid = d.fresh = true;
    d.n = ref.size();
    near("data-ng", d.d->g.size(), m->get_ng(), 0);
    near("data-nh", d.d->h.size(), m->get_nh(), 0);
    require(d.d->g.isZero(0) && d.d->h.isZero(0) && d.d->Gx.isZero(0) && d.d->Gu.isZero(0) &&
                d.d->Hx.isZero(0) && d.d->Hu.isZero(0),
            "data-zero");
    if (s.chance(1, 2)) {
      d.shared = host->createData();
      d.fresh = false;
    }
    require(d.d->constraints.size() == ref.size(), "data-size");
    auto it = ref.begin();
    for (auto& p : d.d->constraints) require(p.first == (it++)->first, "data-names");
    return d;
  }
  void size(D& d, bool running) {
    bool need = !running || !d.fresh;
    if (!need && s.flip()) return;  // as created
    if (d.shared) {
      d.d->resize(m.get(), d.shared.get(), running);
      if (s.chance(1, 3)) d.d->shareMemory(d.shared.get());
    } else {
      d.d->resize(m.get(), running);
    }
    d.fresh = running;
  }
  void check_lists() {
    int ng = 0, nh = 0, ngT = 0, nhT = 0;
    std::set<std::string> act, in;
    for (auto& p : ref) {
      ConCase& q = p.second;
      (q.active ? act : in).insert(p.first);
      if (!q.active) continue;
      ng += q.ng();
      nh += q.nh();
      if (q.T) ngT += q.ng(), nhT += q.nh();
    }
    near("ng", m->get_ng(), ng, 0);
    near("nh", m->get_nh(), nh, 0);
    near("ng-T", m->get_ng_T(), ngT, 0);
    near("nh-T", m->get_nh_T(), nhT, 0);
    require(m->get_active_set() == act, "active-set");
    require(m->get_inactive_set() == in, "inactive-set");
    require(m->get_constraints().size() == ref.size(), "size");
    for (auto& p : ref) {
      auto it = m->get_constraints().find(p.first);
      require(it != m->get_constraints().end(), "name", p.first);
      require(it->second->name == p.first && it->second->active == p.second.active && it->second->constraint == p.second.m,
              "item", p.first);
      require(m->getConstraintStatus(p.first) == p.second.active, "status", p.first);
    }
    require(!m->getConstraintStatus("unknown"), "status-unknown");
    near("nu", m->get_nu(), nu, 0);
    require(m->get_state() == st, "state");
    if (bounds_current) bounds(false);
  }
  void bounds(bool T) {
    Stack k = stack(st->zero(), VectorXd::Zero(nu), T);
    require(m->get_lb().size() == (int)m->get_ng() && m->get_ub().size() == (int)m->get_ng(), "bounds-size");
    nearm("lower-bounds", m->get_lb().head(k.lb.size()), k.lb, 0);
    nearm("upper-bounds", m->get_ub().head(k.ub.size()), k.ub, 0);
  }
  void evaluate(D& d) {
    VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
    bool T = s.chance(1, 3), diff = s.chance(2, 3);
    if (!d.valid) {
      if (d.n == ref.size()) return;
      require(throws([&] { m->calc(d.d, x, u); }), "stale-calc");
      require(throws([&] { m->calc(d.d, x); }), "stale-calc-T");
      require(throws([&] { m->calcDiff(d.d, x, u); }), "stale-diff");
      require(throws([&] { m->calcDiff(d.d, x); }), "stale-diff-T");
      return;
    }
    if (s.chance(1, 10)) {
      VectorXd xb = VectorXd::Zero(st->get_nx() + 1), ub = VectorXd::Zero(nu + 1);
      require(throws([&] { m->calc(d.d, xb, u); }), "x-size");
      require(throws([&] { m->calc(d.d, xb); }), "x-size");
      require(throws([&] { m->calc(d.d, x, ub); }), "u-size");
      require(throws([&] { m->calcDiff(d.d, xb, u); }), "x-size");
      require(throws([&] { m->calcDiff(d.d, xb); }), "x-size");
      require(throws([&] { m->calcDiff(d.d, x, ub); }), "u-size");
    }
    size(d, !T);
    Stack k = stack(x, u, T);
    c.desc << " eval" << (T ? "T" : "") << (diff ? "D" : "");
    if (T)
      m->calc(d.d, x);
    else
      m->calc(d.d, x, u);
    nearm("g", d.d->g, k.g, 1e-9, T ? "T" : "");
    nearm("h", d.d->h, k.h, 1e-9, T ? "T" : "");
    bounds(T);
    bounds_current = !T;
    if (diff) {
      if (T)
        m->calcDiff(d.d, x);
      else
        m->calcDiff(d.d, x, u);
      nearm("g-after", d.d->g, k.g, 1e-9, T ? "T" : "");
      nearm("h-after", d.d->h, k.h, 1e-9, T ? "T" : "");
      nearm("Gx", d.d->Gx, k.Gx, 1e-8, T ? "T" : "");
      nearm("Hx", d.d->Hx, k.Hx, 1e-8, T ? "T" : "");
      require(d.d->Gu.rows() == k.Gu.rows() && d.d->Hu.rows() == k.Hu.rows(), "size-u");
      if (!T) {
        nearm("Gu", d.d->Gu, k.Gu, 1e-8);
        nearm("Hu", d.d->Hu, k.Hu, 1e-8);
      }
      nearm("get-Gx", d.d->get_Gx(), k.Gx, 1e-8);
      nearm("get-Hx", d.d->get_Hx(), k.Hx, 1e-8);
      nearm("get-g", d.d->get_g(), k.g, 1e-8);
      nearm("get-h", d.d->get_h(), k.h, 1e-8);
      if (d.shared) {
        nearm("shared-Gx", d.shared->Gx, k.Gx, 1e-8);
        nearm("shared-Hx", d.shared->Hx, k.Hx, 1e-8);
        if (!T) {
          nearm("shared-Gu", d.shared->Gu, k.Gu, 1e-8);
          nearm("shared-Hu", d.shared->Hu, k.Hu, 1e-8);
        }
      }
    }
    if (d.shared) {
      nearm("shared-g", d.shared->g, k.g, 1e-9);
      nearm("shared-h", d.shared->h, k.h, 1e-9);
    }
    if (k.g.size() + k.h.size() > 0) {
      ++evals;
      c.label(T ? "terminal" : "running");
    }
  }
  void edited() {
    bounds_current = true;
    for (auto& d : data) d.fresh = false;
  }
  void step() {
    std::string n = name();
    bool known = ref.count(n);
    int op = s.integer(0, 9);
    if (op <= 2) {
      if (data.empty() || !data.back().valid || s.chance(1, 4)) data.push_back(make_data());
      evaluate(data[s.integer(0, data.size() - 1)]);
      return;
    }
    ++edits;
    if (op <= 5) {
      ConCase k = gen_con(s, st, nu);
      if (s.chance(1, 6) && !ref.empty()) {  // one constraint object used twice
        auto it = ref.begin();
        std::advance(it, s.integer(0, ref.size() - 1));
        bool a = k.active;
        k = it->second;
        k.active = a;
      }
      k.name = n;
      c.desc << " add " << n << "(" << k.r.name << "," << (k.ineq ? "ineq" : "eq") << k.r.nr << (k.T ? "T" : "") << "," << k.active << ")";
      if (s.chance(1, 10)) {
        ResCase r = gen_residual(s, st, nu + 1);
        auto bad = std::make_shared<ConstraintModelResidualTpl<double>>(st, r.m);
        require(throws([&] { m->addConstraint(n, bad, k.active); }), "add-nu");
        return;
      }
      if (s.chance(1, 4)) {
        k.active = true;
        m->addConstraint(n, k.m);
      } else {
        m->addConstraint(n, k.m, k.active);
      }
      if (known) {
        c.label("duplicate");
        return;
      }
      // inactive items do not touch the sizes or the stacked bounds
      ref[n] = k;
      if (k.ineq) bounded.insert(k.m);
      if (k.active) edited();
      for (auto& d : data) d.valid = false;
    } else if (op == 6) {
      c.desc << " rm " << n;
      m->removeConstraint(n);
      if (known) {
        ref.erase(n);
        edited();
        for (auto& d : data) d.valid = false;
      }
    } else if (op <= 8) {
      bool a = s.flip();
      c.desc << " status " << n << a;
      m->changeConstraintStatus(n, a);
      if (known) {
        if (ref[n].active != a) edited(), c.label("status-change");
        ref[n].active = a;
      }
    } else if (known && bounded.count(ref[n].m) && s.chance(1, 2)) {
      // without bounds it is an equality constraint, until it gets new ones
      c.desc << " unbound " << n;
      ref[n].m->remove_bounds();
      for (auto& p : ref)
        if (p.second.m == ref[n].m) p.second.ineq = false;
      edited();
      bounds_current = false;
      c.label("bounds removed");
    } else if (known && bounded.count(ref[n].m)) {
      // new bounds of one constraint: seen by the next evaluation
      double beta;
      VectorXd lb, ub;
      gen_bounds(s, ref[n].r.nr, lb, ub, beta);
      c.desc << " bounds " << n;
      ref[n].m->update_bounds(lb, ub);
      for (auto& p : ref)
        if (p.second.m == ref[n].m) p.second.lb = lb, p.second.ub = ub, p.second.ineq = true;
      edited();
      bounds_current = false;
    }
  }
};

static void history(Src& s, Case& c) {
  Hist h(s, c);
  h.check_lists();
  int n = s.integer(2, 16);
  for (int i = 0; i < n; ++i) {
    h.step();
    h.check_lists();
  }
  h.data.push_back(h.make_data());
  for (auto& d : h.data) h.evaluate(d);
  c.nontrivial = h.evals && h.edits >= 2;
}

int main(int argc, char** argv) {
  Check k("C21",
          "A case is a history of adding (also duplicates, wrong control sizes and one object twice), removing, "
          "activating, deactivating, rebounding and evaluating (with and without control, with derivatives, in own or "
          "shared memory, resized or as created) constraints. After each step sizes, sets, items, stacked values, "
          "bounds and Jacobians are compared with a map kept by the harness. Non-trivial: at least two edits and one "
          "evaluation with a non-empty stack.");
  k.assume("data is resized before it is used after an edit or for the other kind of node, as the library's own models do");
  k.assume("data created before a constraint was added or removed is not evaluated while the numbers happen to agree");
  k.family("history", 100000, 2000000, history);
  return k.main(argc, argv);
}
