// Residual costs and constraints, and the library's residuals.
#include "common/costs.hpp"
using namespace vf;
using namespace crocoddyl;

static void check_cost(const std::shared_ptr<CostData>& d, const CostVal& v, bool T, bool diff) {
  const char* w = T ? "without control" : "";
  near("cost", d->cost, v.cost, 1e-9, w);
  if (!diff) return;
  nearm("Lx", d->Lx, v.Lx, 1e-8, w);
  nearm("Lxx", d->Lxx, v.Lxx, 1e-8, w);
  if (T) return;
  nearm("Lu", d->Lu, v.Lu, 1e-8);
  nearm("Lxu", d->Lxu, v.Lxu, 1e-8);
  nearm("Luu", d->Luu, v.Luu, 1e-8);
}

static void cost(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int nu = s.integer(1, 3);
  CostCase k = gen_cost(s, st, nu);
  bool quad_default = k.m->get_activation() != k.act;
  c.desc << "nx=" << st->get_nx() << " nu=" << nu << " residual=" << k.r.name << k.r.nr << " activation=" << act_names[k.a.kind];
  c.label(k.r.name);
  c.label(act_names[k.a.kind]);
  near("nu", k.m->get_nu(), nu, 0);
  require(k.m->get_state() == st, "state");
  near("nr", k.m->get_activation()->get_nr(), k.r.nr, 0);
  near("nr-residual", k.m->get_residual()->get_nr(), k.r.nr, 0);
  Collector col, col2;
  std::vector<std::shared_ptr<CostData>> data;
  int n = s.integer(1, 6);
  bool some = false;
  for (int i = 0; i < n; ++i) {
    if (data.empty() || s.chance(1, 3)) data.push_back(k.m->createData(s.flip() ? &col : &col2));
    auto& d = data[s.integer(0, data.size() - 1)];
    if (i && s.chance(1, 4) && !quad_default) mutate_act(s, k.a, *k.act);
    VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
    bool T = s.chance(1, 3), diff = s.chance(3, 4);
    c.desc << (T ? " T" : " R") << (diff ? "D" : "");
    CostVal v = cost_ref(k, x, u, T);
    if (T)
      k.m->calc(d, x);
    else
      k.m->calc(d, x, u);
    if (!T || k.r.state_dependent()) nearm("residual", d->residual->r, k.r.value(x, u, T), 1e-9);
    if (diff && T) k.m->calcDiff(d, x);
    if (diff && !T) k.m->calcDiff(d, x, u);
    check_cost(d, v, T, diff);
    some |= diff && v.cost != 0.;
  }
  c.nontrivial = some;
  auto bad = std::make_shared<ActivationModelQuadTpl<double>>(k.r.nr + 1);
  require(throws([&] { CostModelResidualTpl<double>(st, bad, k.m->get_residual()); }), "activation-size");
}

static void check_con(const std::shared_ptr<ConData>& d, const ConCase& k, const VectorXd& x, const VectorXd& u, bool T, bool diff) {
  VectorXd r = k.r.value(x, u, T), none(0);
  MatrixXd Rx, Ru;
  k.r.jac(x, u, T, Rx, Ru);
  nearm("g", d->g, k.ineq ? r : none, 1e-9);
  nearm("h", d->h, k.ineq ? none : r, 1e-9);
  if (!diff) return;
  MatrixXd nx(0, Rx.cols()), nw(0, Ru.cols());
  nearm("Gx", d->Gx, k.ineq ? Rx : nx, 1e-9, T ? "T" : "");
  nearm("Hx", d->Hx, k.ineq ? nx : Rx, 1e-9, T ? "T" : "");
  if (T) return;
  nearm("Gu", d->Gu, k.ineq ? Ru : nw, 1e-9);
  nearm("Hu", d->Hu, k.ineq ? nw : Ru, 1e-9);
}
static void con_state(const ConCase& k) {
  near("ng", k.m->get_ng(), k.ng(), 0);
  near("nh", k.m->get_nh(), k.nh(), 0);
  require(k.m->get_T_constraint() == k.T, "T-constraint");
  if (k.ineq) {
    nearm("lower", k.m->get_lb(), k.lb, 0);
    nearm("upper", k.m->get_ub(), k.ub, 0);
  }
}

static void constraint(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int nu = s.integer(1, 3);
  ConCase k = gen_con(s, st, nu);
  int nr = k.r.nr;
  c.desc << "nx=" << st->get_nx() << " nu=" << nu << " residual=" << k.r.name << nr << (k.ineq ? " inequality" : " equality");
  c.label(k.r.name);
  near("nu", k.m->get_nu(), nu, 0);
  require(k.m->get_state() == st, "state");
  Collector col;
  std::vector<std::shared_ptr<ConData>> data;
  int n = s.integer(1, 8);
  for (int i = 0; i < n; ++i) {
    con_state(k);
    int op = s.integer(0, 7);
    if (op <= 4) {
      if (data.empty() || s.chance(1, 3)) data.push_back(k.m->createData(&col));
      auto& d = data[s.integer(0, data.size() - 1)];
      VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
      bool T = s.chance(1, 3), diff = s.chance(3, 4);
      c.desc << (T ? " T" : " R") << (diff ? "D" : "");
      if (T)
        k.m->calc(d, x);
      else
        k.m->calc(d, x, u);
      if (diff && T) k.m->calcDiff(d, x);
      if (diff && !T) k.m->calcDiff(d, x, u);
      check_con(d, k, x, u, T, diff);
      c.nontrivial = true;
    } else if (op == 5) {
      // bounds of a constraint created with bounds (or without: empty ones)
      VectorXd lb, ub;
      double beta;
      gen_bounds(s, k.bounded ? nr : 0, lb, ub, beta);
      c.desc << " bounds";
      k.m->update_bounds(lb, ub);
      if (k.bounded) {
        k.ineq = true;
        k.lb = lb;
        k.ub = ub;
      }
      c.label("bounds-updated");
    } else if (op == 6) {
      c.desc << " unbound";
      k.m->remove_bounds();
      k.ineq = false;
      c.label("bounds-removed");
    } else {
      // rejected bounds
      VectorXd lb, ub;
      double beta;
      gen_bounds(s, nr, lb, ub, beta);
      int j = s.integer(0, nr - 1), how = s.integer(0, 6);
      c.desc << " bad" << how;
      if (how == 0) lb.conservativeResize(nr + 1), lb[nr] = -1.;
      if (how == 1) ub.conservativeResize(nr + 1), ub[nr] = 1.;
      if (how == 2) ub[j] = 0., lb[j] = s.uni(1e-6, 1.);
      if (how == 3) lb[j] = ub[j] = INF;
      if (how == 4) lb[j] = ub[j] = -INF;
      if (how == 5) lb[j] = ub[j] = std::numeric_limits<double>::max();
      if (how == 6) lb[j] = ub[j] = -std::numeric_limits<double>::max();
      require(throws([&] { k.m->update_bounds(lb, ub); }), "update-rejected", std::to_string(how));
      require(throws([&] { ConstraintModelResidualTpl<double>(st, k.m->get_residual(), lb, ub); }), "ctor-rejected",
              std::to_string(how));
      c.label("bounds-rejected");
    }
  }
  con_state(k);
}

// Residuals on joint data, filled by the harness as a dynamics model would.
struct Joint {
  std::shared_ptr<JointDataAbstractTpl<double>> j;
  void fill(Src& s) {
    auto set = [&](VectorXd& v) { v = s.vec(v.size()); };
    auto mat = [&](MatrixXd& m) { m = s.mat(m.rows(), m.cols()); };
    set(j->tau);
    set(j->a);
    mat(j->dtau_dx);
    mat(j->dtau_du);
    mat(j->da_dx);
    mat(j->da_du);
  }
};
static void library(Src& s, Case& c) {
  auto st = gen_state(s, 3, true);
  int nv = st->get_nv(), ndx = st->get_ndx(), kind = s.integer(0, 2), how = s.integer(0, 3);
  int nu = s.integer(1, 3), na = s.integer(1, 3);
  auto actu = gen_actuation(s, st, na, true);
  std::shared_ptr<Res> m;
  VectorXd ref;
  bool fwd = false;
  if (kind == 0) {
    how %= 3;
    if (how == 0) {
      ref = s.vec(nu);
      m = std::make_shared<ResidualModelControlTpl<double>>(st, ref);
    } else {
      if (how == 2) nu = nv;
      ref = VectorXd::Zero(nu);
      if (how == 1)
        m = std::make_shared<ResidualModelControlTpl<double>>(st, nu);
      else
        m = std::make_shared<ResidualModelControlTpl<double>>(st);
    }
    require(throws([&] { ResidualModelControlTpl<double>(st, std::size_t(0)); }), "nu0");
    require(throws([&] { ResidualModelControlTpl<double>(st, VectorXd()); }), "nu0");
  } else if (kind == 1) {
    ref = how <= 1 ? s.vec(na) : VectorXd(VectorXd::Zero(na));
    if (how & 1) nu = nv;
    if (how == 0) {
      fwd = s.flip();
      if (fwd) nu = na;
      m = std::make_shared<ResidualModelJointEffortTpl<double>>(st, actu, ref, nu, fwd);
    } else if (how == 1)
      m = std::make_shared<ResidualModelJointEffortTpl<double>>(st, actu, ref);
    else if (how == 2)
      m = std::make_shared<ResidualModelJointEffortTpl<double>>(st, actu, nu);
    else
      m = std::make_shared<ResidualModelJointEffortTpl<double>>(st, actu);
    require(throws([&] { ResidualModelJointEffortTpl<double>(st, actu, VectorXd::Zero(na + 1)); }), "uref-size");
    require(throws([&] { ResidualModelJointEffortTpl<double>(st, actu, VectorXd::Zero(na + 1), nu); }), "uref-size");
    require(throws([&] { ResidualModelJointEffortTpl<double>(st, actu, std::size_t(0)); }), "nu0");
  } else {
    ref = how <= 1 ? s.vec(nv) : VectorXd(VectorXd::Zero(nv));
    if (how & 1) nu = nv;
    if (how == 0)
      m = std::make_shared<ResidualModelJointAccelerationTpl<double>>(st, ref, nu);
    else if (how == 1)
      m = std::make_shared<ResidualModelJointAccelerationTpl<double>>(st, ref);
    else if (how == 2)
      m = std::make_shared<ResidualModelJointAccelerationTpl<double>>(st, nu);
    else
      m = std::make_shared<ResidualModelJointAccelerationTpl<double>>(st);
    require(throws([&] { ResidualModelJointAccelerationTpl<double>(st, VectorXd::Zero(nv + 1)); }), "aref-size");
  }
  static const char* nm[] = {"control", "joint-effort", "joint-acceleration"};
  c.desc << nm[kind] << " constructor " << how << " nu=" << nu << " na=" << na << " nv=" << nv << (fwd ? " forward" : "");
  c.label(nm[kind]);
  int nr = ref.size();
  near("nr", m->get_nr(), nr, 0);
  near("nu", m->get_nu(), nu, 0);
  bool dep = kind == 2 || (kind == 1 && !fwd);
  require(m->get_q_dependent() == dep && m->get_v_dependent() == dep && m->get_u_dependent(), "dependence");
  auto get_ref = [&]() -> VectorXd {
    if (kind == 0) return dynamic_cast<ResidualModelControlTpl<double>&>(*m).get_reference();
    if (kind == 1) return dynamic_cast<ResidualModelJointEffortTpl<double>&>(*m).get_reference();
    return dynamic_cast<ResidualModelJointAccelerationTpl<double>&>(*m).get_reference();
  };
  auto set_ref = [&](const VectorXd& v) {
    if (kind == 0) return dynamic_cast<ResidualModelControlTpl<double>&>(*m).set_reference(v);
    if (kind == 1) return dynamic_cast<ResidualModelJointEffortTpl<double>&>(*m).set_reference(v);
    dynamic_cast<ResidualModelJointAccelerationTpl<double>&>(*m).set_reference(v);
  };
  nearm("reference", get_ref(), ref, 0);
  Joint jd[2];
  std::unique_ptr<DataCollectorJointTpl<double>> cols[2];
  for (int i = 0; i < 2; ++i) {
    jd[i].j = std::make_shared<JointDataAbstractTpl<double>>(st, actu, nu);
    cols[i].reset(new DataCollectorJointTpl<double>(jd[i].j));
  }
  Collector plain;
  if (kind > 0) require(throws([&] { m->createData(&plain); }), "collector-type");
  // the residual alone, or in a cost or constraint
  ActRef a;
  a.nr = nr;
  a.kind = (ActKind)s.integer(0, NACTS - 1);
  auto act = build_act(s, a);
  auto cm = std::make_shared<CostModelResidualTpl<double>>(st, act, m);
  auto km = std::make_shared<ConstraintModelResidualTpl<double>>(st, m);
  std::shared_ptr<ResData> d[2];
  std::shared_ptr<CostData> cd[2];
  std::shared_ptr<ConData> kd[2];
  for (int i = 0; i < 2; ++i) {
    d[i] = m->createData(cols[i].get());
    cd[i] = cm->createData(cols[i].get());
    kd[i] = km->createData(cols[i].get());
  }
  int n = s.integer(1, 5);
  for (int it = 0; it < n; ++it) {
    int i = s.integer(0, 1);
    bool T = s.chance(1, 3);
    jd[i].fill(s);
    VectorXd x = gen_x(s, *st, 1.), u = s.vec(nu);
    if (it && s.chance(1, 3)) {
      ref = s.vec(nr);
      set_ref(ref);
      nearm("set-reference", get_ref(), ref, 0);
      require(throws([&] { set_ref(VectorXd::Zero(nr + 1)); }), "reference-size");
      nearm("set-reference", get_ref(), ref, 0);
    }
    VectorXd r;
    MatrixXd Rx = MatrixXd::Zero(nr, ndx), Ru;
    auto& j = *jd[i].j;
    if (kind == 0) {
      r = u - ref;
      Ru = MatrixXd::Identity(nr, nu);
    } else if (kind == 1) {
      r = j.tau - ref;
      if (!fwd) Rx = j.dtau_dx;
      Ru = j.dtau_du;
    } else {
      r = j.a - ref;
      Rx = j.da_dx;
      Ru = j.da_du;
    }
    if (T && (kind == 0 || fwd || kind == 2)) r.setZero(), Rx.setZero();
    c.desc << (T ? " T" : " R") << i;
    if (T) {
      m->calc(d[i], x);
      m->calcDiff(d[i], x);
      cm->calc(cd[i], x);
      cm->calcDiff(cd[i], x);
      km->calc(kd[i], x);
      km->calcDiff(kd[i], x);
    } else {
      m->calc(d[i], x, u);
      m->calcDiff(d[i], x, u);
      cm->calc(cd[i], x, u);
      cm->calcDiff(cd[i], x, u);
      km->calc(kd[i], x, u);
      km->calcDiff(kd[i], x, u);
      if (kind == 0) require(throws([&] { m->calc(d[i], x, VectorXd::Zero(nu + 1)); }), "u-size");
      if (kind == 0) m->calc(d[i], x, u);
    }
    nearm("library-residual", d[i]->r, r, 0, nm[kind]);
    nearm("library-Rx", d[i]->Rx, Rx, 0, nm[kind]);
    nearm("constraint-h", kd[i]->h, r, 0, nm[kind]);
    nearm("constraint-Hx", kd[i]->Hx, Rx, 0, nm[kind]);
    if (!T) {
      nearm("library-Ru", d[i]->Ru, Ru, 0, nm[kind]);
      nearm("constraint-Hu", kd[i]->Hu, Ru, 0, nm[kind]);
    }
    // cost by the chain rule
    CostVal v = cost_zero(*st, nu);
    if (!T || dep) {
      VectorXd Ar(nr), Arr(nr);
      for (int q = 0; q < nr; ++q) Ar[q] = a.grad(r, q), Arr[q] = a.curv(r, q);
      v.cost = a.value(r);
      v.Lx = Rx.transpose() * Ar;
      v.Lxx = Rx.transpose() * Arr.asDiagonal() * Rx;
      v.Lu = Ru.transpose() * Ar;
      v.Luu = Ru.transpose() * Arr.asDiagonal() * Ru;
      v.Lxu = Rx.transpose() * Arr.asDiagonal() * Ru;
      if (a.kind == NORMB && r.norm() == 0.) continue;  // not differentiable there
    }
    check_cost(cd[i], v, T, true);
  }
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  Check k("C22",
          "A case picks a residual (any dependence on position, velocity and control, or a residual of the library with "
          "any of its constructors), an activation or bounds, and a history of evaluations on several data objects, "
          "bound and reference changes and rejected arguments; everything is compared with the closed form. "
          "Non-trivial: a non-zero cost, or a constraint, was compared with its reference.");
  k.assume("the 2-norm barrier is not differentiated at the origin");
  k.family("cost", 60000, 1500000, cost);
  k.family("constraint", 60000, 1500000, constraint);
  k.family("library", 40000, 1000000, library);
  return k.main(argc, argv);
}
