#include "common/nodes.hpp"
#include <cstring>
using namespace crocoddyl;
namespace vf {
bool same(double a, double b) { return a == b || (a != a && b != b); }

std::shared_ptr<Action> gen_node(Src& s, std::shared_ptr<State> st, const NodeSpec& sp, int nu, std::string* desc) {
  bool vec = !dynamic_cast<LieState*>(st.get());
  int kind = sp.lib ? s.integer(0, 4) : 0;
  if (!vec && kind == 1) kind = 2;
  int n = st->get_ndx();
  std::shared_ptr<Action> m;
  ModelSpec ms;
  ms.eps = sp.eps;
  ms.dyn = sp.dyn;
  ms.reg = sp.reg;
  if (sp.cons) {
    ms.ng = s.integer(0, 2);
    ms.nh = s.integer(0, 1);
    ms.ng_T = s.flip() ? ms.ng : s.integer(0, 2);
    ms.nh_T = s.flip() ? ms.nh : s.integer(0, 1);
  }
  std::ostringstream o;
  if (nu == 0 || kind == 0) {
    m = gen_nlaction(s, st, nu, ms);
    o << "nl" << nu;
  } else if (kind == 1) {
    m = LQ::gen(s, n, nu, ms.ng, ms.nh, 0.1, sp.dyn).model();
    o << "lqr" << nu;
  } else {
    // integrated: the number of parameters is nw times the blocks
    int ck = 0, nw = nu, scheme = kind == 2 ? 0 : kind == 3 ? std::vector<int>{2, 3, 4}[s.integer(0, 2)] : 0;
    if (nu % 2 == 0 && s.flip()) ck = 1, nw = nu / 2;
    if (nu % 3 == 0 && s.flip()) ck = s.integer(2, 3), nw = nu / 3;
    CtrlKind k = make_ctrl(ck, nw);
    std::shared_ptr<Diff> d;
    if (kind == 4) {
      NodeSpec q = sp;
      DiffCostsCase dc = gen_diffcosts(s, st, nw, true, sp.eps);
      if (!sp.cons)
        while (dc.m->cons->get_constraints().size()) {
          std::string nm = dc.m->cons->get_constraints().begin()->first;
          dc.m->cons->removeConstraint(nm);
        }
      d = dc.m;
    } else {
      d = gen_nldiff(s, st, nw, ms);
    }
    if (sp.bounds && s.flip()) gen_bounds_u(s, *d);
    double dt = s.uni(0.05, 0.5);
    m = make_integ(scheme, d, k.m, dt, true);
    o << (kind == 4 ? "costs" : "") << (scheme ? "rk" + std::to_string(scheme) : std::string("euler")) << nu << "/" << nw;
  }
  if (desc) *desc = o.str();
  return m;
}
Traj ProblemCase::xs(Src& s, double scale) const {
  Traj t;
  for (int i = 0; i <= T(); ++i) t.push_back(gen_x(s, *st, scale));
  return t;
}
Traj ProblemCase::us(Src& s, double scale) const {
  Traj t;
  for (auto& m : running) t.push_back(s.vec(m->get_nu(), scale));
  return t;
}
bool ProblemCase::mixed_nu() const {
  for (auto& m : running)
    if (m->get_nu() != running[0]->get_nu()) return true;
  return false;
}
ProblemCase gen_problem(Src& s, Case& c, const NodeSpec& sp, int maxT, bool lie, bool same_nu) {
  ProblemCase k;
  k.st = gen_state(s, 2, lie);
  int T = sp.empty && s.chance(1, 16) ? 0 : s.integer(1, maxT);
  if (!T) c.label("no-running-nodes");
  c.desc << "nx=" << k.st->get_nx() << " T=" << T << " [";
  bool sn = same_nu || s.flip();
  int nu0 = s.integer(1, sp.max_nu);
  for (int i = 0; i < T; ++i) {
    if (i && s.chance(1, 3)) {  // one model at several nodes
      k.running.push_back(k.running[s.integer(0, i - 1)]);
      c.desc << " =";
      continue;
    }
    int nu = sn ? nu0 : s.integer(sp.zero_nu ? 0 : 1, sp.max_nu);
    std::string d;
    k.running.push_back(gen_node(s, k.st, sp, nu, &d));
    c.desc << " " << d;
  }
  std::string d = "=";
  if (T && sp.share_terminal && s.chance(1, 4) && sp.lib)
    k.terminal = k.running[s.integer(0, T - 1)];
  else
    k.terminal = gen_node(s, k.st, sp, sn ? nu0 : s.integer(1, sp.max_nu), &d);
  c.desc << " | " << d << " ]";
  k.x0 = gen_x(s, *k.st, 0.5);
  k.p = std::make_shared<Problem>(k.x0, k.running, k.terminal);
  if (k.mixed_nu()) c.label("mixed-nu");
  if (!sn || T > 1) c.label(sn ? "same-nu" : "free-nu");
  return k;
}

template <class A, class B>
static void cmp(const std::string& tag, const char* f, const A& a, const B& b, const std::string& w) {
  if (!same(a, b)) fail(tag, w + " " + f + ": " + str(a) + " vs " + str(b));
}
void same_data(const std::string& tag, const ActionData& a, const ActionData& b, int what, bool T, const std::string& w) {
  if (what & 1) {
    if (!same(a.cost, b.cost)) fail(tag, w + " cost " + num(a.cost) + " vs " + num(b.cost));
    cmp(tag, "xnext", a.xnext, b.xnext, w);
    cmp(tag, "r", a.r, b.r, w);
    cmp(tag, "g", a.g, b.g, w);
    cmp(tag, "h", a.h, b.h, w);
  }
  if (what & 2) {
    cmp(tag, "Lx", a.Lx, b.Lx, w);
    cmp(tag, "Lxx", a.Lxx, b.Lxx, w);
    cmp(tag, "Gx", a.Gx, b.Gx, w);
    cmp(tag, "Hx", a.Hx, b.Hx, w);
  }
  if ((what & 2) && !T) {
    cmp(tag, "Fx", a.Fx, b.Fx, w);
    cmp(tag, "Fu", a.Fu, b.Fu, w);
    cmp(tag, "Lu", a.Lu, b.Lu, w);
    cmp(tag, "Lxu", a.Lxu, b.Lxu, w);
    cmp(tag, "Luu", a.Luu, b.Luu, w);
    cmp(tag, "Gu", a.Gu, b.Gu, w);
    cmp(tag, "Hu", a.Hu, b.Hu, w);
  }
}
}  // namespace vf
