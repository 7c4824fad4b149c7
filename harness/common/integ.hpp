// Control parametrizations, differential models and integrated models, with an
// independent reference of each.
#ifndef VERIF_INTEG_HPP_
#define VERIF_INTEG_HPP_
#include "common/models.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"

namespace vf {
typedef crocoddyl::ControlParametrizationModelAbstractTpl<double> Ctrl;
typedef crocoddyl::ControlParametrizationDataAbstractTpl<double> CtrlData;
typedef crocoddyl::IntegratedActionModelAbstractTpl<double> Integ;

struct CtrlKind {
  std::shared_ptr<Ctrl> m;
  std::vector<double> nodes;  // the interpolation nodes, one per parameter block
  int nw = 0;
  std::string name;
  int nu() const { return nw * (int)nodes.size(); }
};
// kind: 0 constant, 1 linear, 2 quadratic for RK3, 3 quadratic for RK4
CtrlKind make_ctrl(int kind, int nw);
VectorXd ctrl_coeffs(const CtrlKind& k, double t);  // Lagrange coefficients
MatrixXd ctrl_jac(const CtrlKind& k, double t);
VectorXd ctrl_value(const CtrlKind& k, double t, const VectorXd& u);

// A differential model with its reference.
struct DiffCase {
  std::shared_ptr<State> st;
  std::shared_ptr<Diff> m;
  std::function<Eval(const VectorXd&, const VectorXd&, bool)> ref;
  std::string name;
  int nu = 0;
  MatrixXd A, B;  // only for the linear kind: a = A x + B u + c
  VectorXd c;
};
// kind: -1 any, 0 nonlinear, 1 linear-quadratic
DiffCase gen_diff(Src& s, Case& c, int nu, int kind = -1, bool lie = true, int ng_T_mode = 0);
void gen_bounds_u(Src& s, Diff& m);
void gen_bounds_g(Src& s, Diff& m);

struct Stage {
  double c, w;  // node and weight
  VectorXd y, u, k;
  Eval e;
};
struct IntegRef {
  VectorXd dx, xnext, g, h, r;
  double cost;
  std::vector<Stage> stages;
};
// scheme: 0 Euler, else the order of the Runge-Kutta scheme.
IntegRef integ_ref(const DiffCase& d, const CtrlKind& k, int scheme, double dt, const VectorXd& x,
                   const VectorXd& u);

struct IntegCase {
  DiffCase d;
  CtrlKind k;
  int scheme = 0;
  double dt = 0.;
  bool wr = true;
  std::shared_ptr<Integ> m;
};
double gen_dt(Src& s);
IntegCase gen_integ(Src& s, Case& c, int diff_kind = -1, bool lie = true, int scheme = -1);
std::shared_ptr<Integ> make_integ(int scheme, std::shared_ptr<Diff> d, std::shared_ptr<Ctrl> k, double dt,
                                  bool wr);

// Central differences of 4th order of a vector function.
template <class F>
MatrixXd fd(F f, int n, double h) {
  MatrixXd J;
  for (int i = 0; i < n; ++i) {
    VectorXd e = VectorXd::Zero(n);
    auto at = [&](double t) {
      e[i] = t;
      VectorXd v = f(e);
      e[i] = 0.;
      return v;
    };
    VectorXd d = (8. * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12. * h);
    if (!J.size() && i == 0) J.resize(d.size(), n);
    J.col(i) = d;
  }
  if (n == 0) J.resize(f(VectorXd::Zero(0)).size(), 0);
  return J;
}
}  // namespace vf
#endif
