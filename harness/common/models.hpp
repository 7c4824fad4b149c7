// Generated states, models and problems shared by the checks, each with an
// evaluation of its own that does not go through the library.
#ifndef VERIF_MODELS_HPP_
#define VERIF_MODELS_HPP_
#include "common/harness.hpp"
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/state-base.hpp"
#include "crocoddyl/core/states/euclidean.hpp"

namespace vf {
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef crocoddyl::StateAbstractTpl<double> State;
typedef crocoddyl::ActionModelAbstractTpl<double> Action;
typedef crocoddyl::ActionDataAbstractTpl<double> ActionData;
typedef crocoddyl::DifferentialActionModelAbstractTpl<double> Diff;
typedef crocoddyl::DifferentialActionDataAbstractTpl<double> DiffData;
typedef crocoddyl::ShootingProblemTpl<double> Problem;
typedef std::vector<VectorXd> Traj;
static const double INF = std::numeric_limits<double>::infinity();

// SO(3) helpers (right Jacobians, quaternions stored x,y,z,w).
Eigen::Matrix3d skew(const Eigen::Vector3d& w);
Eigen::Matrix3d so3_exp(const Eigen::Vector3d& w);
Eigen::Matrix3d so3_Jr(const Eigen::Vector3d& w);
Eigen::Matrix3d so3_Jrinv(const Eigen::Vector3d& w);

// R^a x SO(3)^b configurations with velocities: nq = a+4b, nv = a+3b.
// With this set, what the models and states below do ends with a short pause, which
// leaves threads that share their results the time to mix them up.
extern bool g_pause;
void pause();

class LieState : public State {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::StateBase, LieState)
  LieState(int a, int b);
  VectorXd zero() const override;
  VectorXd rand() const override;
  void diff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
            Eigen::Ref<VectorXd> dx) const override;
  void integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                 Eigen::Ref<VectorXd> xo) const override;
  void Jdiff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
             Eigen::Ref<MatrixXd> J0, Eigen::Ref<MatrixXd> J1,
             const crocoddyl::Jcomponent c = crocoddyl::both) const override;
  void Jintegrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                  Eigen::Ref<MatrixXd> J0, Eigen::Ref<MatrixXd> J1,
                  const crocoddyl::Jcomponent c = crocoddyl::both,
                  const crocoddyl::AssignmentOp op = crocoddyl::setto) const override;
  void JintegrateTransport(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                           Eigen::Ref<MatrixXd> J, const crocoddyl::Jcomponent c) const override;
  int a, b;
  // Write only the entries that can differ from zero, as StateMultibody does;
  // whoever calls for Jacobians provides zeros elsewhere.
  bool blocks = true;
};

// Independent manifold operations (used by references): plain functions of the
// kind of state, not of the library's virtual operations.
VectorXd ref_integrate(const State& s, const VectorXd& x, const VectorXd& dx);
VectorXd ref_diff(const State& s, const VectorXd& x0, const VectorXd& x1);
VectorXd gen_x(Src& s, const State& st, double scale);

// value = M z + m + eps * sin(W z + w), z in R^n
struct SmoothMap {
  MatrixXd M, W;
  VectorXd m, w;
  double eps = 0.;
  static SmoothMap gen(Src& s, int rows, int cols, double scale, double eps);
  VectorXd operator()(const VectorXd& z) const;
  MatrixXd jac(const VectorXd& z) const;
};

// How smooth generated models are.
struct ModelSpec {
  double eps = 0.3;     // size of the nonlinear part
  int ng = 0, nh = 0, ng_T = 0, nh_T = 0;
  int nr = 3;
  bool cross = true;    // residual mixes state and control
  double dyn = 1.;      // scale of the dynamics matrix
  double reg = 0.1;     // weight of a plain |y|^2, |u|^2 added to the cost
};

// Values and derivatives every generated model can give by itself.
struct Eval {
  double cost;
  VectorXd r, f, g, h;   // f: tangent step (action) or acceleration (diff)
  VectorXd Lx, Lu;
  MatrixXd Fx, Fu, Lxx, Lxu, Luu, Gx, Gu, Hx, Hu;  // F*: of f (not of xnext)
};
struct Funcs {
  SmoothMap f, res, g, h;
  VectorXd xref;
  double reg;
  int nu, nr, ng, nh, ng_T, nh_T;
  static Funcs gen(Src& s, const State& st, int nu, int nf, const ModelSpec& sp);
  Eval eval(const State& st, const VectorXd& x, const VectorXd& u, bool terminal) const;
};

// xnext = x (+) f(x,u); smooth nonlinear with Gauss-Newton cost Hessian.
class NlAction : public Action {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ActionModelBase, NlAction)
  NlAction(std::shared_ptr<State> st, int nu, const Funcs& f);
  void calc(const std::shared_ptr<ActionData>&, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override;
  void calc(const std::shared_ptr<ActionData>&, const Eigen::Ref<const VectorXd>& x) override;
  void calcDiff(const std::shared_ptr<ActionData>&, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<ActionData>&, const Eigen::Ref<const VectorXd>& x) override;
  std::shared_ptr<ActionData> createData() override;
  bool checkData(const std::shared_ptr<ActionData>& d) override;
  Funcs F;
  // Fault injection: evaluations with |y| beyond `limit` throw (1), give a NaN
  // cost (2), NaN dynamics (3), an infinite cost (4) or NaN in the first (5) or
  // last (6) component of the dynamics.
  int fault = 0;
  double limit = 0.;

 private:
  void values(const std::shared_ptr<ActionData>&, const VectorXd& x, const VectorXd& u, bool T);
  void diffs(const std::shared_ptr<ActionData>&, const VectorXd& x, const VectorXd& u, bool T);
};
struct NlActionData : ActionData {
  template <template <typename Scalar> class Model>
  explicit NlActionData(Model<double>* const m) : ActionData(m) {}
};

class NlDiff : public Diff {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::DifferentialActionModelBase, NlDiff)
  NlDiff(std::shared_ptr<State> st, int nu, const Funcs& f);
  void calc(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override;
  void calc(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x) override;
  void calcDiff(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x) override;
  std::shared_ptr<DiffData> createData() override;
  bool checkData(const std::shared_ptr<DiffData>& d) override;
  Funcs F;

 private:
  void values(const std::shared_ptr<DiffData>&, const VectorXd& x, const VectorXd& u, bool T);
  void diffs(const std::shared_ptr<DiffData>&, const VectorXd& x, const VectorXd& u, bool T);
};

std::shared_ptr<State> gen_state(Src& s, int maxdim = 3, bool lie = true);
std::shared_ptr<NlAction> gen_nlaction(Src& s, std::shared_ptr<State> st, int nu, ModelSpec sp);
std::shared_ptr<NlDiff> gen_nldiff(Src& s, std::shared_ptr<State> st, int nu, ModelSpec sp);

// Matrices of one LQ node, and the library's model built from them.
struct LQ {
  MatrixXd A, B, Q, R, N, G, H;
  VectorXd f, q, r, g, h;
  static LQ gen(Src& s, int nx, int nu, int ng, int nh, double convex, double dyn = 1.);
  std::shared_ptr<crocoddyl::ActionModelLQRTpl<double>> model() const;
};

}  // namespace vf
#endif
