// Generated residuals, costs, constraints and actuations, with references, and
// a differential model assembled from them.
#ifndef VERIF_COSTS_HPP_
#define VERIF_COSTS_HPP_
#include "common/activ.hpp"
#include "common/integ.hpp"
#include "common/models.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"

namespace vf {
typedef crocoddyl::ResidualModelAbstractTpl<double> Res;
typedef crocoddyl::ResidualDataAbstractTpl<double> ResData;
typedef crocoddyl::CostModelAbstractTpl<double> Cost;
typedef crocoddyl::CostDataAbstractTpl<double> CostData;
typedef crocoddyl::CostModelSumTpl<double> CostSum;
typedef crocoddyl::CostDataSumTpl<double> CostSumData;
typedef crocoddyl::ConstraintModelAbstractTpl<double> Con;
typedef crocoddyl::ConstraintDataAbstractTpl<double> ConData;
typedef crocoddyl::ConstraintModelManagerTpl<double> ConMan;
typedef crocoddyl::ConstraintDataManagerTpl<double> ConManData;
typedef crocoddyl::DataCollectorAbstractTpl<double> Collector;
typedef crocoddyl::ActuationModelAbstractTpl<double> Actuation;
typedef crocoddyl::ActuationDataAbstractTpl<double> ActuationData;

MatrixXd ref_Jdiff(const State& st, const VectorXd& x0, const VectorXd& x1);  // w.r.t. x1

// A residual with its reference.
struct ResRef {
  int nr = 0, nu = 0;
  bool q = true, v = true, u = true;
  bool control = false;  // the library's control residual: zero without control
  SmoothMap f;
  VectorXd xref, uref;
  std::shared_ptr<State> st;
  std::string name;
  VectorXd value(const VectorXd& x, const VectorXd& u, bool T) const;
  void jac(const VectorXd& x, const VectorXd& u, bool T, MatrixXd& Rx, MatrixXd& Ru) const;
  bool state_dependent() const { return q || v; }
};
class NlResidual : public Res {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ResidualModelBase, NlResidual)
  NlResidual(const ResRef& r) : Res(r.st, r.nr, r.nu, r.q, r.v, r.u), R(r) {}
  void calc(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<ResData>& d, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& u) override;
  using Res::calc;
  using Res::calcDiff;
  ResRef R;
};
struct ResCase {
  std::shared_ptr<Res> m;
  ResRef ref;
};
// eps: size of the nonlinear part; kinds: control residuals allowed
ResCase gen_residual(Src& s, std::shared_ptr<State> st, int nu, double eps = 0.3, bool control = true);

struct CostCase {
  std::string name;
  std::shared_ptr<Cost> m;
  ResRef r;
  ActRef a;
  std::shared_ptr<Act> act;
  double weight = 1.;
  bool active = true;
};
struct CostVal {
  double cost = 0.;
  VectorXd Lx, Lu;
  MatrixXd Lxx, Lxu, Luu;
};
// smooth: only activations that are differentiable twice
CostCase gen_cost(Src& s, std::shared_ptr<State> st, int nu, bool smooth = false, double eps = 0.3);
CostVal cost_ref(const CostCase& c, const VectorXd& x, const VectorXd& u, bool T);
CostVal cost_zero(const State& st, int nu);
void cost_add(CostVal& a, const CostVal& b, double w);

struct ConCase {
  std::string name;
  std::shared_ptr<Con> m;
  ResRef r;
  bool ineq = false, bounded = false, T = true, active = true;
  VectorXd lb, ub;
  int ng() const { return ineq ? r.nr : 0; }
  int nh() const { return ineq ? 0 : r.nr; }
};
ConCase gen_con(Src& s, std::shared_ptr<State> st, int nu, double eps = 0.3);

// a = f([y; u]) with the cost sum and the constraint manager of the library,
// evaluated the way the library's own dynamics models do.
class DiffCosts : public Diff {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::DifferentialActionModelBase, DiffCosts)
  DiffCosts(std::shared_ptr<State> st, int nu, const SmoothMap& f, const VectorXd& xref,
            std::shared_ptr<CostSum> costs, std::shared_ptr<ConMan> cons);
  void calc(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override;
  void calc(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x) override;
  void calcDiff(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<DiffData>&, const Eigen::Ref<const VectorXd>& x) override;
  std::shared_ptr<DiffData> createData() override;
  bool checkData(const std::shared_ptr<DiffData>& d) override;
  std::size_t get_ng() const override { return cons->get_ng(); }
  std::size_t get_nh() const override { return cons->get_nh(); }
  std::size_t get_ng_T() const override { return cons->get_ng_T(); }
  std::size_t get_nh_T() const override { return cons->get_nh_T(); }
  const VectorXd& get_g_lb() const override { return cons->get_lb(); }
  const VectorXd& get_g_ub() const override { return cons->get_ub(); }
  SmoothMap f;
  VectorXd xref;
  std::shared_ptr<CostSum> costs;
  std::shared_ptr<ConMan> cons;
};
struct DiffCostsData : DiffData {
  template <template <typename Scalar> class Model>
  explicit DiffCostsData(Model<double>* const m) : DiffData(m) {}
  Collector shared;
  std::shared_ptr<CostSumData> costs;
  std::shared_ptr<ConManData> cons;
};
struct DiffCostsCase {
  std::shared_ptr<DiffCosts> m;
  std::vector<CostCase> costs;  // in name order, active and inactive
  std::vector<ConCase> cons;
  Eval ref(const VectorXd& x, const VectorXd& u, bool T) const;
};
DiffCostsCase gen_diffcosts(Src& s, std::shared_ptr<State> st, int nu, bool smooth, double eps = 0.3);
DiffCase as_diff(const DiffCostsCase& d);

// Actuations: tau = B u (linear) or tau = f([y; u]).
class NlActuation : public Actuation {
 public:
  CROCODDYL_BASE_DERIVED_CAST(crocoddyl::ActuationModelBase, NlActuation)
  NlActuation(std::shared_ptr<State> st, int nu, const SmoothMap& f_, const VectorXd& xref_)
      : Actuation(st, nu), f(f_), xref(xref_) {}
  VectorXd value(const VectorXd& x, const VectorXd& u) const;
  void jac(const VectorXd& x, const VectorXd& u, MatrixXd& Jx, MatrixXd& Ju) const;
  void calc(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& u) override;
  void commands(const std::shared_ptr<ActuationData>& d, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& tau) override;
  using Actuation::calc;
  using Actuation::calcDiff;
  SmoothMap f;
  VectorXd xref;
};
std::shared_ptr<NlActuation> gen_actuation(Src& s, std::shared_ptr<State> st, int nu, bool linear);
}  // namespace vf
#endif
