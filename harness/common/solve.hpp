// Solvers by name, run histories, and the references they are judged by.
#ifndef VERIF_SOLVE_HPP_
#define VERIF_SOLVE_HPP_
#include "common/nodes.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"

namespace vf {
typedef crocoddyl::SolverAbstract Solver;
typedef crocoddyl::SolverDDP DDP;
enum { kDDP, kFDDP, kBoxDDP, kBoxFDDP, kIntro, kKKT, kIpopt, kSolvers };
extern const char* const solver_name[kSolvers];
std::shared_ptr<Solver> make_solver(int kind, std::shared_ptr<Problem> p);

// Feasibility of a trajectory, by the definition; nodes are evaluated alone.
struct Feas {
  std::vector<VectorXd> fs;
  double f1 = 0, finf = 0, g1 = 0, ginf = 0, h1 = 0, hinf = 0, cost = 0, cabs = 0;
};
Feas feasibility(const Problem& p, const Traj& xs, const Traj& us);

// What a solver exposed after each iteration.
struct Step {
  Traj xs, us;
  double cost, stop, alpha, preg, dreg, ffeas, gfeas, hfeas, merit, dV, dVexp, d0, d1;
  bool feasible;
  size_t iter;
};
struct Recorder : crocoddyl::CallbackAbstract {
  std::vector<Step> log;
  std::function<void(Solver&)> more;
  void operator()(Solver& s) override;
};

// Dense form of an LQ problem: minimise over z = (dx_0.., du_0..) is replaced by
// the controls alone, states being eliminated.
struct LQProblem {
  int nx, T;
  VectorXd x0;
  std::vector<LQ> nodes;  // T running
  LQ terminal;            // Q, q used
  std::vector<int> nu;
  std::shared_ptr<Problem> p;
  std::vector<std::shared_ptr<Action>> models;
  // cost(U) = 0.5 U'H U + g'U + c with U the stacked controls, from x0
  MatrixXd H;
  VectorXd g;
  double c;
  MatrixXd Xu;   // stacked x_0..x_T = Xu U + Xc
  VectorXd Xc;
  void condense();
  VectorXd minimiser() const;
  Traj us(const VectorXd& U) const;
  Traj xs(const VectorXd& U) const;
  double cost(const VectorXd& U) const;
  VectorXd stack(const Traj& us) const;
  int n() const { return H.rows(); }
};
struct LQSpec {
  int maxT = 6, maxnx = 4, maxnu = 3, nh = 0;
  double convex = 0.1, dyn = 0.9;
  bool zero_nu = false;
  bool empty = false;  // no running nodes, now and then
};
LQProblem gen_lq(Src& s, Case& c, const LQSpec& sp);

// cost and gradient of the total cost as a function of the controls, by rollout
// and the adjoint, every node evaluated alone
double rollout_cost(const Problem& p, const Traj& us, Traj* xs = nullptr);
Traj control_gradient(const Problem& p, const Traj& us);
}  // namespace vf
#endif
