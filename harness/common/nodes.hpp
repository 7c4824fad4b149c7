// Generated shooting problems mixing kinds of nodes.
#ifndef VERIF_NODES_HPP_
#define VERIF_NODES_HPP_
#include "common/costs.hpp"

namespace vf {
struct NodeSpec {
  bool cons = true;      // constraints
  bool bounds = false;   // control limits
  bool lib = true;       // the library's own models too
  bool zero_nu = false;  // nodes without control
  bool share_terminal = true;  // one model at a running node and the terminal one
  bool empty = false;    // no running nodes, now and then
  int max_nu = 3;
  double eps = 0.3, dyn = 0.7, reg = 0.1;
};
std::shared_ptr<Action> gen_node(Src& s, std::shared_ptr<State> st, const NodeSpec& sp, int nu, std::string* desc);

struct ProblemCase {
  std::shared_ptr<State> st;
  VectorXd x0;
  std::vector<std::shared_ptr<Action>> running;
  std::shared_ptr<Action> terminal;
  std::shared_ptr<Problem> p;
  int T() const { return running.size(); }
  Traj xs(Src& s, double scale = 1.) const;
  Traj us(Src& s, double scale = 1.) const;
  bool mixed_nu() const;
};
// same_nu: every node has the same number of controls
ProblemCase gen_problem(Src& s, Case& c, const NodeSpec& sp, int maxT, bool lie = true, bool same_nu = false);

// Bitwise comparison (NaN equals NaN).
bool same(double a, double b);
template <class A, class B>
bool same(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int j = 0; j < a.cols(); ++j)
    for (int i = 0; i < a.rows(); ++i)
      if (!same(a(i, j), b(i, j))) return false;
  return true;
}
// Fails with `tag` unless both hold the same results. what: 1 values, 2 derivatives
// (terminal: only those without control)
void same_data(const std::string& tag, const ActionData& a, const ActionData& b, int what, bool terminal,
               const std::string& where = "");
}  // namespace vf
#endif
