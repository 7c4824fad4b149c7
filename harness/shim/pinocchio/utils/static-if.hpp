// Stand-in for the one pinocchio header that pinocchio-free crocoddyl headers
// include: comparison + select on plain scalars.
#ifndef VERIF_SHIM_STATIC_IF_HPP_
#define VERIF_SHIM_STATIC_IF_HPP_
namespace pinocchio {
namespace internal {
enum ComparisonOperators { LT = 0, LE = 1, EQ = 2, GE = 3, GT = 4 };
template <typename L, typename R, typename T, typename E>
auto if_then_else(const ComparisonOperators op, const L& l, const R& r,
                  const T& t, const E& e) -> T {
  switch (op) {
    case LT: return l < r ? t : T(e);
    case LE: return l <= r ? t : T(e);
    case EQ: return l == r ? t : T(e);
    case GE: return l >= r ? t : T(e);
    default: return l > r ? t : T(e);
  }
}
}  // namespace internal
}  // namespace pinocchio
#endif
