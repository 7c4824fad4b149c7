// Activations of the library with closed formulas of their own.
#ifndef VERIF_ACTIV_HPP_
#define VERIF_ACTIV_HPP_
#include "common/models.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"


namespace vf {
typedef crocoddyl::ActivationModelAbstractTpl<double> Act;
typedef crocoddyl::ActivationDataAbstractTpl<double> ActData;
typedef crocoddyl::ActivationBoundsTpl<double> Bounds;

enum ActKind { QUAD, WQUAD, FLATEXP, FLATLOG, S1, S2, BARRIER, WBARRIER, NORMB, NACTS };
static const char* act_names[] = {"quad", "weighted-quad", "flat-exp", "flat-log", "smooth-1norm",
                              "smooth-2norm", "quad-barrier", "weighted-barrier", "2norm-barrier"};

// Reference: parameters kept apart from the model.
struct ActRef {
  ActKind kind;
  int nr;
  double par = 1.;
  bool hess = false;
  VectorXd w, lb, ub;  // bounds as they should be after shrinking
  double value(const VectorXd& r) const {
    double s = 0.;
    switch (kind) {
      case QUAD: for (int i = 0; i < nr; ++i) s += r[i] * r[i]; return s / 2;
      case WQUAD: for (int i = 0; i < nr; ++i) s += w[i] * r[i] * r[i]; return s / 2;
      case FLATEXP: for (int i = 0; i < nr; ++i) s += r[i] * r[i]; return 1 - std::exp(-s / par);
      case FLATLOG: for (int i = 0; i < nr; ++i) s += r[i] * r[i]; return std::log(1 + s / par);
      case S1: for (int i = 0; i < nr; ++i) s += std::sqrt(r[i] * r[i] + par); return s;
      case S2: for (int i = 0; i < nr; ++i) s += r[i] * r[i]; return std::sqrt(s + par);
      case BARRIER:
      case WBARRIER:
        for (int i = 0; i < nr; ++i) {
          double v = r[i] < lb[i] ? r[i] - lb[i] : r[i] > ub[i] ? r[i] - ub[i] : 0.;
          if (kind == WBARRIER) v *= w[i];
          s += v * v;
        }
        return s / 2;
      default: {
        for (int i = 0; i < nr; ++i) s += r[i] * r[i];
        double d = std::sqrt(s);
        return d < par ? (d - par) * (d - par) / 2 : 0.;
      }
    }
  }
  double grad(const VectorXd& r, int i) const {
    double s = r.squaredNorm();
    switch (kind) {
      case QUAD: return r[i];
      case WQUAD: return w[i] * r[i];
      case FLATEXP: return 2 * r[i] / par * std::exp(-s / par);
      case FLATLOG: return 2 * r[i] / (par + s);
      case S1: return r[i] / std::sqrt(r[i] * r[i] + par);
      case S2: return r[i] / std::sqrt(s + par);
      case BARRIER:
      case WBARRIER: {
        double v = r[i] < lb[i] ? r[i] - lb[i] : r[i] > ub[i] ? r[i] - ub[i] : 0.;
        return kind == WBARRIER ? w[i] * w[i] * v : v;
      }
      default: {
        double d = std::sqrt(s);
        return d < par ? (d - par) * r[i] / d : 0.;
      }
    }
  }
  double curv(const VectorXd& r, int i) const {
    double s = r.squaredNorm(), ri = r[i];
    switch (kind) {
      case QUAD: return 1;
      case WQUAD: return w[i];
      case FLATEXP: return std::exp(-s / par) * (2 / par - 4 * ri * ri / (par * par));
      case FLATLOG: return 2 / (par + s) - 4 * ri * ri / ((par + s) * (par + s));
      case S1: return par / std::pow(ri * ri + par, 1.5);
      case S2: return (s + par - ri * ri) / std::pow(s + par, 1.5);
      case BARRIER:
      case WBARRIER: {
        bool out = ri < lb[i] || ri > ub[i];
        return !out ? 0. : kind == WBARRIER ? w[i] * w[i] : 1.;
      }
      default: {
        double d = std::sqrt(s);
        if (!(d < par)) return 0.;
        if (!hess) return ri * ri / s;
        return ri * ri / s + (d - par) * (1 / d - ri * ri / (d * d * d));
      }
    }
  }
};

inline void gen_bounds(Src& s, int n, VectorXd& lb, VectorXd& ub, double& beta) {
  lb.resize(n);
  ub.resize(n);
  for (int i = 0; i < n; ++i) {
    double c = s.real(2.), w = s.uni(0., 2.);
    lb[i] = c - w;
    ub[i] = c + w;
    int k = s.integer(0, 9);
    if (k == 7) lb[i] = -INF;
    if (k == 8) ub[i] = INF;
    if (k == 9) ub[i] = lb[i];
  }
  int b = s.integer(0, 4);
  beta = b == 0 ? 1. : b == 1 ? 0. : s.uni(0., 1.);
}
// What constructing bounds must give.
inline void shrunk(const VectorXd& lb, const VectorXd& ub, double beta, VectorXd& l, VectorXd& u) {
  l = lb;
  u = ub;
  for (int i = 0; i < lb.size(); ++i)
    if (std::isfinite(lb[i]) && std::isfinite(ub[i])) {
      double m = (lb[i] + ub[i]) / 2, d = (ub[i] - lb[i]) / 2;
      l[i] = m - beta * d;
      u[i] = m + beta * d;
    }
}

inline std::shared_ptr<Act> build_act(Src& s, ActRef& ref) {
  using namespace crocoddyl;
  int n = ref.nr;
  switch (ref.kind) {
    case QUAD: return std::make_shared<ActivationModelQuadTpl<double>>(n);
    case WQUAD: ref.w = s.vec(n, 4.); return std::make_shared<ActivationModelWeightedQuadTpl<double>>(ref.w);
    case FLATEXP: ref.par = s.logu(0.05, 20.); return std::make_shared<ActivationModelQuadFlatExpTpl<double>>(n, ref.par);
    case FLATLOG: ref.par = s.logu(0.05, 20.); return std::make_shared<ActivationModelQuadFlatLogTpl<double>>(n, ref.par);
    case S1: ref.par = s.logu(0.01, 10.); return std::make_shared<ActivationModelSmooth1NormTpl<double>>(n, ref.par);
    case S2: ref.par = s.logu(0.01, 10.); return std::make_shared<ActivationModelSmooth2NormTpl<double>>(n, ref.par);
    case BARRIER:
    case WBARRIER: {
      VectorXd lb, ub;
      double beta;
      gen_bounds(s, n, lb, ub, beta);
      shrunk(lb, ub, beta, ref.lb, ref.ub);
      Bounds b(lb, ub, beta);
      if (ref.kind == BARRIER) return std::make_shared<ActivationModelQuadraticBarrierTpl<double>>(b);
      ref.w = s.vec(n, 4.);
      return std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<double>>(b, ref.w);
    }
    default:
      ref.par = s.logu(0.05, 6.);
      ref.hess = s.flip();
      return std::make_shared<ActivationModel2NormBarrierTpl<double>>(n, ref.par, ref.hess);
  }
}
// A new value, or one close to the old one: also small changes count.
inline VectorXd renew(Src& s, const VectorXd& old, const std::function<VectorXd()>& fresh) {
  if (old.size() == 0 || !s.chance(1, 4)) return fresh();
  VectorXd v = old;
  int i = s.integer(0, v.size() - 1);
  v[i] = v[i] * (1. + s.logu(1e-9, 1e-2)) + (v[i] == 0.) * 1e-6;
  return v;
}
inline double renew(Src& s, double old, double fresh) { return s.chance(1, 4) ? old * (1. + s.logu(1e-9, 1e-2)) : fresh; }
// Changes a parameter through a setter; returns false if the kind has none.
inline bool mutate_act(Src& s, ActRef& ref, Act& m) {
  using namespace crocoddyl;
  switch (ref.kind) {
    case WQUAD: {
      auto& a = dynamic_cast<ActivationModelWeightedQuadTpl<double>&>(m);
      ref.w = renew(s, ref.w, [&] { return s.vec(ref.nr, 4.); });
      a.set_weights(ref.w);
      nearm("weights-getter", a.get_weights(), ref.w, 0);
      require(throws([&] { a.set_weights(VectorXd::Ones(ref.nr + 1)); }), "weights-size");
      return true;
    }
    case FLATEXP: {
      auto& a = dynamic_cast<ActivationModelQuadFlatExpTpl<double>&>(m);
      a.set_alpha(ref.par = renew(s, ref.par, s.logu(0.05, 20.)));
      near("alpha-getter", a.get_alpha(), ref.par, 0);
      return true;
    }
    case FLATLOG: {
      auto& a = dynamic_cast<ActivationModelQuadFlatLogTpl<double>&>(m);
      a.set_alpha(ref.par = renew(s, ref.par, s.logu(0.05, 20.)));
      near("alpha-getter", a.get_alpha(), ref.par, 0);
      return true;
    }
    case NORMB: {
      auto& a = dynamic_cast<ActivationModel2NormBarrierTpl<double>&>(m);
      a.set_alpha(ref.par = renew(s, ref.par, s.logu(0.05, 6.)));
      near("alpha-getter", a.get_alpha(), ref.par, 0);
      return true;
    }
    case BARRIER:
    case WBARRIER: {
      VectorXd lb, ub;
      double beta;
      if (ref.kind == WBARRIER && s.flip()) {
        auto& a = dynamic_cast<ActivationModelWeightedQuadraticBarrierTpl<double>&>(m);
        ref.w = renew(s, ref.w, [&] { return s.vec(ref.nr, 4.); });
        a.set_weights(ref.w);
        nearm("weights-getter", a.get_weights(), ref.w, 0);
        require(throws([&] { a.set_weights(VectorXd::Ones(ref.nr + 1)); }), "weights-size");
        return true;
      }
      if (ref.nr && s.chance(1, 5)) {  // one bound moves a little
        lb = ref.lb, ub = ref.ub, beta = 1.;
        int i = s.integer(0, ref.nr - 1);
        ub[i] += s.logu(1e-9, 1e-2);
      } else {
        gen_bounds(s, ref.nr, lb, ub, beta);
      }
      shrunk(lb, ub, beta, ref.lb, ref.ub);
      Bounds b(lb, ub, beta);
      if (ref.kind == BARRIER)
        dynamic_cast<ActivationModelQuadraticBarrierTpl<double>&>(m).set_bounds(b);
      else
        dynamic_cast<ActivationModelWeightedQuadraticBarrierTpl<double>&>(m).set_bounds(b);
      return true;
    }
    default: return false;
  }
}
}  // namespace vf
#endif
