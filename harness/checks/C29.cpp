// C29: cones and supports describe the geometric sets they stand for.
#include <cmath>

#include "../common/harness.hpp"
#include "../common/nodes.hpp"
#include "crocoddyl/multibody/cop-support.hpp"
#include "crocoddyl/multibody/friction-cone.hpp"
#include "crocoddyl/multibody/wrench-cone.hpp"
using namespace vf;
using namespace crocoddyl;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix<double, 6, 1> V6;

// What the user asked for; `eff` is what the documentation says the object uses.
struct Par {
  M3 R = M3::Identity();
  double mu = 0.7;
  std::size_t nf = 4;
  bool inner = true;
  double mn = 0., mx = INF;
  V2 box = V2(INF, INF);
  Par eff() const {
    Par p = *this;
    if (p.nf % 2) p.nf = 4;
    if (p.mu < 0) p.mu = 1.;
    if (p.mn < 0) p.mn = 0.;
    if (p.mx < 0) p.mx = INF;
    for (int i = 0; i < 2; ++i)
      if (p.box(i) < 0) p.box(i) = INF;
    return p;
  }
  bool invalid() const {
    return nf % 2 || mu < 0 || mn < 0 || mx < 0 || box(0) < 0 || box(1) < 0;
  }
};
static std::ostream& operator<<(std::ostream& o, const Par& p) {
  return o << "mu=" << p.mu << " nf=" << p.nf << " inner=" << p.inner << " n=[" << p.mn << "," << p.mx << "] box=" << p.box.transpose();
}
static M3 gen_R(Src& s) {
  switch (s.integer(0, 4)) {
    case 0: return M3::Identity();
    case 1: {  // quarter turns
      static const V3 ax[3] = {V3::UnitX(), V3::UnitY(), V3::UnitZ()};
      return Eigen::AngleAxisd(M_PI / 2 * s.integer(1, 3), ax[s.integer(0, 2)]).toRotationMatrix();
    }
    default: return so3_exp(s.vec(3, 3.));
  }
}
static double gen_mu(Src& s, bool bad) {
  if (bad && s.chance(1, 4)) return -s.logu(1e-3, 10.);
  if (s.chance(1, 12)) return 0.;
  return s.logu(0.05, 3.);
}
static double gen_mn(Src& s, bool bad) {
  if (bad && s.chance(1, 4)) return -s.logu(1e-3, 10.);
  return s.flip() ? 0. : s.uni(0., 20.);
}
static double gen_mx(Src& s, double mn, bool bad) {
  if (bad && s.chance(1, 4)) return -s.logu(1e-3, 10.);
  return s.chance(1, 3) ? INF : std::max(mn, 0.) + s.uni(0., 100.);
}
static double gen_side(Src& s, bool bad) {
  if (bad && s.chance(1, 4)) return -s.logu(1e-3, 1.);
  if (s.chance(1, 10)) return INF;
  if (s.chance(1, 12)) return 0.;
  return s.logu(0.01, 1.);
}
static Par gen_par(Src& s, bool bad) {
  Par p;
  p.R = gen_R(s);
  p.mu = gen_mu(s, bad);
  p.nf = 2 * s.integer(2, 8);
  if (bad && s.chance(1, 5)) p.nf += 1;
  p.inner = s.flip();
  p.mn = gen_mn(s, bad);
  p.mx = gen_mx(s, p.mn, bad);
  p.box = V2(gen_side(s, bad), gen_side(s, bad));
  return p;
}

// Geometric definitions: the smallest slack of any condition, in newtons or
// newton metres (negative: outside), computed from angles and lever arms.
static double mu_lin(const Par& p) {
  return p.inner ? p.mu * std::cos(M_PI / (double)p.nf) : p.mu;
}
static double cone_slack(const Par& p, const V3& f) {
  double fz = p.R.col(2).dot(f), fx = p.R.col(0).dot(f), fy = p.R.col(1).dot(f);
  // Largest tangential component along the outward normals of a regular polygon
  // whose first side faces the x axis.
  double t = std::hypot(fx, fy), side = 2 * M_PI / (double)p.nf, a = std::atan2(fy, fx);
  double d = a - side * std::round(a / side);
  double sl = mu_lin(p) * fz - t * std::cos(d);
  sl = std::min(sl, fz - p.mn);
  if (p.mx < INF) sl = std::min(sl, p.mx - fz);
  return sl;
}
static double cop_slack(const Par& p, const V6& w) {
  V3 f = p.R.transpose() * w.head<3>(), m = p.R.transpose() * w.tail<3>();
  double sl = INF;
  // CoP = (-my / fz, mx / fz), inside the rectangle for a pushing contact.
  if (p.box(0) < INF) sl = std::min(sl, p.box(0) / 2 * f(2) - std::abs(m(1)));
  if (p.box(1) < INF) sl = std::min(sl, p.box(1) / 2 * f(2) - std::abs(m(0)));
  return sl;
}
static double yaw_slack(const Par& p, const V6& w) {
  if (!(p.box(0) < INF) || !(p.box(1) < INF)) return INF;
  V3 f = p.R.transpose() * w.head<3>(), m = p.R.transpose() * w.tail<3>();
  double X = p.box(0) / 2, Y = p.box(1) / 2, mu = mu_lin(p);
  // Caron et al., closed form for rectangular supports.
  double lo = -mu * (X + Y) * f(2) + std::abs(Y * f(0) - mu * m(0)) + std::abs(X * f(1) - mu * m(1));
  double hi = mu * (X + Y) * f(2) - std::abs(Y * f(0) + mu * m(0)) - std::abs(X * f(1) + mu * m(1));
  return std::min(hi - m(2), m(2) - lo);
}

template <class A, class B, class W>
static double lin_slack(const A& a, const B& lb, const B& ub, const W& w) {
  double sl = INF;
  Eigen::VectorXd y = a * w;
  for (Eigen::Index i = 0; i < y.size(); ++i) {
    require(!std::isnan(y(i)), "description-not-finite", "row " + num((double)i));
    if (ub(i) < INF) sl = std::min(sl, ub(i) - y(i));
    if (lb(i) > -INF) sl = std::min(sl, y(i) - lb(i));
  }
  return sl;
}
static void judge(const char* tag, double got, double want, double scale, Case& c, int& in, int& out) {
  if (std::abs(want) < 1e-9 * (1 + scale)) return;
  (void)c;
  (want > 0 ? in : out)++;
  require((got >= 0) == (want > 0), tag, std::string(want > 0 ? "member is excluded" : "non-member is accepted") + ": slack of the geometric definition " + num(want) + ", of the inequalities " + num(got));
}

// Forces: from deep inside to far outside, most of them close to a boundary.
static V3 gen_force(Src& s, const Par& p) {
  double fz;
  switch (s.integer(0, 4)) {
    case 0: fz = p.mn + s.real(1.) * s.logu(1e-6, 1.); break;
    case 1: fz = (p.mx < INF ? p.mx : 50.) + s.real(1.) * s.logu(1e-6, 1.); break;
    case 2: fz = s.uni(-50., 150.); break;
    default: fz = p.mn + s.uni(0., 1.) * ((p.mx < INF ? p.mx : p.mn + 80.) - p.mn);
  }
  double a = s.chance(1, 3) ? M_PI / (double)p.nf * s.integer(0, 2 * (int)p.nf) : s.uni(0., 2 * M_PI);
  double side = 2 * M_PI / (double)p.nf, d = a - side * std::round(a / side);
  double edge = mu_lin(p) * std::abs(fz) / std::cos(d);
  double t = s.chance(1, 3) ? s.uni(0., 2.) * edge : edge * (1 + s.real(1.) * s.logu(1e-7, 0.3));
  return p.R * V3(t * std::cos(a), t * std::sin(a), fz);
}
static V6 gen_wrench(Src& s, const Par& p) {
  V6 w;
  V3 fl = p.R.transpose() * gen_force(s, p);
  if (s.flip()) fl.head<2>() *= s.uni(0., 0.9);
  double X = p.box(0) < INF ? p.box(0) / 2 : 3., Y = p.box(1) < INF ? p.box(1) / 2 : 3., mu = mu_lin(p), n = std::abs(fl(2));
  auto lim = [&](double e) { return s.flip() ? e * (s.flip() ? 1 : -1) * (1 + s.real(1.) * s.logu(1e-7, 0.3)) : e * s.uni(-1.2, 1.2); };
  V3 m;
  m(0) = lim(Y * n);
  m(1) = lim(X * n);
  if (s.flip()) m.head<2>() *= s.uni(0., 0.9);
  double lo = -mu * (X + Y) * n + std::abs(Y * fl(0) - mu * m(0)) + std::abs(X * fl(1) - mu * m(1));
  double hi = mu * (X + Y) * n - std::abs(Y * fl(0) + mu * m(0)) - std::abs(X * fl(1) + mu * m(1));
  double span = std::abs(hi - lo) + 1e-3;
  switch (s.integer(0, 2)) {
    case 0: m(2) = lo + s.real(1.) * span * s.logu(1e-6, 0.3); break;
    case 1: m(2) = hi + s.real(1.) * span * s.logu(1e-6, 0.3); break;
    default: m(2) = lo + s.uni(-0.3, 1.3) * (hi - lo);
  }
  w << p.R * fl, p.R * m;
  return w;
}

template <class T>
struct Kind;
template <>
struct Kind<FrictionCone> {
  static const char* name() { return "friction"; }
  static FrictionCone make(const Par& p) { return FrictionCone(p.R, p.mu, p.nf, p.inner, p.mn, p.mx); }
  static void params(const FrictionCone& m, const Par& p) {
    nearm("R", m.get_R(), p.R, 1e-12, "R");
    require(m.get_mu() == p.mu, "mu", num(m.get_mu()) + " for " + num(p.mu));
    require(m.get_nf() == p.nf, "nf", num((double)m.get_nf()) + " for " + num((double)p.nf));
    require(m.get_inner_appr() == p.inner, "inner", "approximation label");
    require(m.get_min_nforce() == p.mn, "min-force", num(m.get_min_nforce()) + " for " + num(p.mn));
    require(m.get_max_nforce() == p.mx, "max-force", num(m.get_max_nforce()) + " for " + num(p.mx));
  }
  static std::size_t rows(const Par& p) { return p.nf + 1; }
  static void point(const FrictionCone& m, const Par& p, Src& s, Case& c, int& in, int& out) {
    V3 f = gen_force(s, p);
    judge("membership", lin_slack(m.get_A(), m.get_lb(), m.get_ub(), f), cone_slack(p, f), f.norm() * (1 + p.mu), c, in, out);
  }
  static void set(FrictionCone& m, Par& p, Src& s) {
    switch (s.integer(0, 4)) {
      case 0: m.set_R(p.R = gen_R(s)); break;
      case 1: m.set_mu(p.mu = gen_mu(s, true)); break;
      case 2: m.set_inner_appr(p.inner = s.flip()); break;
      case 3: m.set_min_nforce(p.mn = gen_mn(s, true)); break;
      case 4: m.set_max_nforce(p.mx = gen_mx(s, p.mn, true)); break;
    }
    p = p.eff();
  }
  static void bulk(FrictionCone& m, Par& p, Src& s) {
    // Deprecated update from the surface normal: any rotation with this normal.
    V3 n = s.vec(3, 2.);
    if (n.norm() < 1e-3) n = V3::UnitX();
    if (s.flip()) n.normalize();
    Par q = gen_par(s, true);
    q.nf = p.nf;
    q.box = p.box;
    if (s.flip()) {
      m.update(n, q.mu, q.inner, q.mn, q.mx);
      p = q;
    } else {
      m.set_nsurf(n);
      m.update();
    }
    nearm("normal", m.get_R().col(2), n.normalized(), 1e-9, "surface normal of the cone");
    nearm("normal", m.get_nsurf(), n.normalized(), 1e-9, "get_nsurf");
    M3 R = m.get_R();
    nearm("normal", R.transpose() * R, M3::Identity(), 1e-9, "rotation of the cone");
    p.R = R;
    p = p.eff();
  }
};
template <>
struct Kind<WrenchCone> {
  static const char* name() { return "wrench"; }
  static WrenchCone make(const Par& p) { return WrenchCone(p.R, p.mu, p.box, p.nf, p.inner, p.mn, p.mx); }
  static void params(const WrenchCone& m, const Par& p) {
    nearm("R", m.get_R(), p.R, 1e-12, "R");
    require(m.get_mu() == p.mu, "mu", num(m.get_mu()) + " for " + num(p.mu));
    require(m.get_nf() == p.nf, "nf", num((double)m.get_nf()) + " for " + num((double)p.nf));
    require(m.get_inner_appr() == p.inner, "inner", "approximation label");
    require(m.get_min_nforce() == p.mn, "min-force", num(m.get_min_nforce()) + " for " + num(p.mn));
    require(m.get_max_nforce() == p.mx, "max-force", num(m.get_max_nforce()) + " for " + num(p.mx));
    require(m.get_box() == p.box, "box", str(m.get_box()) + " for " + str(p.box));
  }
  static std::size_t rows(const Par& p) { return p.nf + 13; }
  static void point(const WrenchCone& m, const Par& p, Src& s, Case& c, int& in, int& out) {
    V6 w = gen_wrench(s, p);
    double want = std::min(std::min(cone_slack(p, w.head<3>()), cop_slack(p, w)), yaw_slack(p, w));
    judge("membership", lin_slack(m.get_A(), m.get_lb(), m.get_ub(), w), want, w.norm() * (1 + p.mu), c, in, out);
  }
  static void set(WrenchCone& m, Par& p, Src& s) {
    switch (s.integer(0, 5)) {
      case 0: m.set_R(p.R = gen_R(s)); break;
      case 1: m.set_mu(p.mu = gen_mu(s, true)); break;
      case 2: m.set_inner_appr(p.inner = s.flip()); break;
      case 3: m.set_min_nforce(p.mn = gen_mn(s, true)); break;
      case 4: m.set_max_nforce(p.mx = gen_mx(s, p.mn, true)); break;
      case 5: m.set_box(p.box = V2(gen_side(s, true), gen_side(s, true))); break;
    }
    p = p.eff();
  }
  static void bulk(WrenchCone& m, Par& p, Src& s) {
    Par q = gen_par(s, true);
    q.nf = p.nf;
    if (s.flip()) {
      q.inner = p.inner;
      m.update(q.R, q.mu, q.box, q.mn, q.mx);
    } else {  // the older constructor always takes the inner approximation
      q.inner = true;
      if (s.flip()) q.nf = 2 * s.integer(2, 8) + s.integer(0, 1);
      WrenchCone n(q.R, q.mu, q.box, q.nf, q.mn, q.mx);
      m = n;
    }
    p = q.eff();
  }
};
template <>
struct Kind<CoPSupport> {
  static const char* name() { return "cop"; }
  static CoPSupport make(const Par& p) { return CoPSupport(p.R, p.box); }
  static void params(const CoPSupport& m, const Par& p) {
    nearm("R", m.get_R(), p.R, 1e-12, "R");
    require(m.get_box() == p.box, "box", str(m.get_box()) + " for " + str(p.box));
  }
  static std::size_t rows(const Par&) { return 4; }
  static void point(const CoPSupport& m, const Par& p, Src& s, Case& c, int& in, int& out) {
    V6 w = gen_wrench(s, p);
    double want = cop_slack(p, w);
    judge("membership", lin_slack(m.get_A(), m.get_lb(), m.get_ub(), w), std::min(want, 1e300), w.norm() * (1 + p.mu), c, in, out);
  }
  static void set(CoPSupport& m, Par& p, Src& s) {
    if (s.flip())
      m.set_R(p.R = gen_R(s));
    else
      m.set_box(p.box = V2(gen_side(s, true), gen_side(s, true)));
    p = p.eff();
  }
  static void bulk(CoPSupport& m, Par& p, Src& s) {
    Par q = gen_par(s, true);
    WrenchCone n(q.R, q.mu, q.box, q.nf, q.inner, q.mn, q.mx);
    m = CoPSupport(n);
    p.R = q.R;
    p.box = q.eff().box;
  }
};

template <class T>
static void unlimit(T& m) {
  m.set_max_nforce(INF);
  m.update();
}
static void unlimit(CoPSupport&) {}
template <class T>
static void equal(const char* tag, const T& a, const T& b) {
  require(a.get_A().rows() == b.get_A().rows() && a.get_lb().size() == b.get_lb().size() && a.get_ub().size() == b.get_ub().size(), tag, "sizes differ");
  require(same(Eigen::MatrixXd(a.get_A()), Eigen::MatrixXd(b.get_A())), tag, "A differs");
  require(same(Eigen::MatrixXd(a.get_lb()), Eigen::MatrixXd(b.get_lb())), tag, "lb differs");
  require(same(Eigen::MatrixXd(a.get_ub()), Eigen::MatrixXd(b.get_ub())), tag, "ub differs");
}
template <class T>
static void sizes(const T& m, const Par& p) {
  std::size_t n = Kind<T>::rows(p);
  require((std::size_t)m.get_A().rows() == n && (std::size_t)m.get_lb().size() == n && (std::size_t)m.get_ub().size() == n, "sizes", "rows of the description");
}

template <class T>
static void set_case(Src& s, Case& c) {
  Par p = gen_par(s, s.chance(1, 4));
  c.desc << Kind<T>::name() << " " << p;
  T m = Kind<T>::make(p);
  Par e = p.eff();
  Kind<T>::params(m, e);
  sizes(m, e);
  int in = 0, out = 0;
  for (int i = 0; i < 24; ++i) Kind<T>::point(m, e, s, c, in, out);
  c.nontrivial = in > 0 && out > 0;
  c.label(p.invalid() ? "invalid-parameters" : "valid-parameters");
  c.label(in > 0 ? "has-members" : "no-members");
  // Nothing is outside a support without dimensions.
  if (!std::isfinite(e.box(0)) || !std::isfinite(e.box(1))) c.label("unbounded-box");
}
template <class T>
static void history(Src& s, Case& c) {
  Par p = gen_par(s, s.chance(1, 4));
  c.desc << Kind<T>::name() << " history from " << p;
  T m = Kind<T>::make(p);
  p = p.eff();
  if (s.chance(1, 6)) {  // documented defaults
    m = T();
    p = Par();
    Kind<T>::params(m, p);
    equal("default", m, Kind<T>::make(p));
    c.label("default");
  }
  int n = s.integer(1, 8), in = 0, out = 0;
  for (int i = 0; i < n; ++i) {
    switch (s.integer(0, 6)) {
      case 0: {  // copies are independent
        T k(m);
        equal("copy", k, m);
        Kind<T>::params(k, p);
        Par q = p;
        Kind<T>::set(k, q, s);
        k.update();
        Kind<T>::params(m, p);
        c.desc << " copy";
        break;
      }
      case 1: {
        Par q = gen_par(s, false);
        T k = Kind<T>::make(q);
        k = m;
        equal("assign", k, m);
        Kind<T>::params(k, p);
        T& r = m;
        m = r;
        m = k;
        c.desc << " assign";
        break;
      }
      case 2:
        Kind<T>::bulk(m, p, s);
        c.desc << " bulk";
        break;
      default: {
        int k = s.integer(1, 3);
        for (int j = 0; j < k; ++j) Kind<T>::set(m, p, s);
        Kind<T>::params(m, p);
        m.update();
        c.desc << " set" << k;
      }
    }
    if (p.mx < p.mn) {  // empty by choice of the generator: make it meaningful
      p.mx = INF;
      unlimit(m);
    }
    Kind<T>::params(m, p);
    sizes(m, p);
    equal("fresh", m, Kind<T>::make(p));
    for (int j = 0; j < 4; ++j) Kind<T>::point(m, p, s, c, in, out);
  }
  c.nontrivial = in > 0;
}
// The true circular cone contains the inner approximation and lies in the outer one.
static void sandwich(Src& s, Case& c) {
  Par p = gen_par(s, false);
  if (p.mu == 0) p.mu = 0.4;
  p.mn = 0;
  p.mx = INF;
  c.desc << p;
  FrictionCone m = Kind<FrictionCone>::make(p);
  double fz = s.logu(0.1, 100.);
  int hit = 0;
  for (int i = 0; i < 16; ++i) {
    double a = s.chance(1, 3) ? M_PI / (double)p.nf * s.integer(0, 2 * (int)p.nf) : s.uni(0., 2 * M_PI), r = s.uni(0.5, 1.5);
    double t = r * p.mu * fz;
    V3 f = p.R * V3(t * std::cos(a), t * std::sin(a), fz);
    bool lin = lin_slack(m.get_A(), m.get_lb(), m.get_ub(), f) >= 0;
    if (p.inner && lin) {
      require(r <= 1 + 1e-9, "inner-leaves-cone", "tangential force " + num(r) + " mu fz satisfies the inner approximation");
      ++hit;
    }
    if (!p.inner && r < 1 - 1e-9) {
      require(lin, "outer-cuts-cone", "tangential force " + num(r) + " mu fz violates the outer approximation");
      ++hit;
    }
    // and is not further than one facet from it
    double gap = std::cos(M_PI / (double)p.nf);
    if (p.inner && r < gap * gap) require(lin || gap < 0.71, "inner-too-small", num(r));
  }
  c.nontrivial = hit > 0;
}

int main(int argc, char** argv) {
  Check k("C29", "points on both sides of the boundary were decided (histories: at least one member)");
  k.family("friction", 12000, 400000, set_case<FrictionCone>);
  k.family("wrench", 12000, 400000, set_case<WrenchCone>);
  k.family("cop", 8000, 200000, set_case<CoPSupport>);
  k.family("friction-history", 6000, 150000, history<FrictionCone>);
  k.family("wrench-history", 6000, 150000, history<WrenchCone>);
  k.family("cop-history", 6000, 150000, history<CoPSupport>);
  k.family("sandwich", 4000, 100000, sandwich);
  k.assume("Points closer than 1e-9 (relative) to a boundary are not decided.");
  k.assume("The yaw limit uses the friction coefficient of the chosen linearisation, as the object does for the tangential force.");
  k.assume("An unbounded foot dimension limits neither the CoP nor the yaw moment.");
  return k.main(argc, argv);
}
