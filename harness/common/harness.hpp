// Property-based testing engine used by every check.
//
// A case is a pure function of a sequence of integer choices (`Src`). Fresh
// cases draw the choices from a generator seeded by (VERIF_SEED, family,
// index); shrinking edits the recorded sequence; a replay file is the sequence.
#ifndef VERIF_HARNESS_HPP_
#define VERIF_HARNESS_HPP_
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

struct Failure : std::runtime_error {
  std::string tag, msg;
  Failure(const std::string& t, const std::string& m)
      : std::runtime_error(t + ": " + m), tag(t), msg(m) {}
};
// Thrown to drop a case whose precondition does not hold (counted).
struct Discard {};

class Src {
 public:
  Src(uint64_t seed) : state_(seed), replay_(false) {}
  Src(const std::vector<uint64_t>& c) : state_(0), replay_(true), in_(c) {}
  // Uniform in [0, n); zero is the simplest value.
  uint64_t draw(uint64_t n);
  int integer(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
  bool flip() { return draw(2) == 1; }
  // true with probability num/den
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }
  // Symmetric real in [-s, s], 0 is simplest.
  double real(double s = 1.) {
    uint64_t u = draw(1u << 21);
    double v = double((u + 1) / 2) / double(1u << 20);
    return (u & 1 ? v : -v) * s + 0.;
  }
  // Real in [lo, hi], lo is simplest.
  double uni(double lo, double hi) {
    return lo + (hi - lo) * (double(draw((1u << 20) + 1)) / double(1u << 20));
  }
  // log-uniform in [lo, hi]
  double logu(double lo, double hi) {
    return std::exp(uni(std::log(lo), std::log(hi)));
  }
  Eigen::VectorXd vec(int n, double s = 1.) {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i) v[i] = real(s);
    return v;
  }
  Eigen::MatrixXd mat(int r, int c, double s = 1.) {
    Eigen::MatrixXd m(r, c);
    for (int j = 0; j < c; ++j)
      for (int i = 0; i < r; ++i) m(i, j) = real(s);
    return m;
  }
  // Symmetric positive definite with eigenvalues >= eps.
  Eigen::MatrixXd spd(int n, double eps, double s = 1.) {
    Eigen::MatrixXd m = mat(n, n, s);
    Eigen::MatrixXd r = m * m.transpose();
    r.diagonal().array() += eps;
    return r;
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  const std::vector<uint64_t>& choices() const { return out_; }

 private:
  uint64_t state_;
  bool replay_;
  std::vector<uint64_t> in_, out_;
};

// Per-case record: description, classification, triviality.
struct Case {
  std::ostringstream desc;
  std::vector<std::string> labels;
  bool nontrivial = false;
  void label(const std::string& l) { labels.push_back(l); }
};

// Fills memory allocated in its scope with a byte (only with the address
// sanitizer; does nothing otherwise).
struct Fill {
  explicit Fill(int byte);
  ~Fill();
  int old = -1;
};

typedef std::function<void(Src&, Case&)> Fn;
struct Family {
  std::string name;
  int quick, thorough;  // number of cases
  Fn fn;
  double limit;  // seconds one case may take
};

class Check {
 public:
  Check(const std::string& id, const std::string& rule) : id_(id), rule_(rule) {}
  void family(const std::string& name, int quick, int thorough, Fn fn,
              double limit = 20.) {
    fams_.push_back(Family{name, quick, thorough, fn, limit});
  }
  // Directed cases, run first and always (every one counted).
  void assume(const std::string& a) { assumptions_.push_back(a); }
  int main(int argc, char** argv);

 private:
  std::string id_, rule_;
  std::vector<Family> fams_;
  std::vector<std::string> assumptions_;
};

[[noreturn]] void fail(const std::string& tag, const std::string& msg);

template <class M>
std::string str(const M& m) {
  std::ostringstream s;
  s.precision(10);
  Eigen::IOFormat f(10, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]");
  s << m.format(f);
  return s.str();
}
inline std::string num(double d) {
  std::ostringstream s;
  s.precision(12);
  s << d;
  return s.str();
}

// |a-b| <= tol * (1 + max(|a|,|b|)); non-finite values never match unless both
// are the same infinity.
inline bool close(double a, double b, double tol) {
  if (a == b) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= tol * (1. + std::max(std::fabs(a), std::fabs(b)));
}
inline void near(const std::string& tag, double got, double want, double tol,
                 const std::string& what = "") {
  if (!close(got, want, tol))
    fail(tag, what + " got " + num(got) + " expected " + num(want));
}
template <class A, class B>
void nearm(const std::string& tag, const Eigen::MatrixBase<A>& got_,
           const Eigen::MatrixBase<B>& want_, double tol,
           const std::string& what = "") {
  const Eigen::MatrixXd got = got_.template cast<double>();
  const Eigen::MatrixXd want = want_.template cast<double>();
  if (got.rows() != want.rows() || got.cols() != want.cols()) {
    std::ostringstream s;
    s << what << " shape " << got.rows() << "x" << got.cols() << " expected "
      << want.rows() << "x" << want.cols();
    fail(tag, s.str());
  }
  double scale = 1.;
  for (int j = 0; j < want.cols(); ++j)
    for (int i = 0; i < want.rows(); ++i)
      if (std::isfinite(want(i, j))) scale = std::max(scale, std::fabs(want(i, j)));
  for (int j = 0; j < want.cols(); ++j)
    for (int i = 0; i < want.rows(); ++i) {
      double a = got(i, j), b = want(i, j);
      if (a == b) continue;
      if (!std::isfinite(a) || !std::isfinite(b) || std::fabs(a - b) > tol * scale) {
        std::ostringstream s;
        s << what << " (" << i << "," << j << ") got " << num(a) << " expected "
          << num(b);
        if (want.size() <= 64) s << "\n got " << str(got) << "\n expected " << str(want);
        fail(tag, s.str());
      }
    }
}
inline void require(bool ok, const std::string& tag, const std::string& msg = "") {
  if (!ok) fail(tag, msg);
}
// Runs f and says whether it threw a std::exception.
template <class F>
bool throws(F f) {
  try {
    f();
  } catch (const Failure&) {
    throw;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

}  // namespace vf
#endif
