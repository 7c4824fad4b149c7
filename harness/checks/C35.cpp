// The helpers that the rest relies on keep their contracts for any input.
#include <stdlib.h>
#include <unistd.h>
#include <array>
#include <cfloat>
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <thread>
#include "common/harness.hpp"
#include "crocoddyl/core/utils/exception.hpp"
#include "crocoddyl/core/utils/file-io.hpp"
#include "crocoddyl/core/utils/math.hpp"
#include "crocoddyl/core/utils/version.hpp"
using namespace vf;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;

namespace vf_version {
int v[3] = {0, 0, 0};
}

static Mat ortho(Src& s, int n) {
  Mat m = s.mat(n, n);
  for (int i = 0; i < n; ++i) m(i, i) += 1.;
  return Eigen::HouseholderQR<Mat>(m).householderQ();
}

// The pseudo-inverse: the four conditions of Penrose, for any shape and rank.
template <typename T>
static void pinv_of(const Mat& U, const Mat& V, const Vec& sv, double tol) {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M;
  const Eigen::Index r = U.rows(), q = V.rows(), k = sv.size();
  M A = (U.leftCols(k) * sv.asDiagonal() * V.leftCols(k).transpose()).template cast<T>();
  M P = crocoddyl::pseudoInverse(A);
  require(P.rows() == q && P.cols() == r, "shape");
  Mat a = A.template cast<double>(), p = P.template cast<double>();
  double na = 1e-30 + sv.maxCoeff();
  if (sv.maxCoeff() == 0.) {
    require(p.cwiseAbs().maxCoeff() == 0., "zero");
    return;
  }
  double np = 0.;
  for (Eigen::Index i = 0; i < k; ++i)
    if (sv[i] > 0.) np = std::max(np, 1. / sv[i]);
  double cond = na * np;
  auto is = [&](const char* tag, const Mat& d, double scale) {
    double e = d.cwiseAbs().maxCoeff();
    if (!(e <= tol * cond * scale)) fail(tag, "off by " + num(e) + " of " + num(scale));
  };
  is("APA", a * p * a - a, na);
  is("PAP", p * a * p - p, np);
  is("AP-symmetric", a * p - (a * p).transpose(), 1.);
  is("PA-symmetric", p * a - (p * a).transpose(), 1.);
  Mat want = Mat::Zero(q, r);
  for (Eigen::Index i = 0; i < k; ++i)
    if (sv[i] > 0.) want += V.col(i) * U.col(i).transpose() / sv[i];
  is("inverse", p - want, np);
}
static void pinv(Src& s, Case& c) {
  int r = s.integer(1, 8), q = s.chance(1, 3) ? r : s.integer(1, 8), n = std::min(r, q), k = s.integer(0, n);
  bool fl = s.chance(1, 3);
  Mat U = ortho(s, r), V = ortho(s, q);
  Vec sv = Vec::Zero(n);
  double top = s.logu(1e-3, 1e3), spread = fl ? 10. : 1e3;
  for (int i = 0; i < k; ++i) sv[i] = i == 0 ? top : top / s.logu(1., spread);
  c.desc << r << "x" << q << " rank " << k << (fl ? " float" : "") << " sv=" << str(sv);
  c.nontrivial = k >= 1 && (k < n || r != q);
  if (k < n) c.label("rank-deficient");
  if (r != q) c.label(r < q ? "wide" : "tall");
  fl ? pinv_of<float>(U, V, sv, 2e-5) : pinv_of<double>(U, V, sv, 1e-11);
}
// Directions below the tolerance asked for are dropped, the others are kept.
static void truncation(Src& s, Case& c) {
  int r = s.integer(1, 6), q = s.integer(1, 6), n = std::min(r, q);
  Mat U = ortho(s, r), V = ortho(s, q);
  double eps = s.logu(1e-6, 1e-2), tol = eps * std::max(r, q);
  if (tol > 0.05) throw Discard();
  Vec sv(n);
  int kept = 0;
  Mat want = Mat::Zero(q, r);
  for (int i = 0; i < n; ++i) {
    bool keep = i == 0 || s.flip();
    sv[i] = i == 0 ? 1. : keep ? tol * s.logu(1.5, 15.) : tol / s.logu(1.5, 50.);
    if (!keep) continue;
    ++kept;
    want += V.col(i) * U.col(i).transpose() / sv[i];
  }
  double scale = s.logu(1e-3, 1e3);
  Mat A = scale * (U.leftCols(n) * sv.asDiagonal() * V.leftCols(n).transpose());
  Mat p = crocoddyl::pseudoInverse(A, eps) * scale;
  c.desc << r << "x" << q << " eps=" << num(eps) << " kept " << kept << " of " << n;
  c.nontrivial = kept < n;
  double e = (p - want).cwiseAbs().maxCoeff();
  if (!(e <= 1e-6 * (1. + want.cwiseAbs().maxCoeff()))) fail("kept", "off by " + num(e));
}

template <typename T>
static bool psd_of(const Mat& m) {
  Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> a = m.cast<T>();
  return crocoddyl::checkPSD(a);
}
static void psd(Src& s, Case& c) {
  int n = s.integer(1, 8);
  bool fl = s.chance(1, 3);
  // Distance of the smallest eigenvalue from the threshold, above rounding.
  const double th = fl ? -1e-5 : -1e-9, unit = fl ? 2e-5 : 1e-9;
  double size = fl ? s.logu(1e-3, 1.) : s.logu(1e-3, 1e3), least;
  int kind = s.integer(0, 4);
  bool want = true;
  switch (kind) {
    case 0: least = s.logu(1e-2, 1.) * size; break;
    case 1: least = 0.; break;
    case 2: least = -s.logu(1e-2, 1.) * size, want = false; break;
    case 3: least = th - unit * s.logu(4., 1e3), want = false; break;
    default: least = th + unit * s.uni(0.5, 1.);
  }
  double noise = (fl ? 1e-6 : 2e-15) * n * size;
  if (std::fabs(least - th) < 4. * noise) throw Discard();
  Vec ev(n);
  for (int i = 0; i < n; ++i) ev[i] = std::max(least, 0.) + size * s.uni(0., 1.);
  ev[s.integer(0, n - 1)] = least;
  Mat Q = ortho(s, n);
  Mat A = Q * ev.asDiagonal() * Q.transpose();
  A = 0.5 * (A + A.transpose()).eval();
  c.desc << n << (fl ? " float" : "") << " eigenvalues " << str(ev);
  c.label(want ? "psd" : "not-psd");
  c.nontrivial = n > 1;
  bool got = fl ? psd_of<float>(A) : psd_of<double>(A);
  require(got == want, "psd", "least eigenvalue " + num(least));
}

// What is written to a table is read back, cell by cell.
struct Table {
  std::string path;
  Table() {
    char t[] = "/tmp/vf-csv-XXXXXX";
    int fd = mkstemp(t);
    if (fd < 0) throw std::runtime_error("no scratch file");
    close(fd);
    path = t;
  }
  ~Table() { unlink(path.c_str()); }
};
struct Cell {
  bool text;
  std::string s;
};
static std::string word(Src& s, const std::string& sep) {
  std::string w;
  int n = s.chance(1, 16) ? s.integer(9, 300) : s.integer(0, 8);
  for (int i = 0; i < n; ++i) switch (s.integer(0, 6)) {
      case 0: w += '"'; break;
      case 1: w += sep; break;
      case 2: w += ' '; break;
      case 3: w += '\n'; break;
      case 4: w += "\"\""; break;
      default: w += (char)('a' + s.integer(0, 25));
    }
  return w;
}
// RFC 4180 reader
static std::vector<std::vector<Cell>> read_table(const std::string& d, const std::string& sep) {
  std::vector<std::vector<Cell>> rows;
  size_t i = 0;
  while (i < d.size()) {
    rows.emplace_back();
    if (d[i] == '\n') {
      ++i;
      continue;
    }
    for (;;) {
      Cell x;
      x.text = i < d.size() && d[i] == '"';
      if (x.text) {
        ++i;
        for (;;) {
          if (i >= d.size()) fail("unterminated", d);
          if (d[i] == '"') {
            if (i + 1 < d.size() && d[i + 1] == '"') {
              x.s += '"';
              i += 2;
              continue;
            }
            ++i;
            break;
          }
          x.s += d[i++];
        }
      } else {
        while (i < d.size() && d[i] != '\n' && d.compare(i, sep.size(), sep) != 0) x.s += d[i++];
      }
      rows.back().push_back(x);
      if (i >= d.size()) break;
      if (d[i] == '\n') {
        ++i;
        break;
      }
      if (d.compare(i, sep.size(), sep) != 0) fail("separator", d);
      i += sep.size();
    }
  }
  return rows;
}
static void table(Src& s, Case& c) {
  const char* seps[] = {",", ";", "\t", "|", "; "};
  int si = s.integer(0, 5);
  std::string sep = si == 5 ? "," : seps[si];
  Table t;
  std::vector<std::vector<Cell>> want;
  int rows = s.integer(1, 5);
  {
    std::unique_ptr<CsvStream> o(si == 5 ? new CsvStream(t.path) : new CsvStream(t.path, sep));
    for (int i = 0; i < rows; ++i) {
      want.emplace_back();
      int n = s.integer(0, 5);
      for (int j = 0; j < n; ++j) {
        Cell x;
        int kind = s.integer(0, 3);
        x.text = kind <= 1;
        if (kind <= 1) {
          x.s = word(s, sep);
          kind == 0 ? *o << x.s : *o << x.s.c_str();
        } else if (kind == 2) {
          int v = s.integer(-100000, 100000);
          x.s = std::to_string(v);
          *o << v;
        } else {
          double v = s.integer(-1000, 1000) / 8.;
          std::ostringstream q;
          q << v;
          x.s = q.str();
          *o << v;
        }
        want.back().push_back(x);
        c.nontrivial = c.nontrivial || (x.text && x.s.find('"') != std::string::npos);
      }
      if (s.flip()) o->flush();
      s.flip() ? *o << &CsvStream::endl : (o->endrow(), *o);
    }
  }
  std::ifstream in(t.path, std::ios::binary);
  std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  c.desc << rows << " rows, separator '" << sep << "'";
  auto got = read_table(d, sep);
  require(got.size() == want.size(), "rows", d);
  for (size_t i = 0; i < want.size(); ++i) {
    require(got[i].size() == want[i].size(), "cells", d);
    for (size_t j = 0; j < want[i].size(); ++j) {
      require(got[i][j].text == want[i][j].text, "quoted", d);
      require(got[i][j].s == want[i][j].s, "cell", d);
    }
  }
}
// A file that cannot be opened is an error, not a silent loss of results.
static void version(Src& s, Case& c) {
  int a[3], b[3];
  for (int i = 0; i < 3; ++i) a[i] = s.integer(0, 12), b[i] = s.chance(1, 2) ? a[i] : s.integer(0, 12);
  for (int i = 0; i < 3; ++i) vf_version::v[i] = a[i];
  std::array<int, 3> x{{a[0], a[1], a[2]}}, y{{b[0], b[1], b[2]}};
  c.desc << a[0] << "." << a[1] << "." << a[2] << " against " << b[0] << "." << b[1] << "." << b[2];
  c.nontrivial = x != y;
  require(crocoddyl::checkVersionAtLeast(b[0], b[1], b[2]) == (x >= y), "at-least");
  const char* d[] = {".", "-", "", "::"};
  std::string e = d[s.integer(0, 3)];
  std::string n[3];
  for (int i = 0; i < 3; ++i) n[i] = std::to_string(a[i]);
  require(crocoddyl::printVersion(e) == n[0] + e + n[1] + e + n[2], "print");
  require(crocoddyl::printVersion() == n[0] + "." + n[1] + "." + n[2], "print-default");
}
// An error carries its message and where it comes from.
static void errors(Src& s, Case& c) {
  std::string m = word(s, ","), file = "f" + word(s, "/") + ".cpp", func = "g" + word(s, " ") + "()";
  int line = s.integer(1, 99999);
  if (s.flip()) {
    crocoddyl::Exception e(m, file.c_str(), func.c_str(), line);
    std::string w = e.what();
    require(e.getMessage() == m, "message", e.getMessage());
    require(e.getExtraData() == file, "file", e.getExtraData());
    require(w.size() >= m.size() && w.compare(w.size() - m.size(), m.size(), m) == 0, "what", w);
    require(w.find(file) != std::string::npos && w.find(func) != std::string::npos && w.find(" " + std::to_string(line) + "\n") != std::string::npos, "where", w);
    crocoddyl::Exception e2(e);
    require(w == e2.what() && e2.getMessage() == m, "copy");
  } else {
    int k = s.integer(-5, 5), here = 0;
    try {
      here = __LINE__; throw_pretty("value " << k << " " << m);
      throw 0;
    } catch (int) {
      fail("not-thrown", m);
    } catch (const std::exception& x) {
      auto* e = dynamic_cast<const crocoddyl::Exception*>(&x);
      require(e != nullptr, "type");
      require(e->getMessage() == "value " + std::to_string(k) + " " + m, "streamed", e->getMessage());
      require(std::string(e->what()).find(" " + std::to_string(here) + "\n") != std::string::npos, "line", e->what());
      require(e->getExtraData() == __FILE__, "this-file", e->getExtraData());
    }
    c.label("thrown");
  }
  c.desc << str(Vec::Constant(1, line)) << " " << m.size();
  c.nontrivial = !m.empty();
}

int main(int argc, char** argv) {
  Check k("C35",
          "A case is a matrix of a given rank or spectrum, a table of texts and numbers, a pair of versions, or an error. "
          "Non-trivial: rank-deficient or not square, truncated, more than one eigenvalue, a text with quotes, versions "
          "that differ, an error with a message.");
  k.family("pinv", 160000, 2400000, pinv);
  k.family("truncation", 160000, 2400000, truncation);
  k.family("psd", 160000, 2400000, psd);
  k.family("table", 64000, 800000, table);
  k.family("version", 240000, 1200000, version);
  k.family("errors", 160000, 1200000, errors);
  return k.main(argc, argv);
}
