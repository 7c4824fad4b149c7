// USES_SOLVERS
// Callbacks, profiling and printing report a run and do not touch it.
#include <iomanip>
#include <iostream>
#include <sstream>
#include "common/costs.hpp"
#include "common/solve.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
using namespace vf;
typedef crocoddyl::CallbackVerbose Verbose;

// What is written to the terminal while one of these lives.
struct Capture {
  std::ostringstream o;
  std::streambuf* old;
  Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old), std::cout << std::resetiosflags(std::ios::floatfield) << std::setprecision(6); }
  std::vector<std::string> lines(size_t& from) {
    std::vector<std::string> r;
    std::string all = o.str(), l;
    std::istringstream i(all.substr(from));
    while (std::getline(i, l)) r.push_back(l);
    from = all.size();
    return r;
  }
};
static std::vector<std::string> words(const std::string& l) {
  std::istringstream i(l);
  std::vector<std::string> r;
  std::string w;
  while (i >> w) r.push_back(w);
  return r;
}
static std::vector<std::string> columns(int level) {
  std::vector<std::string> v{"iter", "cost"};
  if (level) v.push_back("merit");
  v.insert(v.end(), {"stop", "|grad|", "preg"});
  if (level > 1) v.push_back("dreg");
  v.push_back("step");
  if (level) v.push_back("||ffeas||");
  if (level > 2) v.push_back("||gfeas||"), v.push_back("||hfeas||");
  v.push_back("dV-exp"), v.push_back("dV");
  if (level > 3) v.push_back("dPhi-exp"), v.push_back("dPhi");
  return v;
}
static double value(Solver& so, const std::string& n) {
  if (n == "cost") return so.get_cost();
  if (n == "merit") return so.get_merit();
  if (n == "stop") return so.get_stop();
  if (n == "|grad|") return std::fabs(so.get_d()[0]);
  if (n == "preg") return so.get_preg();
  if (n == "dreg") return so.get_dreg();
  if (n == "||ffeas||") return so.get_ffeas();
  if (n == "||gfeas||") return so.get_gfeas();
  if (n == "||hfeas||") return so.get_hfeas();
  if (n == "dV-exp") return so.get_dVexp();
  if (n == "dV") return so.get_dV();
  if (n == "dPhi-exp") return so.get_dPhiexp();
  return so.get_dPhi();
}
static void row(Solver& so, const std::string& line, const std::vector<std::string>& cols, int precision) {
  auto v = words(line);
  std::string w = " in \"" + line + "\"";
  require(v.size() == cols.size(), "columns", std::to_string(v.size()) + " values for " + std::to_string(cols.size()) + " columns" + w);
  for (size_t i = 0; i < cols.size(); ++i) {
    double a = strtod(v[i].c_str(), nullptr);
    if (cols[i] == "iter") {
      require(v[i] == std::to_string(so.get_iter()), "iteration", std::to_string(so.get_iter()) + w);
      continue;
    }
    char b[64];
    double x = cols[i] == "step" ? so.get_steplength() : value(so, cols[i]);
    if (cols[i] == "step")
      snprintf(b, sizeof b, "%.4f", x);
    else
      snprintf(b, sizeof b, "%.*e", precision, x);
    double y = strtod(b, nullptr);
    if (std::isnan(x) ? !std::isnan(a) : a != y) fail("value", cols[i] + " is " + b + w);
    // digits of the precision asked for
    size_t dot = v[i].find('.'), e = v[i].find('e');
    if (std::isfinite(x) && cols[i] != "step") require(e != std::string::npos && (precision ? dot != std::string::npos && (int)(e - dot) - 1 == precision : dot == std::string::npos), "precision", cols[i] + w);
  }
}

static ProblemCase problem(Src& s, Case& c, int kind, int maxT) {
  NodeSpec sp;
  sp.bounds = s.flip();
  sp.cons = s.flip();
  sp.zero_nu = s.chance(1, 4);
  sp.empty = true;
  sp.eps = s.pick<double>({0.3, 1., 0.});
  sp.dyn = s.pick<double>({0.7, 1.5});
  ProblemCase k = gen_problem(s, c, sp, maxT, s.flip());
  c.label(solver_name[kind]);
  c.desc << " " << solver_name[kind];
  return k;
}

static void verbose(Src& s, Case& c) {
  int kind = s.integer(kDDP, kKKT);
  ProblemCase k = problem(s, c, kind, 4);
  auto so = make_solver(kind, k.p);
  Capture out;
  int level = s.integer(0, 4), precision = s.integer(0, 12);
  std::shared_ptr<Verbose> v;
  if (s.chance(1, 4)) {
    v = std::make_shared<Verbose>();
    require(v->get_level() == crocoddyl::_4 && v->get_precision() == 3, "defaults");
    level = 4, precision = 3;
  } else {
    v = std::make_shared<Verbose>((crocoddyl::VerboseLevel)level, precision);
  }
  auto rec = std::make_shared<Recorder>();
  size_t from = 0;
  int calls = 0;
  rec->more = [&](Solver& q) {
    auto l = out.lines(from);
    bool head = q.get_iter() % 10 == 0;
    require(l.size() == (head ? 2u : 1u), "lines", std::to_string(l.size()) + " lines in iteration " + std::to_string(q.get_iter()));
    auto cols = columns(level);
    if (head) require(words(l[0]) == cols, "header", l[0]);
    row(q, l.back(), cols, precision);
    ++calls;
  };
  so->setCallbacks({v, rec});
  require(so->getCallbacks().size() == 2 && so->getCallbacks()[0] == v && so->getCallbacks()[1] == rec, "callbacks");
  int runs = s.integer(1, 3);
  for (int r = 0; r < runs; ++r) {
    if (s.chance(1, 3)) v->set_level((crocoddyl::VerboseLevel)(level = s.integer(0, 4)));
    if (s.chance(1, 3)) v->set_precision(precision = s.integer(0, 12));
    if (s.chance(1, 5)) require(throws([&] { v->set_precision(-s.integer(1, 3)); }), "negative-precision");
    require(v->get_level() == level && v->get_precision() == precision, "settings");
    if (s.chance(1, 4)) std::cout << std::fixed << std::setprecision(s.integer(0, 9));
    c.desc << " run " << level << "/" << precision;
    Traj us, xs;
    if (s.flip()) us = k.us(s, 1.);
    if (s.flip()) xs = k.xs(s, 1.);
    // more than one header
    int maxiter = s.chance(1, 3) ? s.integer(10, 30) : s.integer(1, 8);
    if (s.flip()) so->set_th_stop(1e-300);
    int before = rec->log.size();
    so->solve(xs, us, maxiter);
    require(calls == (int)rec->log.size(), "callbacks");
    if ((int)rec->log.size() - before > 10) c.label("second-header");
    if ((int)rec->log.size() > before) c.nontrivial = true;
  }
  // called directly, too
  if (s.flip()) {
    v->operator()(*so);
    rec->more(*so);
  }
}

static void influence(Src& s, Case& c) {
  int kind = s.integer(kDDP, kKKT);
  ProblemCase k = problem(s, c, kind, 4);
  Traj us, xs;
  if (s.flip()) us = k.us(s, 1.);
  if (s.flip()) xs = k.xs(s, 1.);
  int maxiter = s.integer(1, 12), mode = s.integer(1, 15);
  c.desc << " mode " << mode;
  auto& prof = crocoddyl::getProfiler();
  struct R {
    bool ok;
    std::vector<double> v;
    Traj xs, us;
  };
  auto run = [&](int m) {
    Capture out;
    auto so = make_solver(kind, k.p);
    std::vector<std::shared_ptr<crocoddyl::CallbackAbstract>> cb;
    if (m & 1) cb.push_back(std::make_shared<Verbose>((crocoddyl::VerboseLevel)s.integer(0, 4), s.integer(0, 9)));
    if (m & 2) {
      auto rec = std::make_shared<Recorder>();
      rec->more = [&](Solver& q) { std::cout << *q.get_problem(); };
      cb.push_back(rec);
    }
    if (m & 8) cb.push_back(std::make_shared<Recorder>());
    so->setCallbacks(cb);
    if (m & 4) prof.enable_profiler();
    R r;
    r.ok = so->solve(xs, us, maxiter);
    prof.disable_profiler();
    r.xs = so->get_xs(), r.us = so->get_us();
    r.v = {(double)so->get_iter(), so->get_cost(), so->get_stop(), so->get_preg(), so->get_steplength(), so->get_dV(), so->get_dVexp(), so->get_ffeas(), so->get_gfeas(), so->get_hfeas(), so->get_merit(), (double)so->get_is_feasible(), so->get_d()[0], so->get_d()[1]};
    return r;
  };
  R a = run(0), b = run(mode);
  require(a.ok == b.ok, "outcome");
  for (size_t i = 0; i < a.v.size(); ++i) require(same(a.v[i], b.v[i]), "measures", std::to_string(i) + ": " + num(a.v[i]) + " vs " + num(b.v[i]));
  for (size_t i = 0; i < a.xs.size(); ++i) require(same(a.xs[i], b.xs[i]), "states", std::to_string(i));
  for (size_t i = 0; i < a.us.size(); ++i) require(same(a.us[i], b.us[i]), "controls", std::to_string(i));
  c.nontrivial = true;
}

// A printed problem names its sizes and every node, a printed sum each of its
// terms under its status.
static void print(Src& s, Case& c) {
  NodeSpec sp;
  sp.bounds = true, sp.zero_nu = s.flip(), sp.empty = true;
  ProblemCase k = gen_problem(s, c, sp, 5, s.flip());
  Traj xs = k.xs(s, 1.), us = k.us(s, 1.);
  double v = k.p->calc(xs, us);
  std::ostringstream o;
  o << *k.p;
  std::string all = o.str();
  auto ints = [](const std::string& t) {
    std::vector<long> r;
    for (size_t i = 0; i < t.size();)
      if (isdigit(t[i])) {
        char* e;
        r.push_back(strtol(&t[i], &e, 10));
        i = e - &t[0];
      } else {
        ++i;
      }
    return r;
  };
  auto first = ints(all.substr(0, all.find('\n')));
  require(first == std::vector<long>({k.T(), (long)k.st->get_nx(), (long)k.st->get_ndx()}), "sizes", all.substr(0, 80));
  size_t at = 0;
  for (int t = 0; t <= k.T(); ++t) {
    std::ostringstream m;
    auto& a = t < k.T() ? k.running[t] : k.terminal;
    m << *a;
    require(!m.str().empty(), "model-printed");
    std::string node = std::to_string(t) + ": " + m.str();
    at = all.find(node, at);
    require(at != std::string::npos, "node-printed", node);
    at += node.size();
  }
  require(same(v, k.p->calc(xs, us)), "evaluation");
  c.nontrivial = true;
}
static std::set<std::string> under(const std::string& all, bool active) {
  std::istringstream i(all);
  std::string l;
  std::set<std::string> r;
  bool in = false;
  while (std::getline(i, l)) {
    if (l == "  Active:" || l == "  Inactive:") {
      in = (l == "  Active:") == active;
      continue;
    }
    if (in && l.compare(0, 4, "    ") == 0) r.insert(l.substr(4, l.find(':') - 4));
  }
  return r;
}
static void sums(Src& s, Case& c) {
  auto st = gen_state(s, 2, s.flip());
  int nu = s.integer(0, 3), n = s.integer(0, 6);
  CostSum sum(st, nu);
  ConMan man(st, nu);
  std::set<std::string> on[2], off[2];
  std::vector<std::pair<std::string, double>> weights;
  for (int i = 0; i < n; ++i) {
    std::string name = std::string(1, (char)('a' + s.integer(0, 25))) + std::to_string(i);
    bool act = s.flip();
    ResRef rr;
    auto r = std::make_shared<Res>(st, (size_t)s.integer(1, 3), (size_t)nu);
    if (s.flip()) {
      double w = s.integer(0, 99) / 4.;
      sum.addCost(name, std::make_shared<crocoddyl::CostModelResidualTpl<double>>(st, r), w, act);
      (act ? on : off)[0].insert(name);
      weights.push_back({name, w});
    } else {
      man.addConstraint(name, std::make_shared<crocoddyl::ConstraintModelResidualTpl<double>>(st, r), act);
      (act ? on : off)[1].insert(name);
    }
    if (s.chance(1, 4)) {
      int q = !sum.get_costs().count(name);
      act = !act;
      q ? man.changeConstraintStatus(name, act) : sum.changeCostStatus(name, act);
      (act ? on : off)[q].insert(name), (act ? off : on)[q].erase(name);
    }
  }
  c.desc << n << " terms";
  std::ostringstream a, b;
  a << sum, b << man;
  for (int q = 0; q < 2; ++q) {
    std::string t = q ? b.str() : a.str();
    require(under(t, true) == on[q] && under(t, false) == off[q], "terms", t);
  }
  for (auto& w : weights) {
    size_t p = a.str().find(w.first + ": "), e = p == std::string::npos ? p : a.str().find("w=", p);
    require(e != std::string::npos && strtod(a.str().c_str() + e + 2, nullptr) == w.second, "weights", w.first + " " + num(w.second));
  }
  c.nontrivial = n > 0;
}

int main(int argc, char** argv) {
  Check k("C33",
          "A case is a run of a solver with a verbose callback of some level and precision (changed between runs), whose "
          "printed lines are compared with the solver's quantities in each iteration; a run with and without callbacks, "
          "printing and profiling, compared bit by bit; or a printed problem, cost sum or constraint manager. Non-trivial: "
          "something was printed or compared.");
  k.family("log", 24000, 150000, verbose);
  k.family("influence", 20000, 120000, influence);
  k.family("print", 16000, 100000, print);
  k.family("sums", 16000, 100000, sums);
  return k.main(argc, argv);
}
