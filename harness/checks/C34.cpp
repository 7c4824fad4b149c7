// Stopwatch records add up, whatever is measured in whatever order.
#include <time.h>
#include <iostream>
#include <map>
#include <sstream>
#include "common/harness.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
#include "crocoddyl/core/utils/timer.hpp"
using namespace vf;
typedef long double Time;
typedef crocoddyl::Stopwatch Watch;

struct Span {
  Time lo, hi;  // what a measurement can have been
};
struct Entry {
  bool exists = false, running = false, part = false, started = false, sampled = false;
  Time a0 = 0, a1 = 0;  // its start lies between these
  int stops = 0;
  Time lo = 0, hi = 0;  // of the total
  bool paused = false;  // some measurement was made in parts
  std::vector<Span> all;
};
template <class F>
static bool refused(F f) {
  try {
    f();
  } catch (crocoddyl::StopwatchException&) {
    return true;
  }
  return false;
}
static volatile double g_sink;
static void spend(Src& s) {
  int n = s.chance(1, 6) ? s.integer(0, 60000) : s.integer(0, 3000);
  double x = 0.;
  for (int i = 0; i < n; ++i) x += i * 0.5;
  g_sink = x;
}

static void records(Src& s, Case& c) {
  std::ostringstream sink;
  std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
  struct Back {
    std::streambuf* o;
    ~Back() { std::cout.rdbuf(o); }
  } back{old};
  bool cpu = s.flip();
  Watch w(cpu ? crocoddyl::CPU_TIME : crocoddyl::REAL_TIME);
  if (s.chance(1, 4)) {
    Watch n;
    require(refused([&] { n.start("x"); }), "no-mode");
    n.set_mode(cpu ? crocoddyl::CPU_TIME : crocoddyl::REAL_TIME);
    n.start("x"), n.stop("x");
    require(n.get_total_time("x") >= 0, "mode");
  }
  const Time unit = cpu ? (Time)CLOCKS_PER_SEC : 1.;
  Time last = w.take_time();
  // The system's clock may be set at any time: nothing is known then.
  auto now = [&] {
    Time t = w.take_time();
    if (t < last) throw Discard();
    return last = t;
  };
  const char* names[] = {"one", "two", "a longer name of what is measured"};
  std::map<std::string, Entry> R;
  std::map<std::string, Watch::Watcher> watchers;
  std::map<std::string, bool> bound;  // the watcher started once
  bool on = true, prof = false;
  int n = s.integer(1, 40);
  c.desc << (cpu ? "cpu" : "real");
  auto verify = [&](const std::string& name) {
    Entry& e = R[name];
    require(w.performance_exists(name) == e.exists, "exists", name);
    if (!e.exists) {
      require(refused([&] { w.get_total_time(name); }) && refused([&] { w.get_min_time(name); }) && refused([&] { w.get_max_time(name); }) && refused([&] { w.get_average_time(name); }) && refused([&] { w.get_last_time(name); }) && refused([&] { w.get_time_so_far(name); }), "unknown", name);
      return;
    }
    const Time eps = 1e-9L;
    Time total = w.get_total_time(name);
    if (!(total >= e.lo - eps && total <= e.hi + eps)) fail("total", name + " " + num((double)total) + " not in [" + num((double)e.lo) + ", " + num((double)e.hi) + "]");
    if (!e.stops) return;
    Time av = w.get_average_time(name), mi = w.get_min_time(name), ma = w.get_max_time(name), la = w.get_last_time(name);
    if (std::fabs(av * e.stops - total) > eps) fail("average", name + " " + num((double)av) + " of " + std::to_string(e.stops));
    if (e.paused) return;
    Time milo = 1e300L, mihi = 1e300L, malo = 0, mahi = 0;
    for (auto& x : e.all) milo = std::min(milo, x.lo), mihi = std::min(mihi, x.hi), malo = std::max(malo, x.lo), mahi = std::max(mahi, x.hi);
    auto in = [&](const char* tag, Time t, Time lo, Time hi) {
      if (!(t >= lo - eps && t <= hi + eps)) fail(tag, name + " " + num((double)t) + " not in [" + num((double)lo) + ", " + num((double)hi) + "] after " + std::to_string(e.stops));
    };
    in("last", la, e.all.back().lo, e.all.back().hi);
    in("min", mi, milo, mihi);
    in("max", ma, malo, mahi);
    require(mi <= av + eps && av <= ma + eps, "order", name);
  };
  for (int i = 0; i < n; ++i) {
    std::string name = names[s.integer(0, 2)];
    Entry& e = R[name];
    int op = s.integer(0, 11);
    if (s.flip()) spend(s);
    c.desc << " " << op << name[0];
    if (op <= 2) {  // start, also again
      bool wt = s.chance(1, 3);
      if (e.part) wt = false;
      Time a = now();
      if (wt) {
        auto it = watchers.find(name);
        if (it == watchers.end()) it = watchers.insert({name, w.watcher(name)}).first, e.exists = e.exists || on;
        it->second.start();
        if (!prof) continue;
        e.exists = bound[name] = true;
        c.label("watcher");
      } else {
        w.start(name);
        if (!on) continue;
        e.exists = true;
      }
      e.a0 = a, e.a1 = now(), e.running = e.started = true;
    } else if (op <= 5) {  // stop
      if (!e.exists) {
        if (on) {
          require(refused([&] { w.stop(name); }), "stop-unknown");
          require(refused([&] { w.reset(name); }), "reset-unknown");
          require(refused([&] { w.report(name, 2, sink); }), "report-unknown");
        }
        verify(name);
        continue;
      }
      if (e.started && !e.running) continue;  // stopped or paused before
      auto it = watchers.find(name);
      bool wt = it != watchers.end() && bound[name] && s.flip();
      Time b = now();
      if (wt)
        it->second.stop();
      else
        w.stop(name);
      if (wt ? !prof : !on) continue;
      Time t = now();
      if (!e.started) {
        verify(name);
        continue;
      }
      Span x{(b - e.a1) / unit, (t - e.a0) / unit};
      e.lo += x.lo, e.hi += x.hi, ++e.stops;
      if (!e.part) e.all.push_back(x);
      e.running = e.part = false;
      e.sampled = true;
      c.nontrivial = true;
    } else if (op == 6) {  // pause
      if (!e.running || !on) continue;
      Time b = now();
      w.pause(name);
      Time t = now();
      e.lo += (b - e.a1) / unit, e.hi += (t - e.a0) / unit;
      e.running = false, e.part = e.paused = true;
      c.label("paused");
    } else if (op == 7) {
      if (s.flip()) {
        if (e.exists) {
          w.reset(name);
          if (on) e = Entry(), e.exists = true;
        }
      } else {
        w.reset_all();
        if (on)
          for (auto& q : R) {
            bool ex = q.second.exists;
            q.second = Entry(), q.second.exists = ex;
          }
      }
      c.label("reset");
    } else if (op == 8) {
      if (s.flip()) {
        on = s.flip();
        on ? w.turn_on() : w.turn_off();
      } else {
        prof = !prof;
        prof ? w.enable_profiler() : w.disable_profiler();
        require(w.profiler_status() == prof, "profiler-status");
      }
    } else if (op == 9 && e.running) {
      Time b = now();
      Time t = w.get_time_so_far(name), d = now();
      require(t >= (b - e.a1) / unit - 1e-9L && t <= (d - e.a0) / unit + 1e-9L, "so-far", name);
    } else if (op == 10) {  // the report gives the same numbers, in milliseconds
      std::ostringstream o;
      bool every = s.flip();
      if (!every && !(e.exists && e.stops)) continue;
      every ? w.report_all(6, o) : w.report(name, 6, o);
      if (!on) {
        require(o.str().empty(), "report-off");
        continue;
      }
      for (auto& q : R) {
        size_t at = o.str().find(q.first + " ");
        bool there = at != std::string::npos, want = q.second.stops > 0 && (every || q.first == name);
        require(there == want, "reported", q.first);
        if (!there) continue;
        std::istringstream in(o.str().substr(at + q.first.size()));
        double v[6];
        for (double& x : v) require((bool)(in >> x), "report-columns", o.str());
        require((int)v[4] == q.second.stops, "report-samples", num(v[4]));
        const Time g[] = {w.get_min_time(q.first), w.get_average_time(q.first), w.get_max_time(q.first), w.get_last_time(q.first), 0, w.get_total_time(q.first)};
        for (int j = 0; j < 6; ++j)
          if (j != 4 && std::fabs(v[j] - (double)(g[j] * 1e3L)) > 1e-6 * (1. + std::fabs(v[j]))) fail("report", q.first + " column " + std::to_string(j) + " " + num(v[j]));
        c.label("report");
      }
    }
    verify(name);
  }
  for (auto& q : R) verify(q.first);
}

static double mono() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1e6 + t.tv_nsec * 1e-3;
}
static void timer(Src& s, Case& c) {
  double a0 = mono();
  crocoddyl::Timer t;
  double a1 = mono();
  int n = s.integer(1, 8);
  for (int i = 0; i < n; ++i) {
    spend(s);
    if (s.chance(1, 3)) {
      a0 = mono();
      t.reset();
      a1 = mono();
      spend(s);
    }
    bool us = s.flip();
    double b = mono(), d = us ? t.get_us_duration() : 1e3 * t.get_duration(), e = mono();
    if (!(d >= b - a1 - 0.1 && d <= e - a0 + 0.1)) fail(us ? "microseconds" : "milliseconds", num(d) + " not in [" + num(b - a1) + ", " + num(e - a0) + "]");
  }
  c.desc << n;
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  Check k("C34",
          "A case is a history of up to 40 operations on a stopwatch (start, stop, pause, watchers, reset, switching off and "
          "on, the profiler, reports) over three names in CPU or real time; every measurement is enclosed by readings of "
          "the same clock, which bound each record. Or a timer with resets. Non-trivial: a measurement ended.");
  k.family("records", 200000, 400000, records);
  k.family("timer", 50000, 500000, timer);
  return k.main(argc, argv);
}
