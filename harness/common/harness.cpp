#include "common/harness.hpp"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace vf {
namespace {
uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull;
  return h;
}
uint64_t hash_vec(const std::vector<uint64_t>& v) {
  uint64_t h = 88172645463325252ull;
  for (uint64_t c : v) h = mix(h ^ c);
  return h;
}
double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}
std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += '?';
    else o += c;
  }
  return o;
}

// Choices of the case under way, readable by the driver after a crash.
struct Rec {
  volatile uint64_t n;
  uint64_t v[1 << 20];
};
Rec* g_rec = nullptr;

enum Status { PASS = 0, DISCARDED = 1, FAILED = 2 };
struct Outcome {
  Status st = PASS;
  std::string tag, msg, desc;
  std::vector<std::string> labels;
  bool nontrivial = false;
  std::vector<uint64_t> choices;
};

// Memory mode: the cases of another check are replayed with sanitizers to
// look for memory errors only. Fresh memory is filled with a byte of choice;
// a verdict that changes with that byte used an uninitialised value.
bool g_mem = false;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN
#endif
#endif
#ifdef VERIF_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
volatile int g_fill = -1;
void on_malloc(const volatile void* p, size_t n) {
  if (g_fill >= 0 && p && n <= (1u << 20)) memset((void*)p, g_fill, n);
}
void on_free(const volatile void*) {}
#endif
}  // namespace
Fill::Fill(int byte) {
#ifdef VERIF_ASAN
  static bool once = false;
  if (!once) {
    once = true;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  }
  old = g_fill;
  g_fill = byte;
#endif
}
Fill::~Fill() {
#ifdef VERIF_ASAN
  g_fill = old;
#endif
}
namespace {
Outcome run_plain(const Family& f, Src& s) {
  Outcome o;
  Case c;
  c.desc.precision(8);
  try {
    f.fn(s, c);
  } catch (const Failure& e) {
    o.st = FAILED;
    o.tag = e.tag;
    o.msg = e.msg;
  } catch (const Discard&) {
    o.st = DISCARDED;
  } catch (const std::exception& e) {
    o.st = FAILED;
    o.tag = "unexpected-exception";
    o.msg = std::string(e.what());
  }
  o.desc = c.desc.str();
  o.labels = c.labels;
  o.nontrivial = c.nontrivial;
  o.choices = s.choices();
  return o;
}

Outcome run_one(const Family& f, Src& s) {
  if (!g_mem) return run_plain(f, s);
  Outcome a;
  {
    Fill fill(0xff);
    a = run_plain(f, s);
  }
  if (a.st != FAILED) return a;
  Src again(a.choices);
  Outcome b;
  {
    Fill fill(0);
    b = run_plain(f, again);
  }
  if (b.st != a.st || b.tag != a.tag) {
    a.msg = "the outcome depends on what unwritten memory holds: " + a.tag + ": " + a.msg;
    a.tag = "uninitialised";
  } else {
    a.st = PASS;
    a.labels.push_back("other failure: " + a.tag);
  }
  return a;
}

// Length-prefixed pipe messages between a worker and the driver.
void put(std::string& b, const std::string& s) {
  uint32_t n = s.size();
  b.append((char*)&n, 4);
  b += s;
}
std::string get(const std::string& b, size_t& p) {
  uint32_t n;
  memcpy(&n, b.data() + p, 4);
  p += 4;
  std::string s = b.substr(p, n);
  p += n;
  return s;
}
void write_all(int fd, const std::string& b) {
  size_t o = 0;
  while (o < b.size()) {
    ssize_t n = write(fd, b.data() + o, b.size() - o);
    if (n <= 0) _exit(3);
    o += n;
  }
}
std::string pack(const Outcome& o) {
  std::string b;
  b += (char)o.st;
  b += (char)o.nontrivial;
  put(b, o.tag);
  put(b, o.msg);
  put(b, o.desc);
  std::string ch((char*)o.choices.data(), o.choices.size() * 8);
  put(b, ch);
  return b;
}
Outcome unpack(const std::string& b) {
  Outcome o;
  size_t p = 2;
  o.st = (Status)b[0];
  o.nontrivial = b[1];
  o.tag = get(b, p);
  o.msg = get(b, p);
  o.desc = get(b, p);
  std::string ch = get(b, p);
  o.choices.resize(ch.size() / 8);
  memcpy(o.choices.data(), ch.data(), ch.size());
  return o;
}
void quiet() {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (!getenv("VERIF_STDERR")) dup2(fd, 2);
  ::close(fd);
}
std::string signame(int st) {
  if (WIFSIGNALED(st)) return std::string("killed by signal ") + strsignal(WTERMSIG(st));
  return "exited with status " + std::to_string(WEXITSTATUS(st));
}

// Runs one case in a child, so that crashes and hangs are outcomes too.
Outcome run_forked(const Family& f, std::function<Src()> mk, bool silent = true) {
  int p[2];
  if (pipe(p)) abort();
  if (!g_rec)
    g_rec = (Rec*)mmap(0, sizeof(Rec), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_rec->n = 0;
  pid_t pid = fork();
  if (pid == 0) {
    ::close(p[0]);
    if (silent) quiet();
    Src s = mk();
    Outcome o = run_one(f, s);
    write_all(p[1], pack(o));
    _exit(0);
  }
  ::close(p[1]);
  std::string b;
  double end = now() + f.limit;
  bool hung = false;
  char buf[65536];
  while (true) {
    struct pollfd pf = {p[0], POLLIN, 0};
    double left = end - now();
    if (left <= 0) { hung = true; break; }
    int r = poll(&pf, 1, (int)std::ceil(left * 1000));
    if (r < 0) continue;
    if (r == 0) continue;
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n <= 0) break;
    b.append(buf, n);
  }
  ::close(p[0]);
  int st = 0;
  if (hung) kill(pid, SIGKILL);
  waitpid(pid, &st, 0);
  if (hung) {
    Outcome o;
    o.st = FAILED;
    o.tag = "no-termination";
    o.msg = "the case did not finish in " + num(f.limit) + " s";
    o.choices.assign(g_rec->v, g_rec->v + g_rec->n);
    return o;
  }
  if (b.size() < 2 || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    Outcome o;
    o.st = FAILED;
    o.tag = "crash";
    o.msg = "the process was " + signame(st);
    o.choices.assign(g_rec->v, g_rec->v + g_rec->n);
    return o;
  }
  return unpack(b);
}

struct Slot {  // one per worker, shared memory
  volatile int fam, idx;
  volatile double started;
  volatile long done;
};
}  // namespace

void fail(const std::string& tag, const std::string& msg) {
  throw Failure(tag, msg);
}

uint64_t Src::draw(uint64_t n) {
  uint64_t v;
  if (replay_) {
    v = out_.size() < in_.size() ? in_[out_.size()] : 0;
    if (n && v >= n) v = n - 1;
  } else {
    state_ += 0x9e3779b97f4a7c15ull;
    v = n ? mix(state_) % n : 0;
  }
  out_.push_back(v);
  if (g_rec && g_rec->n < (1u << 20)) {
    g_rec->v[g_rec->n] = v;
    g_rec->n = g_rec->n + 1;
  }
  return v;
}

namespace {
std::vector<uint64_t> shrink(const Family& f, std::vector<uint64_t> best,
                             const std::string& tag, double budget, long& tried) {
  double end = now() + budget;
  auto ok = [&](const std::vector<uint64_t>& c) {
    if (now() > end) return false;
    ++tried;
    Outcome o = run_forked(f, [&] { return Src(c); });
    return o.st == FAILED && o.tag == tag;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // drop tails (missing choices read as zero)
    for (size_t keep = 0; keep < best.size() && now() < end;
         keep = keep * 2 + 1) {
      std::vector<uint64_t> c(best.begin(), best.begin() + keep);
      if (ok(c)) { best = c; progress = true; break; }
    }
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
      for (size_t i = 0; i < best.size() && now() < end; i += blk) {
        size_t e = std::min(best.size(), i + blk);
        bool allz = true;
        for (size_t k = i; k < e; ++k) allz &= best[k] == 0;
        if (!allz) {
          std::vector<uint64_t> c = best;
          std::fill(c.begin() + i, c.begin() + e, 0);
          if (ok(c)) { best = c; progress = true; continue; }
        }
        if (blk <= 64) {
          std::vector<uint64_t> c = best;
          c.erase(c.begin() + i, c.begin() + e);
          if (ok(c)) { best = c; progress = true; }
        }
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() < end; ++i) {
      // Coarser, then smaller numbers: keep the top bits, then halve.
      uint64_t v = best[i];
      if (v < 2) continue;
      uint64_t top = 1;
      while (top * 2 <= v) top *= 2;
      for (uint64_t cand : {uint64_t(1), uint64_t(2), v / 4, v / 2, top, v - 1}) {
        if (cand >= best[i] || best[i] < 2) continue;
        std::vector<uint64_t> c = best;
        c[i] = cand;
        if (ok(c)) { best = c; progress = true; break; }
      }
    }
  }
  while (!best.empty() && best.back() == 0) best.pop_back();
  return best;
}

std::vector<std::pair<std::string, std::string>> known(const std::string& path,
                                                       const std::string& id) {
  // lines: KNOWN property=<id> family=<name> tag=<tag> :: text
  std::vector<std::pair<std::string, std::string>> v;
  std::ifstream in(path);
  std::string l;
  while (std::getline(in, l)) {
    std::string pre = "known: property=" + id + " tag=";
    if (l.compare(0, pre.size(), pre) == 0) {
      size_t e = l.find(" :: ");
      v.emplace_back(l.substr(pre.size(), e - pre.size()),
                     e == std::string::npos ? "" : l.substr(e + 4));
    }
  }
  return v;
}
}  // namespace

int Check::main(int argc, char** argv) {
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  std::string root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
  double cap = getenv("VERIF_CAP") ? atof(getenv("VERIF_CAP")) : 0;
  int nw = getenv("VERIF_JOBS") ? atoi(getenv("VERIF_JOBS")) : 8;
  double scale = getenv("VERIF_SCALE") ? atof(getenv("VERIF_SCALE")) : 1.;
  std::string replay, only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc) tier = argv[++i];
    else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--family" && i + 1 < argc) only = argv[++i];
    else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
    else if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10);
  }
  const std::string self = id_;
  if (getenv("VERIF_MEM")) {
    g_mem = true;
    id_ = getenv("VERIF_MEM");
    assumptions_.clear();
    for (auto& f : fams_) f.limit *= 10;
  }
  const std::string part = g_mem ? "-" + self : std::string();
  if (cap <= 0) cap = tier == "thorough" ? 600 : 75;
  signal(SIGPIPE, SIG_IGN);
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string l, fam;
    std::vector<uint64_t> ch;
    while (std::getline(in, l)) {
      if (l.compare(0, 7, "family ") == 0) fam = l.substr(7);
      if (l.compare(0, 8, "choices ") == 0) {
        std::istringstream s(l.substr(8));
        uint64_t v;
        while (s >> v) ch.push_back(v);
      }
    }
    for (auto& f : fams_)
      if (f.name == fam) {
        Outcome o = run_forked(f, [&] { return Src(ch); }, false);
        std::cout << o.desc << "\n";
        if (o.st == FAILED) {
          std::cout << "FAILED " << o.tag << ": " << o.msg << "\n";
          return 1;
        }
        std::cout << (o.st == PASS ? "passed" : "discarded") << "\n";
        return 0;
      }
    std::cerr << "no such family: " << fam << "\n";
    return 2;
  }

  double t0 = now();
  struct Stat {
    long run = 0, disc = 0, nontriv = 0;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
  };
  std::map<std::string, Stat> stats;
  std::unordered_set<uint64_t> distinct;
  struct Viol { int fam; std::string tag, msg, path, desc; long tried; };
  std::vector<Viol> viols;
  std::set<std::string> known_seen;
  auto kn = known(root + "/KNOWN_FINDINGS.txt", id_);
  bool truncated = false;

  // Jobs are interleaved over the families so that a cap never starves one.
  std::vector<std::pair<int, int>> jobs;
  {
    std::vector<int> cnt(fams_.size());
    int mx = 0;
    for (size_t i = 0; i < fams_.size(); ++i) {
      cnt[i] = std::max(1, (int)((tier == "thorough" ? fams_[i].thorough : fams_[i].quick) * scale));
      if (!only.empty() && fams_[i].name != only) cnt[i] = 0;
      mx = std::max(mx, cnt[i]);
    }
    std::vector<long> pos(fams_.size(), 0);
    for (int k = 0; k < mx; ++k)
      for (size_t i = 0; i < fams_.size(); ++i) {
        long want = (long)cnt[i] * (k + 1) / mx;
        while (pos[i] < want) jobs.emplace_back(i, pos[i]++);
      }
  }
  Slot* slots = (Slot*)mmap(0, sizeof(Slot) * nw, PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)slots, 0, sizeof(Slot) * nw);
  volatile int* stop = (volatile int*)mmap(0, 4096, PROT_READ | PROT_WRITE,
                                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto caseseed = [&](int f, int i) {
    return mix(mix(seed * 1000003ull + hash_str(self + "/" + fams_[f].name)) + (uint64_t)i);
  };
  std::string known_tags;
  for (auto& k : kn) known_tags += "\n" + k.first + "\n";

  struct Worker { pid_t pid; int fd; std::string buf; size_t next; bool live; };
  std::vector<Worker> ws(nw);
  auto spawn = [&](int w, size_t from) {
    int p[2];
    if (pipe(p)) abort();
    pid_t pid = fork();
    if (pid == 0) {
      ::close(p[0]);
      quiet();
      for (size_t j = from; j < jobs.size(); j += nw) {
        if (*stop || now() - t0 > cap) {
          std::string b = "T";
          std::string m;
          put(m, b);
          write_all(p[1], m);
          break;
        }
        slots[w].fam = jobs[j].first;
        slots[w].idx = (int)j;
        slots[w].started = now();
        Src s(caseseed(jobs[j].first, jobs[j].second));
        Outcome o = run_one(fams_[jobs[j].first], s);
        slots[w].done++;
        slots[w].started = 0;
        // message: 'C', job, status, nontrivial, hash, labels, [desc], [tag,msg]
        std::string b = "C";
        uint64_t jj = j, h = hash_vec(o.choices) ^ hash_str(fams_[jobs[j].first].name);
        b.append((char*)&jj, 8);
        b += (char)o.st;
        b += (char)o.nontrivial;
        b.append((char*)&h, 8);
        std::string lab;
        for (auto& l : o.labels) lab += l + "\n";
        put(b, lab);
        put(b, jobs[j].second < 4 || o.st == FAILED ? o.desc : std::string());
        put(b, o.tag);
        put(b, o.msg);
        std::string m;
        put(m, b);
        write_all(p[1], m);
        if (o.st == FAILED && known_tags.find("\n" + o.tag + "\n") == std::string::npos) *stop = 1;
      }
      _exit(0);
    }
    ::close(p[1]);
    ws[w].pid = pid;
    ws[w].fd = p[0];
    ws[w].buf.clear();
    ws[w].next = from;
    ws[w].live = true;
  };
  struct Bad { int fam; size_t job; std::string tag, msg; };
  std::vector<Bad> bad;
  auto consume = [&](int w) {
    std::string& b = ws[w].buf;
    size_t p = 0;
    while (b.size() - p >= 4) {
      uint32_t n;
      memcpy(&n, b.data() + p, 4);
      if (b.size() - p - 4 < n) break;
      std::string m = b.substr(p + 4, n);
      p += 4 + n;
      if (m[0] == 'T') { truncated = true; continue; }
      uint64_t j, h;
      memcpy(&j, m.data() + 1, 8);
      Status st = (Status)m[9];
      bool nt = m[10];
      memcpy(&h, m.data() + 11, 8);
      size_t q = 19;
      std::string lab = get(m, q), desc = get(m, q), tag = get(m, q), msg = get(m, q);
      ws[w].next = j + nw;
      const Family& f = fams_[jobs[j].first];
      Stat& s = stats[f.name];
      s.run++;
      if (st == DISCARDED) s.disc++;
      std::istringstream ls(lab);
      std::string l;
      while (std::getline(ls, l)) s.labels[l]++;
      if (nt && st != DISCARDED) {
        s.nontriv++;
        distinct.insert(h);
        if (s.samples.size() < 3 && !desc.empty()) s.samples.push_back(desc);
      }
      if (st == FAILED) bad.push_back(Bad{jobs[j].first, (size_t)j, tag, msg});
    }
    b.erase(0, p);
  };
  for (int w = 0; w < nw; ++w) spawn(w, w);
  while (true) {
    std::vector<struct pollfd> pf;
    std::vector<int> who;
    for (int w = 0; w < nw; ++w)
      if (ws[w].live) {
        pf.push_back({ws[w].fd, POLLIN, 0});
        who.push_back(w);
      }
    if (pf.empty()) break;
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < pf.size(); ++i) {
      int w = who[i];
      bool eof = false;
      if (pf[i].revents) {
        char buf[65536];
        ssize_t n = read(ws[w].fd, buf, sizeof buf);
        if (n > 0) {
          ws[w].buf.append(buf, n);
          consume(w);
        } else {
          eof = true;
        }
      }
      double st = slots[w].started;
      bool hung = st > 0 && now() - st > fams_[slots[w].fam].limit;
      if (hung && !eof) {
        kill(ws[w].pid, SIGKILL);
        while (true) {
          char buf[65536];
          ssize_t n = read(ws[w].fd, buf, sizeof buf);
          if (n <= 0) break;
          ws[w].buf.append(buf, n);
        }
        consume(w);
        eof = true;
      }
      if (eof) {
        int stt = 0;
        waitpid(ws[w].pid, &stt, 0);
        ::close(ws[w].fd);
        ws[w].live = false;
        bool crashed = hung || !(WIFEXITED(stt) && WEXITSTATUS(stt) == 0);
        if (crashed) {
          size_t j = slots[w].idx;
          bad.push_back(Bad{jobs[j].first, j, hung ? "no-termination" : "crash",
                            hung ? "" : signame(stt)});
          stats[fams_[jobs[j].first].name].run++;
          slots[w].started = 0;
          *stop = 1;
        }
      }
    }
  }

  // Confirm each distinct failure three times, shrink it, write the replay.
  std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) { return a.job < b.job; });
  std::set<std::string> done;
  std::string outdir = root + "/out";
  mkdir(outdir.c_str(), 0755);
  outdir += "/replay";
  mkdir(outdir.c_str(), 0755);
  int unconfirmed = 0;
  for (auto& b : bad) {
    std::string key = fams_[b.fam].name + "/" + b.tag;
    const Family& f = fams_[b.fam];
    bool is_known = false;
    for (auto& k : kn)
      if (k.first == b.tag) {
        known_seen.insert(b.tag);
        is_known = true;
      }
    if (is_known || done.count(key)) continue;
    if (viols.size() >= 3) break;
    uint64_t cs = caseseed(b.fam, jobs[b.job].second);
    Outcome first;
    int same = 0;
    for (int r = 0; r < 3; ++r) {
      Outcome o = run_forked(f, [&] { return Src(cs); });
      if (o.st == FAILED && o.tag == b.tag) {
        ++same;
        first = o;
      }
    }
    std::string stripe;
    if (same < 3) {
      // Perhaps it needs what earlier cases of the same worker left behind in
      // the process: repeat that worker's whole history.
      int w = b.job % nw, again = 0;
      for (int r = 0; r < 2; ++r) {
        Family h = f;
        h.limit = 300;
        h.fn = [&](Src& s, Case& c) {
          for (size_t j = w; j < b.job; j += nw) {
            Src t(caseseed(jobs[j].first, jobs[j].second));
            run_one(fams_[jobs[j].first], t);
          }
          f.fn(s, c);
        };
        Outcome o = run_forked(h, [&] { return Src(cs); });
        if (o.st == FAILED && (o.tag == b.tag || o.tag == "crash")) {
          ++again;
          first = o;
        } else {
          break;
        }
      }
      if (again < 2) {
        ++unconfirmed;
        std::cout << "note: unconfirmed (" << same << "/3) " << key << " " << b.msg << "\n";
        continue;
      }
      stripe = "history seed=" + std::to_string(seed) + " tier=" + tier + " worker=" +
               std::to_string(w) + "/" + std::to_string(nw) + " upto_job=" + std::to_string(b.job);
    }
    done.insert(key);
    std::vector<uint64_t> ch = first.choices;
    long tried = 0;
    if (stripe.empty() && b.tag != "no-termination") ch = shrink(f, ch, b.tag, 15., tried);
    Outcome fin = stripe.empty() && b.tag != "no-termination" ? run_forked(f, [&] { return Src(ch); }) : first;
    std::string path = outdir + "/" + id_ + part + "-" + f.name + "-" + std::to_string(viols.size()) + ".txt";
    std::ofstream o(path);
    o << "property " << id_ << "\nbinary " << self << "\nfamily " << f.name << "\ntag " << b.tag << "\n";
    if (!stripe.empty()) o << stripe << "\n";
    o << "choices";
    for (uint64_t c : ch) o << " " << c;
    o << "\nmessage " << esc(fin.msg.empty() ? b.msg : fin.msg) << "\ncase " << esc(fin.desc) << "\n"
      << "rerun " << "bash /verif/run.sh " << id_ << " replay " << path << "\n";
    o.close();
    viols.push_back(Viol{b.fam, b.tag, fin.msg.empty() ? b.msg : fin.msg, path, fin.desc, tried});
  }

  // Evidence.
  long evals = 0;
  for (auto& s : stats) evals += s.second.run - s.second.disc;
  std::string ev = root + "/evidence";
  mkdir(ev.c_str(), 0755);
  std::ofstream e(g_mem ? root + "/out/" + id_ + part + ".json" : ev + "/" + id_ + ".json");
  e << "{\n \"property\": \"" << id_ << "\",\n \"tier\": \"" << tier
    << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
    << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size()
    << ",\n  \"rule\": \"" << esc(rule_) << "\",\n  \"samples\": [";
  bool first = true;
  for (auto& f : fams_) {
    for (auto& s : stats[f.name].samples) {
      e << (first ? "" : ",") << "\n   \"" << esc(f.name + ": " + s.substr(0, 600)) << "\"";
      first = false;
    }
  }
  e << "\n  ],\n  \"families\": {";
  first = true;
  for (auto& f : fams_) {
    Stat& s = stats[f.name];
    e << (first ? "" : ",") << "\n   \"" << esc(f.name) << "\": {\"run\": " << s.run
      << ", \"discarded\": " << s.disc << ", \"nontrivial\": " << s.nontriv << ", \"classes\": {";
    bool g = true;
    for (auto& l : s.labels) {
      e << (g ? "" : ", ") << "\"" << esc(l.first) << "\": " << l.second;
      g = false;
    }
    e << "}}";
    first = false;
  }
  e << "\n  },\n  \"truncated_by_time_cap\": " << (truncated && viols.empty() ? "true" : "false")
    << ",\n  \"unconfirmed\": " << unconfirmed << "\n },\n \"assumptions\": [";
  first = true;
  for (auto& a : assumptions_) {
    e << (first ? "" : ", ") << "\n  \"" << esc(a) << "\"";
    first = false;
  }
  e << "\n ],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << viols.size() << "\n}\n";
  e.close();

  for (auto& f : fams_) {
    Stat& s = stats[f.name];
    std::cout << id_ << " " << f.name << ": " << s.run << " cases, " << s.nontriv
              << " non-trivial, " << s.disc << " discarded\n";
  }
  std::cout << id_ << ": " << distinct.size() << " distinct non-trivial, " << now() - t0 << " s"
            << (truncated && viols.empty() ? " (time cap reached)" : "") << "\n";
  for (auto& k : kn)
    if (known_seen.count(k.first))
      std::cout << "KNOWN-FINDING: property=" << id_ << " " << k.first << " " << k.second << "\n";
  for (auto& v : viols) {
    std::cout << "[" << fams_[v.fam].name << "] " << v.tag << ": " << v.msg << "\n  case: " << v.desc
              << "\n  (shrunk with " << v.tried << " runs)\n";
    std::cout << "VIOLATION property=" << id_ << " replay=" << v.path << "\n";
  }
  std::cout.flush();
  return viols.empty() ? 0 : 1;
}

}  // namespace vf
