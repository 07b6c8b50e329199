// The runner. See pbt.hpp.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <typeinfo>
#include "pbt.hpp"

namespace pbt {
Faults faults;
NewStats news;

static std::string g_note;
static bool g_has_note = false;

void fail(std::string msg) {
  disarm();
  throw Failure{std::move(msg)};
}
void note_error(std::string const& msg) {
  if (!g_has_note) {
    g_has_note = true;
    g_note = msg;
  }
}
bool has_note() { return g_has_note; }
void clear_notes() {
  g_has_note = false;
  g_note.clear();
}
void checkpoint() {
  if (g_has_note) {
    std::string m = g_note;
    clear_notes();
    fail(m);
  }
}

static std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}
Register::Register(Suite s) { suites().push_back(std::move(s)); }

// ---- memory shared between the workers ----
struct Label {
  std::atomic<u32> used;
  char name[60];
  std::atomic<u64> count;
};
constexpr int max_labels = 400;
struct Shared {
  std::atomic<u64> next;
  std::atomic<u64> min_fail;
  std::atomic<u64> done;
  std::atomic<u64> slowest;  // CPU microseconds of the slowest case
  std::atomic<u32> label_lock;
  std::atomic<u64> current[64];
  Label labels[max_labels];
};
static Shared* sh = nullptr;
static u64* hashes = nullptr;  // per case: hash if non-trivial, else 0
static bool g_nontrivial = false;
static bool g_count_labels = true;

void nontrivial() { g_nontrivial = true; }

void label(char const* name, u64 by) {
  if (!g_count_labels) return;
  struct Keep {  // the registry's own memory does not count
    NewStats was = news;
    ~Keep() { news = was; }
  } keep;
  static std::map<std::string, Label*> cache;
  auto it = cache.find(name);
  if (it == cache.end()) {
    while (sh->label_lock.exchange(1)) usleep(10);
    Label* l = nullptr;
    for (int i = 0; i != max_labels; ++i) {
      auto& x = sh->labels[i];
      if (!x.used) {
        std::strncpy(x.name, name, sizeof x.name - 1);
        x.used = 1;
        l = &x;
        break;
      }
      if (!std::strncmp(x.name, name, sizeof x.name - 1)) {
        l = &x;
        break;
      }
    }
    sh->label_lock = 0;
    it = cache.emplace(name, l).first;
  }
  if (it->second) it->second->count += by;
}

static u64 hash_str(std::string const& s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
static u64 hash_case(std::string const& suite, Case const& c) {
  u64 h = hash_str(suite);
  auto mix = [&](u64 v) { h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; };
  for (auto x : c.cfg) mix(x);
  for (auto const& o : c.ops) mix(o.code), mix(o.s), mix(o.p), mix(o.n), mix(o.v);
  return h ? h : 1;
}

static u64 g_seed = 1;
static bool g_thorough = false;

static Case make_case(Suite const& s, u64 idx) {
  Rng a(g_seed * 0x9e3779b97f4a7c15ULL + 12345);
  Rng rng(a.next() ^ hash_str(s.name) ^ (idx * 0xd1342543de82ef95ULL + 77));
  rng.next();
  return s.gen(rng, idx, g_thorough);
}

// Runs a case in this process. Returns "" or the failure.
static std::string run_case(Suite const& s, Case const& c) {
  clear_notes();
  faults = Faults{};
  news.nothrow_fails = false;
  g_nontrivial = false;
  try {
    s.run(c);
    disarm();
    checkpoint();
  } catch (Failure const& f) {
    disarm();
    return f.msg.empty() ? "failure" : f.msg;
  } catch (Injected const& i) {
    disarm();
    return "injected fault of kind " + std::to_string(i.kind) +
           " escaped unexpectedly";
  } catch (std::exception const& e) {
    disarm();
    return std::string("unexpected exception ") + typeid(e).name() + ": " +
           e.what();
  } catch (...) {
    disarm();
    return "unexpected exception";
  }
  return "";
}

constexpr int exit_fail = 41, exit_hang = 42;
// Ordinary cases take milliseconds, the largest about a second; suites of
// heavy ones have a larger limit.
constexpr int case_cpu = 60;
constexpr char const* hang_text =
    "does not terminate (CPU limit of a case exceeded)";

static void on_alarm(int) { _exit(exit_hang); }
static void set_cpu_limit(int seconds) {
  struct itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static void child_init(char const* errfile) {
  std::signal(SIGPROF, on_alarm);
  int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  // a stack that cannot eat the machine
  rl.rlim_cur = rl.rlim_max = 64u << 20;
  setrlimit(RLIMIT_STACK, &rl);
}

static std::string summarize(std::string const& err) {
  // the interesting lines of a sanitizer report
  std::istringstream in(err);
  std::string line, out;
  int n = 0;
  while (std::getline(in, line)) {
    if (line.find("ERROR:") != std::string::npos ||
        line.find("runtime error") != std::string::npos ||
        line.find("SUMMARY") != std::string::npos ||
        line.find("terminate called") != std::string::npos ||
        line.find("FAIL:") != std::string::npos) {
      out += line + " | ";
      if (++n == 4) break;
    }
  }
  return out;
}
static std::string slurp(std::string const& f) {
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
static std::string g_tmp;

static std::string describe_exit(int st, std::string const& err) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFEXITED(st) && WEXITSTATUS(st) == exit_hang)
    return hang_text;
  std::string s = summarize(err);
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == exit_fail && !s.empty()) return s;
    return "exit status " + std::to_string(WEXITSTATUS(st)) + " " + s;
  }
  if (WIFSIGNALED(st))
    return "killed by signal " + std::to_string(WTERMSIG(st)) + " " + s;
  return "ended strangely";
}

// Runs a case in a forked child. Returns "" or the failure.
static std::string run_forked(Suite const& s, Case const& c, int cpu) {
  std::string errfile = g_tmp + "/err.single";
  pid_t p = fork();
  if (p < 0) return "";  // cannot tell
  if (p == 0) {
    child_init(errfile.c_str());
    g_count_labels = false;
    set_cpu_limit(cpu);
    std::string m = run_case(s, c);
    if (m.empty()) _exit(0);
    std::string o = "FAIL: " + m + "\n";
    if (write(2, o.data(), o.size()) < 0) _exit(exit_fail);
    _exit(exit_fail);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  return describe_exit(st, slurp(errfile));
}

static u64 cpu_us() {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return static_cast<u64>(t.tv_sec) * 1000000u +
         static_cast<u64>(t.tv_nsec) / 1000u;
}
static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

static Case shrink(Suite const& s, Case c, int cpu) {
  double limit = now() + 60;
  int runs = 0;
  auto fails = [&](Case const& x) {
    if (now() > limit || runs > 4000) return false;
    ++runs;
    return !run_forked(s, x, cpu).empty();
  };
  bool again = true;
  while (again && now() < limit && runs <= 4000) {
    again = false;
    for (std::size_t chunk = std::max<std::size_t>(c.ops.size() / 2, 1);;
         chunk /= 2) {
      for (std::size_t i = 0; i < c.ops.size();) {
        Case x = c;
        auto e = std::min(c.ops.size(), i + chunk);
        x.ops.erase(x.ops.begin() + static_cast<long>(i),
                    x.ops.begin() + static_cast<long>(e));
        if (fails(x)) {
          c = x;
          again = true;
        } else
          i += chunk;
      }
      if (chunk <= 1) break;
    }
    for (std::size_t i = 0; i != c.ops.size(); ++i) {
      for (int f = 0; f != 4; ++f) {
        auto get = [&](Case& x) -> u32& {
          Op& o = x.ops[i];
          return f == 0 ? o.s : f == 1 ? o.p : f == 2 ? o.n : o.v;
        };
        u32 cur = get(c);
        for (u32 cand : {u32(0), u32(1), cur % 16, cur / 65536, cur / 16,
                         cur / 2, cur - 1}) {
          if (cand >= cur) continue;
          Case x = c;
          get(x) = cand;
          if (fails(x)) {
            c = x;
            again = true;
            break;
          }
        }
      }
    }
    for (int f = 0; f != 4; ++f)
      for (u32 cand : {u32(0), u32(1), c.cfg[f] / 2}) {
        if (cand >= c.cfg[f]) continue;
        Case x = c;
        x.cfg[f] = cand;
        if (fails(x)) {
          c = x;
          again = true;
          break;
        }
      }
  }
  return c;
}

static std::string case_text(Suite const& s, Case const& c,
                             std::size_t max_ops) {
  std::ostringstream o;
  o << "suite " << s.name << "\n";
  o << "cfg " << c.cfg[0] << " " << c.cfg[1] << " " << c.cfg[2] << " "
    << c.cfg[3] << "\n";
  std::size_t n = 0;
  for (auto const& op : c.ops) {
    if (n++ == max_ops) {
      o << "# ... " << c.ops.size() << " ops in all\n";
      break;
    }
    char const* nm = op.code < s.opnames.size() ? s.opnames[op.code] : "op";
    o << "op " << op.code << " " << op.s << " " << op.p << " " << op.n << " "
      << op.v << " # " << nm << "\n";
  }
  return o.str();
}

static bool parse_case(std::string const& text, std::string& suite, Case& c) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "suite")
      std::getline(l >> std::ws, suite);
    else if (w == "cfg")
      l >> c.cfg[0] >> c.cfg[1] >> c.cfg[2] >> c.cfg[3];
    else if (w == "op") {
      Op o;
      if (l >> o.code >> o.s >> o.p >> o.n >> o.v) c.ops.push_back(o);
    }
  }
  return !suite.empty();
}

static std::string json_str(std::string const& s) {
  std::string o = "\"";
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\')
      (o += '\\') += ch;
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}
}  // namespace pbt

// ---- global operator new: counted, and filled with a pattern ----
#ifndef PBT_THREADS  // the counters would be data races
static void* counted_new(std::size_t n) {
  ++pbt::news.calls;
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++pbt::news.live;
  std::memset(p, 0xA5, n);
  return p;
}
void* operator new(std::size_t n) { return counted_new(n); }
void* operator new[](std::size_t n) { return counted_new(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
  if (pbt::news.nothrow_fails) return nullptr;
  try {
    return counted_new(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept {
  if (pbt::news.nothrow_fails) return nullptr;
  try {
    return counted_new(n);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void* p) noexcept {
  if (p) --pbt::news.live;
  std::free(p);
}
void operator delete[](void* p) noexcept {
  if (p) --pbt::news.live;
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete[](p); }
void operator delete(void* p, std::nothrow_t const&) noexcept {
  operator delete(p);
}
void operator delete[](void* p, std::nothrow_t const&) noexcept {
  operator delete[](p);
}
#endif

int main(int argc, char** argv) {
  using namespace pbt;
  std::string result, replay, replay_out, only;
  double cap = 700;
  double scale = 1;
  int workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      g_seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough")
      g_thorough = true;
    else if (a == "--result")
      result = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--replay-out")
      replay_out = val();
    else if (a == "--tmp")
      g_tmp = val();
    else if (a == "--cap")
      cap = std::atof(val().c_str());
    else if (a == "--scale")
      scale = std::atof(val().c_str());
    else if (a == "--workers")
      workers = std::atoi(val().c_str());
    else if (a == "--only")
      only = val();
  }
  if (g_tmp.empty()) g_tmp = ".";
  workers = std::max(1, std::min(workers, 64));

  auto& all = suites();
  std::stable_sort(all.begin(), all.end(), [](Suite const& a, Suite const& b) {
    if (a.priority != b.priority) return a.priority > b.priority;
    return a.name < b.name;
  });
  auto find_suite = [&](std::string const& n) -> Suite const* {
    for (auto const& s : all)
      if (s.name == n) return &s;
    return nullptr;
  };

  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                 PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) return 3;
  sh->min_fail = ~u64(0);

  double replay_scale = scale;
  u64 seq_from = 0, seq_to = 0;
  bool seq = false;
  if (!replay.empty()) {
    std::istringstream in(slurp(replay));
    std::string line, w;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      if (l >> w && w == "sequence") {
        int th = 0;
        l >> g_seed >> th >> replay_scale >> seq_from >> seq_to;
        g_thorough = th;
        scale = replay_scale;
        seq = true;
      }
    }
  }
  if (!replay.empty() && !seq) {
    std::string sn;
    Case c;
    if (!parse_case(slurp(replay), sn, c)) return 3;
    auto s = find_suite(sn);
    if (!s) {
      std::cerr << "no suite " << sn << "\n";
      return 3;
    }
    std::string m = run_forked(*s, c, s->cpu);
    if (m.empty()) {
      std::cout << "REPLAY holds\n";
      return 0;
    }
    std::cout << "REPLAY fails: " << m << "\n";
    return 1;
  }

  std::vector<std::pair<Suite const*, u64>> starts;  // suite, first index
  u64 total = 0;
  for (auto const& s : all) {
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    if (!(g_thorough ? s.thorough : s.quick)) continue;  // for replays only
    starts.emplace_back(&s, total);
    double n = static_cast<double>(g_thorough ? s.thorough : s.quick) *
               (s.fixed ? std::min(scale, 1.0) : scale);
    total += std::max<u64>(static_cast<u64>(n), 1);
  }
  auto locate = [&](u64 idx, u64& local) {
    std::size_t k = starts.size();
    while (starts[--k].second > idx) {
    }
    local = idx - starts[k].second;
    return starts[k].first;
  };
  hashes = static_cast<u64*>(mmap(nullptr, total * 8 + 8,
                                  PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (hashes == MAP_FAILED) return 3;

  // Runs the cases [from, to] one after another in one process: a failure that
  // needs what earlier cases left behind (static state).
  auto run_sequence = [&](u64 from, u64 to) -> std::string {
    std::string errfile = g_tmp + "/err.seq";
    pid_t p = fork();
    if (p < 0) return "";
    if (p == 0) {
      child_init(errfile.c_str());
      g_count_labels = false;
      for (u64 i = from; i <= to && i < total; ++i) {
        u64 local;
        Suite const* s = locate(i, local);
        set_cpu_limit(s->cpu);
        std::string m = run_case(*s, make_case(*s, local));
        if (!m.empty()) {
          std::string o = "FAIL: " + m + "\n";
          if (write(2, o.data(), o.size()) < 0) _exit(exit_fail);
          _exit(exit_fail);
        }
      }
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    return describe_exit(st, slurp(errfile));
  };
  if (seq) {
    std::string m = run_sequence(seq_from, seq_to);
    std::cout << (m.empty() ? "REPLAY holds" : "REPLAY fails: " + m) << "\n";
    return m.empty() ? 0 : 1;
  }

  double t0 = now();
  std::vector<pid_t> pids;
  for (int w = 0; w != workers; ++w) {
    sh->current[w] = ~u64(0);
    pid_t p = fork();
    if (p < 0) {
      std::cerr << "fork failed\n";
      break;
    }
    if (p == 0) {
      child_init((g_tmp + "/err." + std::to_string(w)).c_str());
      while (true) {
        if (sh->min_fail.load() != ~u64(0)) _exit(0);
        if (now() - t0 > cap) _exit(0);
        u64 idx = sh->next.fetch_add(1);
        if (idx >= total) _exit(0);
        sh->current[w] = idx;
        u64 local;
        Suite const* s = locate(idx, local);
        Case c = make_case(*s, local);
        set_cpu_limit(s->cpu);
        u64 t = cpu_us();
        std::string m = run_case(*s, c);
        t = cpu_us() - t;
        u64 slow = sh->slowest.load();
        while (t > slow && !sh->slowest.compare_exchange_weak(slow, t)) {
        }
        if (!m.empty()) {
          u64 cur = sh->min_fail.load();
          while (idx < cur && !sh->min_fail.compare_exchange_weak(cur, idx)) {
          }
        }
        if (g_nontrivial) hashes[idx] = hash_case(s->name, c);
        sh->done.fetch_add(1);
        sh->current[w] = ~u64(0);
      }
    }
    pids.push_back(p);
  }
  if (pids.empty()) return 3;
  std::size_t left = pids.size();
  while (left) {
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    for (std::size_t w = 0; w != pids.size(); ++w)
      if (pids[w] == p) {
        --left;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          u64 idx = sh->current[w];
          if (idx != ~u64(0)) {
            u64 cur = sh->min_fail.load();
            while (idx < cur && !sh->min_fail.compare_exchange_weak(cur, idx)) {
            }
          }
        }
      }
  }

  int rc = 0;
  std::string fail_msg, fail_suite;
  if (sh->min_fail.load() != ~u64(0)) {
    u64 local;
    Suite const* s = locate(sh->min_fail, local);
    Case c = make_case(*s, local);
    // a failure counts when it comes back from the case alone, three times
    std::string m;
    bool solid = true;
    int const times = s->cpu > case_cpu ? 1 : 3;
    for (int i = 0; i != times && solid; ++i) {
      m = run_forked(*s, c, s->cpu);
      solid = !m.empty();
      if (m == hang_text && i) break;  // twice will do
    }
    if (solid) {
      bool hang = m == hang_text;
      Case small = c;
      if (!hang || times == 3) small = shrink(*s, c, hang ? 8 : s->cpu / 2);
      std::string m2;
      bool ok = true;
      for (int i = 0; i != times && ok; ++i) {
        m2 = run_forked(*s, small, s->cpu);
        ok = !m2.empty();
        if (m2 == hang_text) break;
      }
      if (!ok) {
        small = c;
        m2 = m;
      }
      fail_msg = m2;
      fail_suite = s->name;
      std::ofstream(replay_out) << "# " << m2 << "\n"
                                << case_text(*s, small, ~std::size_t(0));
      std::cout << "FAILED suite=" << s->name << " case=" << local << " "
                << m2 << "\n";
      std::cout << case_text(*s, small, 60);
      rc = 1;
    } else {
      u64 idx = sh->min_fail;
      for (u64 back : {u64(20), u64(200), u64(2000)}) {
        u64 from = idx > back ? idx - back : 0;
        bool ok = true;
        for (int i = 0; i != 3 && ok; ++i) {
          m = run_sequence(from, idx);
          ok = !m.empty();
        }
        if (ok) {
          fail_msg = m;
          fail_suite = s->name;
          std::ofstream(replay_out)
              << "# " << m << "\n# cases run one after another\nsequence "
              << g_seed << " " << int(g_thorough) << " " << scale << " " << from
              << " " << idx << "\n";
          std::cout << "FAILED in a sequence of cases: " << m << "\n";
          rc = 1;
          break;
        }
      }
    }
    if (!rc) {
      std::cout << "NOTE: case " << local << " of " << s->name
                << " failed once and not on replay; not counted\n";
      rc = 4;
    }
  }
  std::vector<u64> hs;
  for (u64 i = 0; i != total; ++i)
    if (hashes[i]) hs.push_back(hashes[i]);
  std::sort(hs.begin(), hs.end());
  hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

  if (!result.empty()) {
    std::ofstream o(result);
    o << "{\n\"planned\": " << total << ",\n\"evaluations\": " << sh->done
      << ",\n\"distinct_nontrivial\": " << hs.size()
      << ",\n\"wall_s\": " << now() - t0
      << ",\n\"slowest_case_cpu_ms\": " << sh->slowest / 1000
      << ",\n\"failed\": " << json_str(fail_msg)
      << ",\n\"fail_suite\": " << json_str(fail_suite)
      << ",\n\"rule\": " << json_str(rule) << ",\n\"suites\": {";
    bool first = true;
    for (std::size_t k = 0; k != starts.size(); ++k) {
      u64 e = k + 1 != starts.size() ? starts[k + 1].second : total;
      o << (first ? "" : ", ") << json_str(starts[k].first->name) << ": "
        << e - starts[k].second;
      first = false;
    }
    o << "},\n\"events\": {";
    first = true;
    std::map<std::string, u64> ls;
    for (int i = 0; i != max_labels; ++i)
      if (sh->labels[i].used) ls[sh->labels[i].name] += sh->labels[i].count;
    for (auto const& l : ls) {
      o << (first ? "" : ", ") << json_str(l.first) << ": " << l.second;
      first = false;
    }
    o << "},\n\"samples\": [";
    // the first non-trivial case of the first, the middle and the last suite
    first = true;
    std::vector<std::size_t> ks{0, starts.size() / 2, starts.size() - 1};
    ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    for (auto k : ks) {
      u64 b = starts[k].second;
      u64 e = k + 1 != starts.size() ? starts[k + 1].second : total;
      for (u64 i = b; i != e; ++i)
        if (hashes[i]) {
          o << (first ? "" : ", ")
            << json_str(case_text(*starts[k].first,
                                  make_case(*starts[k].first, i - b), 25));
          first = false;
          break;
        }
    }
    o << "]\n}\n";
  }
  return rc;
}
