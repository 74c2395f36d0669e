// Bounded-exhaustive explorer.
//
// A harness registers spaces.  A space is a finite, indexed set of cases; the explorer runs *every*
// index of every space on the real code, in forked workers.  The case being run is kept in shared
// memory, so an unexpected exit (failed assertion, sanitizer report, signal, uncaught exception,
// hang) is attributed to its case and the exploration continues with the next one.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int
__sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                          void (*)(const volatile void *))
    __attribute__((weak));

namespace mc
{
using u64 = uint64_t;

struct Space {
  std::string name;
  u64 n;
  std::function<void(u64)> fn;
};

struct Failure {
  char space[64];
  char label[96];
  char msg[768];
  u64 idx;
};

inline constexpr int max_workers = 64;
inline constexpr int max_failures = 4096;
inline constexpr int max_per_label = 48; // stored failures per relation of a space
inline constexpr int num_labels = 4096;
inline constexpr int max_samples = 64;
inline constexpr u64 set_size = u64(1) << 27; // slots of the distinct-state table

struct Worker {
  std::atomic<u64> cur;   // case being run
  std::atomic<u64> end;   // end of the claimed chunk
  std::atomic<u64> beat;  // completed cases
  std::atomic<int> done;
  std::atomic<int> busy;
};

struct Shared {
  std::atomic<u64> next;
  std::atomic<u64> transitions, traces, evaluations, nontrivial, states;
  std::atomic<u64> nfail, nstored, nsample, table_full;
  std::atomic<u64> stop; // set once there is a failure and no time left
  std::atomic<u64> label_key[num_labels], label_count[num_labels];
  Worker w[max_workers];
  Failure fail[max_failures];
  char sample[max_samples][512];
};

inline Shared * sh = nullptr;
inline std::atomic<u64> * table = nullptr;
inline std::vector<Space> spaces;
inline std::string cur_space;
inline int my_worker = -1;
inline bool thorough_ = false;
inline bool replay_ = false;
inline std::string scratch_; // scratch directory private to the run (exists)
inline int wlog = -1;

inline bool
thorough()
{
  return thorough_;
}

inline u64
pick(u64 quick, u64 thorough)
{
  return thorough_ ? thorough : quick;
}

inline void
space(std::string name, u64 n, std::function<void(u64)> fn)
{
  spaces.push_back({std::move(name), n, std::move(fn)});
}

inline u64
mix(u64 h)
{
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL;
  h ^= h >> 33;
  return h;
}

inline u64
hash(u64 a, u64 b)
{
  return mix(a * 0x9e3779b97f4a7c15ULL + mix(b + 0x7f4a7c159e3779b9ULL));
}

inline u64
hashBytes(void const * p, size_t n, u64 h = 1469598103934665603ULL)
{
  auto const * c = static_cast<unsigned char const *>(p);
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ULL;
  }
  return mix(h);
}

inline u64
hashStr(std::string const & s, u64 h = 0)
{
  return hash(h, hashBytes(s.data(), s.size()));
}

// Record an abstract state; returns true if it was not seen before in this run.
inline bool
state(u64 h)
{
  h = mix(h ^ hashBytes(cur_space.data(), cur_space.size()));
  if (h == 0) {
    h = 1;
  }
  u64 i = h & (set_size - 1);
  for (int probe = 0; probe < 4096; ++probe) {
    u64 expect = 0;
    u64 const v = table[i].load(std::memory_order_relaxed);
    if (v == h) {
      return false;
    }
    if (v == 0) {
      if (table[i].compare_exchange_strong(expect, h)) {
        sh->states.fetch_add(1, std::memory_order_relaxed);
        return true;
      }
      if (expect == h) {
        return false;
      }
    }
    i = (i + 1) & (set_size - 1);
  }
  sh->table_full.store(1);
  return true;
}

inline void
transition(u64 n = 1)
{
  sh->transitions.fetch_add(n, std::memory_order_relaxed);
}

// One history/case driven to its end on the implementation and compared throughout.
inline void
trace(u64 n = 1)
{
  sh->traces.fetch_add(n, std::memory_order_relaxed);
}

inline std::string
fmt(char const * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string
fmt(char const * f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

inline void
sample(std::string const & s)
{
  static int mine = 0;
  static std::string last;
  if (last != cur_space) {
    last = cur_space;
    mine = 0;
  }
  if (mine >= 1 || (my_worker >= 0 && my_worker > 1)) {
    return;
  }
  ++mine;
  u64 const k = sh->nsample.fetch_add(1);
  if (k < max_samples) {
    snprintf(sh->sample[k], sizeof sh->sample[k], "%s: %s", cur_space.c_str(), s.c_str());
  }
}

inline void
recordFailure(std::string const & label, std::string const & msg, u64 idx)
{
  sh->nfail.fetch_add(1);
  u64 const key = mix(hashStr(cur_space + "|" + label)) | 1;
  u64 slot = key % num_labels;
  for (int i = 0; i < num_labels; ++i, slot = (slot + 1) % num_labels) {
    u64 expect = 0;
    if (sh->label_key[slot].load() == key || sh->label_key[slot].compare_exchange_strong(expect, key) ||
        expect == key) {
      break;
    }
  }
  if (sh->label_count[slot].fetch_add(1) >= max_per_label) {
    return;
  }
  u64 const k = sh->nstored.fetch_add(1);
  if (replay_) {
    printf("FAIL %s [%s] case %llu: %s\n", cur_space.c_str(), label.c_str(),
           static_cast<unsigned long long>(idx), msg.c_str());
    fflush(stdout);
  }
  if (k < max_failures) {
    Failure & f = sh->fail[k];
    snprintf(f.space, sizeof f.space, "%s", cur_space.c_str());
    snprintf(f.label, sizeof f.label, "%s", label.c_str());
    snprintf(f.msg, sizeof f.msg, "%s", msg.c_str());
    f.idx = idx;
  }
}

inline u64 cur_idx = 0;

// Property violated in the current case.  `label` names the relation that failed.
inline void
fail(std::string const & label, std::string const & msg)
{
  recordFailure(label, msg, cur_idx);
}

#define MC_CHECK(cond, label, ...)                                                       \
  do {                                                                                   \
    if (!(cond)) {                                                                       \
      mc::fail(label, mc::fmt(__VA_ARGS__));                                             \
    }                                                                                    \
  } while (0)

// As MC_CHECK, but leaves the current function
#define MC_REQUIRE(cond, label, ...)                                                     \
  do {                                                                                   \
    if (!(cond)) {                                                                       \
      mc::fail(label, mc::fmt(__VA_ARGS__));                                             \
      return;                                                                            \
    }                                                                                    \
  } while (0)

// Bytes written so far to this worker's stderr/stdout (both go to one private file).
inline u64
outputSize()
{
  fflush(stdout);
  fflush(stderr);
  struct stat st;
  if (fstat(2, &st) != 0) {
    return 0;
  }
  return static_cast<u64>(st.st_size);
}

inline std::string
outputFrom(u64 from)
{
  fflush(stdout);
  fflush(stderr);
  std::string r;
  if (wlog < 0) {
    return r;
  }
  u64 const n = outputSize();
  if (n > from) {
    r.resize(n - from);
    ssize_t const got = pread(wlog, r.data(), r.size(), static_cast<off_t>(from));
    r.resize(got > 0 ? static_cast<size_t>(got) : 0);
  }
  return r;
}

// Heap blocks currently live (only meaningful in sanitizer builds)
inline std::atomic<int64_t> live_blocks{0};
inline void
onMalloc(const volatile void *, size_t)
{
  live_blocks.fetch_add(1, std::memory_order_relaxed);
}
inline void
onFree(const volatile void * p)
{
  if (p != nullptr) {
    live_blocks.fetch_sub(1, std::memory_order_relaxed);
  }
}

inline std::string
scratch()
{
  return scratch_ + "/w" + std::to_string(my_worker < 0 ? 0 : my_worker);
}

// Mixed radix decoding of a case index.
struct Dec {
  u64 v;
  explicit Dec(u64 x) : v(x) {}
  u64
  get(u64 n)
  {
    u64 const r = v % n;
    v /= n;
    return r;
  }
  int
  geti(int n)
  {
    return static_cast<int>(get(static_cast<u64>(n)));
  }
};

inline u64
ipow(u64 b, u64 e)
{
  u64 r = 1;
  while (e-- > 0) {
    r *= b;
  }
  return r;
}

inline void
runCase(Space const & s, u64 idx)
{
  cur_idx = idx;
  try {
    s.fn(idx);
  } catch (std::exception const & e) {
    recordFailure("exception", std::string("uncaught exception: ") + e.what(), idx);
  } catch (...) {
    recordFailure("exception", "uncaught exception", idx);
  }
}

// A forked process ends with its parent and leaves no core file
inline void
tame()
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit const none = {0, 0};
  setrlimit(RLIMIT_CORE, &none);
}

// Run f in a process of its own and return its wait status.  Control never leaves the child: a
// return or an exception of f ends it there.
template <typename F>
inline int
inChild(F const & f, unsigned seconds = 60)
{
  fflush(nullptr);
  pid_t const pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(71);
  }
  if (pid == 0) {
    tame();
    alarm(seconds);
    int code = 0;
    try {
      code = f();
    } catch (...) {
      fprintf(stderr, "uncaught exception\n");
      code = 134;
    }
    fflush(nullptr);
    _exit(code);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  return st;
}

inline void
workerMain(Space const & s, int w, u64 chunk)
{
  tame();
  my_worker = w;
  Worker & W = sh->w[w];
  std::string const logf = scratch_ + "/log" + std::to_string(w);
  int const fd = open(logf.c_str(), O_RDWR | O_CREAT | O_APPEND | O_TRUNC, 0644);
  if (fd >= 0) {
    fflush(stdout);
    fflush(stderr);
    dup2(fd, 1);
    dup2(fd, 2);
    wlog = fd;
  }
  mkdir(scratch().c_str(), 0755);
  u64 i = W.cur.load();
  u64 e = W.end.load();
  while (sh->stop.load(std::memory_order_relaxed) == 0) {
    if (i >= e) {
      i = sh->next.fetch_add(chunk);
      if (i >= s.n) {
        break;
      }
      e = i + chunk < s.n ? i + chunk : s.n;
      W.end.store(e);
      if (wlog >= 0 && outputSize() > (u64(4) << 20)) {
        if (ftruncate(wlog, 0) != 0) {
        }
      }
    }
    W.cur.store(i, std::memory_order_relaxed);
    W.busy.store(1, std::memory_order_relaxed);
    runCase(s, i);
    W.busy.store(0, std::memory_order_relaxed);
    W.beat.fetch_add(1, std::memory_order_relaxed);
    ++i;
  }
  W.done.store(1);
  fflush(stdout);
  fflush(stderr);
  _exit(0);
}

inline std::string
tail(std::string const & path, int status)
{
  std::string txt;
  if (FILE * f = fopen(path.c_str(), "rb")) {
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    long const from = n > 16384 ? n - 16384 : 0;
    fseek(f, from, SEEK_SET);
    txt.resize(static_cast<size_t>(n - from));
    size_t const got = fread(txt.data(), 1, txt.size(), f);
    txt.resize(got);
    fclose(f);
  }
  for (char const * k : {"ERROR: AddressSanitizer", "runtime error:", "Assertion failed", "terminate called",
                         "ERROR", "Error"}) {
    size_t const p = txt.rfind(k);
    if (p != std::string::npos) {
      size_t b = txt.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      std::string r = txt.substr(b, 400);
      for (auto & c : r) {
        if (c == '\n') {
          c = ' ';
        }
      }
      return r;
    }
  }
  (void)status;
  if (txt.size() > 200) {
    txt = txt.substr(txt.size() - 200);
  }
  for (auto & c : txt) {
    if (c == '\n') {
      c = ' ';
    }
  }
  return txt;
}

inline void
jsonStr(FILE * f, char const * s)
{
  fputc('"', f);
  for (; *s; ++s) {
    auto const c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\') {
      fprintf(f, "\\%c", c);
    } else if (c < 32 || c > 126) {
      fprintf(f, "\\u%04x", c);
    } else {
      fputc(c, f);
    }
  }
  fputc('"', f);
}

inline double
now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct SpaceStat {
  std::string name;
  u64 n, done;
  double secs;
};

inline int
runAll(int nworkers, double hang_s, double stop_s, std::string const & out)
{
  double const begin = now();
  std::vector<SpaceStat> stats;
  u64 crashes_total = 0;
  for (auto const & s : spaces) {
    cur_space = s.name;
    double const t0 = now();
    u64 chunk = s.n / (static_cast<u64>(nworkers) * 64);
    if (chunk < 1) {
      chunk = 1;
    }
    if (chunk > 1024) {
      chunk = 1024;
    }
    sh->next.store(0);
    std::vector<pid_t> pid(static_cast<size_t>(nworkers), -1);
    std::vector<u64> last(static_cast<size_t>(nworkers), 0);
    std::vector<double> since(static_cast<size_t>(nworkers), now());
    for (int w = 0; w < nworkers; ++w) {
      sh->w[w].cur = 0;
      sh->w[w].end = 0;
      sh->w[w].beat = 0;
      sh->w[w].done = 0;
      sh->w[w].busy = 0;
    }
    fflush(stdout);
    auto const spawn = [&](int w) {
      pid_t const p = fork();
      if (p == 0) {
        workerMain(s, w, chunk);
      }
      pid[static_cast<size_t>(w)] = p;
      since[static_cast<size_t>(w)] = now();
      last[static_cast<size_t>(w)] = sh->w[w].beat.load();
    };
    for (int w = 0; w < nworkers; ++w) {
      spawn(w);
    }
    int alive = nworkers;
    u64 crashes = 0;
    int hangs = 0;
    while (alive > 0) {
      int st = 0;
      pid_t const p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        for (int w = 0; w < nworkers; ++w) {
          if (pid[static_cast<size_t>(w)] != p) {
            continue;
          }
          pid[static_cast<size_t>(w)] = -1;
          if (sh->w[w].done.load() && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            --alive;
            break;
          }
          u64 const idx = sh->w[w].cur.load();
          std::string const t = tail(scratch_ + "/log" + std::to_string(w), st);
          std::string how = WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st))
                                            : fmt("exit status %d", WEXITSTATUS(st));
          recordFailure("crash", "the case ended the process (" + how + "): " + t, idx);
          ++crashes;
          ++crashes_total;
          sh->w[w].cur.store(idx + 1);
          if (hangs >= 3 || sh->stop.load() != 0) {
            sh->w[w].end.store(0);
          }
          if (crashes > 400) {
            sh->w[w].end.store(0);
            sh->next.store(s.n);
            --alive;
          } else {
            spawn(w);
          }
          break;
        }
        continue;
      }
      usleep(2000);
      double const t = now();
      if (stop_s > 0 && t - begin > stop_s && sh->nfail.load() > 0) {
        sh->stop.store(1);
      }
      for (int w = 0; w < nworkers; ++w) {
        auto const ww = static_cast<size_t>(w);
        if (pid[ww] < 0) {
          continue;
        }
        u64 const b = sh->w[w].beat.load();
        if (b != last[ww]) {
          last[ww] = b;
          since[ww] = t;
        } else if (t - since[ww] > hang_s) {
          kill(pid[ww], SIGKILL);
          since[ww] = t;
          ++hangs;
          if (hangs >= 3) { // enough evidence; do not wait for more of them
            sh->next.store(s.n);
          }
        }
      }
    }
    u64 done = 0;
    for (int w = 0; w < nworkers; ++w) {
      done += sh->w[w].beat.load();
    }
    sh->evaluations.fetch_add(done);
    stats.push_back({s.name, s.n, done, now() - t0});
  }
  FILE * f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (f == nullptr) {
    return 3;
  }
  auto const U = [](u64 x) { return static_cast<unsigned long long>(x); };
  fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"cases\":%llu,\"nfail\":%llu,"
             "\"crashes\":%llu,\"table_full\":%llu,\n\"spaces\":[",
          U(sh->states), U(sh->transitions), U(sh->traces), U(sh->evaluations), U(sh->nfail),
          U(crashes_total), U(sh->table_full));
  for (size_t i = 0; i < stats.size(); ++i) {
    fprintf(f, "%s{\"name\":", i ? "," : "");
    jsonStr(f, stats[i].name.c_str());
    fprintf(f, ",\"cases\":%llu,\"run\":%llu,\"s\":%.2f}", U(stats[i].n), U(stats[i].done),
            stats[i].secs);
  }
  fprintf(f, "],\n\"failures\":[");
  u64 const nf = sh->nstored.load() < max_failures ? sh->nstored.load() : u64(max_failures);
  for (u64 i = 0; i < nf; ++i) {
    Failure const & x = sh->fail[i];
    fprintf(f, "%s\n{\"space\":", i ? "," : "");
    jsonStr(f, x.space);
    fprintf(f, ",\"label\":");
    jsonStr(f, x.label);
    fprintf(f, ",\"idx\":%llu,\"msg\":", U(x.idx));
    jsonStr(f, x.msg);
    fprintf(f, "}");
  }
  fprintf(f, "],\n\"samples\":[");
  u64 const ns = sh->nsample.load() < max_samples ? sh->nsample.load() : u64(max_samples);
  for (u64 i = 0; i < ns; ++i) {
    fprintf(f, "%s", i ? "," : "");
    jsonStr(f, sh->sample[i]);
  }
  fprintf(f, "]}\n");
  if (f != stdout) {
    fclose(f);
  }
  return 0;
}

// usage: harness --scratch DIR [--out FILE] [--tier quick|thorough] [--jobs N] [--hang S] [--stop-after S]
//                [--space NAME [--case IDX]]
inline int
mainImpl(int argc, char ** argv, void (*setup)())
{
  std::string out;
  std::string only;
  long long one = -1;
  int jobs = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  double hang = 180;
  double stop = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const a = argv[i];
    std::string const v = argv[i + 1];
    if (a == "--out") {
      out = v;
    } else if (a == "--scratch") {
      scratch_ = v;
    } else if (a == "--tier") {
      thorough_ = v == "thorough";
    } else if (a == "--jobs") {
      jobs = atoi(v.c_str());
    } else if (a == "--hang") {
      hang = atof(v.c_str());
    } else if (a == "--stop-after") {
      stop = atof(v.c_str());
    } else if (a == "--space") {
      only = v;
    } else if (a == "--case") {
      one = atoll(v.c_str());
    }
  }
  if (jobs < 1) {
    jobs = 1;
  }
  if (jobs > max_workers) {
    jobs = max_workers;
  }
  char tmpl[] = "/tmp/mcXXXXXX";
  bool own = false;
  if (scratch_.empty()) {
    scratch_ = mkdtemp(tmpl);
    own = true;
  }
  sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  table = static_cast<std::atomic<u64> *>(mmap(nullptr, set_size * 8, PROT_READ | PROT_WRITE,
                                               MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (sh == MAP_FAILED || table == MAP_FAILED) {
    fprintf(stderr, "mmap failed\n");
    return 3;
  }
  if (__sanitizer_install_malloc_and_free_hooks != nullptr) {
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  }
  setup();
  if (!only.empty()) {
    std::vector<Space> sel;
    for (auto & s : spaces) {
      if (s.name == only) {
        sel.push_back(s);
      }
    }
    spaces = sel;
  }
  int rc = 0;
  if (one >= 0) {
    replay_ = true;
    if (spaces.size() != 1) {
      fprintf(stderr, "no such space\n");
      return 3;
    }
    cur_space = spaces[0].name;
    fflush(stdout);
    replay_ = false;
    pid_t const p = fork();
    if (p == 0) {
      Space s1 = spaces[0];
      s1.n = static_cast<u64>(one) + 1;
      sh->w[0].cur = static_cast<u64>(one);
      sh->w[0].end = s1.n;
      sh->next = s1.n;
      workerMain(s1, 0, 1);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::string const lf = scratch_ + "/log0";
    if (FILE * f = fopen(lf.c_str(), "rb")) {
      char b[4096];
      size_t k = 0;
      while ((k = fread(b, 1, sizeof b, f)) > 0) {
        fwrite(b, 1, k, stdout);
      }
      fclose(f);
    }
    if (!sh->w[0].done.load()) {
      recordFailure("crash", "the case ended the process: " + tail(lf, st), static_cast<u64>(one));
    }
    for (u64 i = 0; i < sh->nstored.load() && i < max_failures; ++i) {
      printf("FAIL %s [%s] case %llu: %s\n", sh->fail[i].space, sh->fail[i].label,
             static_cast<unsigned long long>(sh->fail[i].idx), sh->fail[i].msg);
    }
    printf("case finished, %llu failure(s)\n", static_cast<unsigned long long>(sh->nfail.load()));
    rc = sh->nfail.load() ? 1 : 0;
  } else {
    rc = runAll(jobs, hang, stop, out);
  }
  if (own) {
    std::string const cmd = "rm -rf " + scratch_;
    if (system(cmd.c_str()) != 0) {
      return 3;
    }
  }
  fflush(stdout);
  _exit(rc);
}

} // namespace mc

#define MC_MAIN(setup)                                                                   \
  int main(int argc, char ** argv) { return mc::mainImpl(argc, argv, setup); }
