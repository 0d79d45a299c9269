// Small property-based testing engine: every random choice is recorded on a tape, failures are shrunk by
// editing the tape, and a replay file is a tape. Cases run in forked shards, so that an abort, a sanitizer
// report, a crash or a hang of the code under test is a failing case as well.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Discard
{
};
struct Fail
{
  std::string sig;// identifies the failing input class or call site
  std::string msg;
};

inline std::uint64_t mix(std::uint64_t x)
{
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}

class Src
{
public:
  explicit Src(std::uint64_t seed) : state_(seed) {}
  explicit Src(std::vector<std::uint64_t> tape) : tape_(std::move(tape)), replay_(true) {}

  // Integer in [0, n].
  std::uint64_t raw(std::uint64_t n)
  {
    std::uint64_t v = 0;
    if (replay_) {
      v = pos_ < tape_.size() ? std::min(tape_[pos_], n) : 0;
      if (pos_ < tape_.size()) tape_[pos_] = v;
      ++pos_;
      return v;
    }
    state_ = mix(state_ + 0x632BE59BD9B4E019ULL);
    v = n == ~0ULL ? state_ : state_ % (n + 1);
    tape_.push_back(v);
    return v;
  }
  int i(int lo, int hi) { return lo + static_cast<int>(raw(static_cast<std::uint64_t>(hi - lo))); }
  bool coin() { return raw(1) == 1; }
  // true with probability num/den; shrinks to false.
  bool chance(int num, int den) { return static_cast<int>(raw(static_cast<std::uint64_t>(den - 1))) >= den - num; }
  double unit() { return static_cast<double>(raw((1ULL << 40) - 1)) / static_cast<double>(1ULL << 40); }
  // Real in [lo, hi]; a share of the draws are short fractions of the range (grid-aligned cases).
  double real(double lo, double hi)
  {
    if (chance(3, 4)) return lo + (hi - lo) * unit();
    return lo + (hi - lo) * static_cast<double>(raw(16)) / 16.0;
  }
  // Generic real: never aligned on purpose.
  double generic(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double sgn() { return coin() ? -1.0 : 1.0; }
  template<typename T> const T &pick(const std::vector<T> &v) { return v[static_cast<std::size_t>(raw(v.size() - 1))]; }

  // Description of the generated case.
  template<typename T> void note(const std::string &k, const T &v)
  {
    if (!desc_.empty()) desc_ += " ";
    std::ostringstream o;
    o << std::setprecision(17) << k << "=" << v;
    desc_ += o.str();
  }
  // Declares the case non-trivial; key (if any) tells distinct cases apart, by default the whole description.
  void nontrivial() { nontrivial_ = true; }
  void count(const std::string &k, long n = 1) { counts_[k] += n; }

  std::vector<std::uint64_t> used() const
  {
    auto t = tape_;
    if (replay_ && t.size() > pos_) t.resize(pos_);
    return t;
  }
  const std::string &desc() const { return desc_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::map<std::string, long> &counts() const { return counts_; }

private:
  std::vector<std::uint64_t> tape_;
  std::size_t pos_{ 0 };
  bool replay_{ false };
  std::uint64_t state_{ 0 };
  std::string desc_;
  bool nontrivial_{ false };
  std::map<std::string, long> counts_;
};

struct Property
{
  std::string id;
  std::function<void(Src &)> run;
  int quick;
  int thorough;
  int case_seconds{ 20 };
};
inline std::vector<Property> &registry()
{
  static std::vector<Property> r;
  return r;
}
struct Reg
{
  Reg(const char *id, std::function<void(Src &)> f, int quick, int thorough, int case_seconds = 20)
  {
    registry().push_back({ id, std::move(f), quick, thorough, case_seconds });
  }
};

template<typename... A> std::string cat(const A &...a)
{
  std::ostringstream o;
  o << std::setprecision(17);
  (o << ... << a);
  return o.str();
}
#define REQUIRE_SIG(cond, sig, ...)                                            \
  do {                                                                         \
    if (!(cond)) throw ::pbt::Fail{ sig, ::pbt::cat(#cond, ": ", __VA_ARGS__) }; \
  } while (0)

// Shared page between a shard and the parent.
struct Shared
{
  volatile long done;
  volatile long discarded;
  volatile long nontrivial;
  volatile long distinct;
  volatile int failed;// 1: recorded failure
  volatile long case_index;
  volatile double start;// of the running case
  volatile std::size_t tape_len;
  std::uint64_t tape[1 << 15];
  char sig[256];
  char msg[4096];
  char desc[8192];
  char samples[6][1200];
  volatile int n_samples;
  char counts[8192];
  char known[4096];
};
inline Shared *new_shared()
{
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  std::memset(p, 0, sizeof(Shared));
  return static_cast<Shared *>(p);
}
inline void put(char *dst, std::size_t n, const std::string &s)
{
  const auto k = std::min(n - 1, s.size());
  std::memcpy(dst, s.data(), k);
  dst[k] = 0;
}
inline double now()
{
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
inline void store_tape(Shared *s, const std::vector<std::uint64_t> &t)
{
  const auto n = std::min(t.size(), sizeof(s->tape) / sizeof(s->tape[0]));
  std::memcpy(s->tape, t.data(), n * sizeof(std::uint64_t));
  s->tape_len = n;
}

// Outcome of one case: 0 ok, 1 fail, 2 discard.
inline int run_case(const Property &p, Src &src, Fail &f)
{
  try {
    p.run(src);
    return 0;
  } catch (const Discard &) {
    return 2;
  } catch (const Fail &e) {
    f = e;
    return 1;
  } catch (const std::exception &e) {
    f = Fail{ "exception", std::string("unexpected exception: ") + e.what() };
    return 1;
  }
}

struct Outcome
{
  int rc{ 0 };
  Fail fail;
  std::string desc;
  std::vector<std::uint64_t> tape;
};

// Runs one tape in a child process.
inline Outcome run_isolated(const Property &p, const std::vector<std::uint64_t> &tape)
{
  Shared *sh = new_shared();
  fflush(nullptr);
  const int err = memfd_create("stderr", MFD_CLOEXEC);
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(err, 2);
    alarm(static_cast<unsigned>(p.case_seconds));
    Src src(tape);
    Fail f;
    const int rc = run_case(p, src, f);
    put(sh->sig, sizeof(sh->sig), f.sig);
    put(sh->msg, sizeof(sh->msg), f.msg);
    put(sh->desc, sizeof(sh->desc), src.desc());
    store_tape(sh, src.used());
    _exit(rc == 1 ? 1 : (rc == 2 ? 3 : 0));
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::string said;
  if (err >= 0) {
    char buf[1200];
    const auto n = pread(err, buf, sizeof buf, 0);
    if (n > 0) said = " stderr: " + std::string(buf, static_cast<std::size_t>(n));
    close(err);
  }
  Outcome o;
  o.tape = tape;
  if (WIFSIGNALED(st)) {
    o.rc = 1;
    o.fail = Fail{ WTERMSIG(st) == SIGALRM ? "hang" : "crash",
      WTERMSIG(st) == SIGALRM ? cat("the case does not end within ", p.case_seconds, " s")
                              : cat("the code under test dies with signal ", WTERMSIG(st), " (abort, failed assertion or invalid memory access)", said) };
  } else if (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3) {
    o.rc = WEXITSTATUS(st) == 0 ? 0 : 2;
  } else if (WEXITSTATUS(st) == 1) {
    o.rc = 1;
    o.fail = Fail{ sh->sig, sh->msg };
    o.desc = sh->desc;
    o.tape.assign(sh->tape, sh->tape + sh->tape_len);
  } else {
    o.rc = 1;
    o.fail = Fail{ "crash", cat("the code under test ends the process with status ", WEXITSTATUS(st), said) };
  }
  munmap(sh, sizeof(Shared));
  return o;
}

inline std::uint64_t case_seed(const std::uint64_t seed, const long c)
{
  return mix(seed * 0x100000001B3ULL + static_cast<std::uint64_t>(c) * 7919ULL + mix(static_cast<std::uint64_t>(c)));
}

// Runs cases one after another in a child process: the outcome of the last. For failures that need the state left by earlier cases.
inline Outcome run_sequence(const Property &p, const std::uint64_t seed, const std::vector<long> &cases)
{
  Shared *sh = new_shared();
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    alarm(300);
    Fail f;
    for (std::size_t i = 0; i + 1 < cases.size(); ++i) {
      Src src(case_seed(seed, cases[i]));
      run_case(p, src, f);
    }
    sh->done = 1;
    Src src(case_seed(seed, cases.back()));
    const int rc = run_case(p, src, f);
    put(sh->sig, sizeof(sh->sig), f.sig);
    put(sh->msg, sizeof(sh->msg), f.msg);
    put(sh->desc, sizeof(sh->desc), src.desc());
    _exit(rc == 1 ? 1 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFSIGNALED(st)) {
    if (sh->done == 1 && WTERMSIG(st) != SIGALRM) {
      o.rc = 1;
      o.fail = Fail{ "crash", cat("the code under test dies with signal ", WTERMSIG(st), " (abort, failed assertion or invalid memory access)") };
    }
  } else if (WEXITSTATUS(st) == 1) {
    o.rc = 1;
    o.fail = Fail{ sh->sig, sh->msg };
    o.desc = sh->desc;
  }
  munmap(sh, sizeof(Shared));
  return o;
}

// A short sequence of cases whose last one fails; empty when there is none.
inline std::vector<long> shrink_sequence(const Property &p, const std::uint64_t seed, std::vector<long> cases, Outcome &out, const double seconds)
{
  const double end = now() + seconds;
  const auto tail = [&](const std::size_t n) { return std::vector<long>(cases.end() - static_cast<long>(std::min(n + 1, cases.size())), cases.end()); };
  for (std::size_t n = 0;; n = n == 0 ? 1 : n * 8) {
    const auto t = tail(n);
    out = run_sequence(p, seed, t);
    if (out.rc == 1) {
      cases = t;
      break;
    }
    if (t.size() == cases.size() || now() > end) return {};
  }
  for (std::size_t step = std::max<std::size_t>(1, (cases.size() - 1) / 2); now() < end;) {
    bool removed = false;
    for (std::size_t i = 0; i + 1 < cases.size() && now() < end;) {
      std::vector<long> t(cases.begin(), cases.begin() + static_cast<long>(i));
      t.insert(t.end(), cases.begin() + static_cast<long>(std::min(i + step, cases.size() - 1)), cases.end());
      const Outcome q = run_sequence(p, seed, t);
      if (q.rc == 1 && q.fail.sig == out.fail.sig) {
        cases = t;
        out = q;
        removed = true;
      } else
        i += step;
    }
    if (step == 1 && !removed) break;
    step = std::max<std::size_t>(1, step / 2);
  }
  int again = 0;
  for (int k = 0; k < 3; ++k) again += run_sequence(p, seed, cases).rc == 1 ? 1 : 0;
  return again >= 2 ? cases : std::vector<long>{};
}

inline Outcome shrink(const Property &p, Outcome best, double seconds)
{
  const double end = now() + seconds;
  const auto attempt = [&](const std::vector<std::uint64_t> &t) {
    if (t == best.tape || now() > end) return false;
    Outcome o = run_isolated(p, t);
    if (o.rc != 1 || o.fail.sig != best.fail.sig) return false;
    if (o.tape.size() > t.size()) o.tape = t;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (std::size_t len = best.tape.size() / 2; len >= 1 && now() < end; len /= 2) {
      for (std::size_t i = 0; i + len <= best.tape.size() && now() < end;) {
        auto t = best.tape;
        t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + len));
        if (attempt(t))
          progress = true;
        else
          i += len;
      }
    }
    for (std::size_t i = 0; i < best.tape.size() && now() < end; ++i) {
      if (best.tape[i] == 0) continue;
      auto t = best.tape;
      t[i] = 0;
      if (attempt(t)) {
        progress = true;
        continue;
      }
      for (int b = 0; b < 40 && i < best.tape.size() && best.tape[i] > 1 && now() < end; ++b) {
        t = best.tape;
        t[i] -= std::max<std::uint64_t>(1, t[i] >> (b / 2 + 1));
        if (attempt(t)) progress = true;
      }
    }
  }
  return best;
}

inline std::string json(const std::string &s)
{
  std::string o = "\"";
  for (const char ch : s) {
    const auto c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') {
      o += '\\';
      o += ch;
    } else if (c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

inline int replay_main(const Property &p, const std::string &file)
{
  std::ifstream in(file);
  std::string line;
  std::vector<std::uint64_t> tape;
  std::uint64_t seed = 0;
  std::vector<long> seq;
  while (std::getline(in, line))
    if (line.rfind("sequence:", 0) == 0) {
      std::istringstream s(line.substr(9));
      s >> seed;
      long v = 0;
      while (s >> v) seq.push_back(v);
    } else if (line.rfind("tape:", 0) == 0) {
      std::istringstream s(line.substr(5));
      std::uint64_t v = 0;
      while (s >> v) tape.push_back(v);
    }
  const Outcome o = seq.empty() ? run_isolated(p, tape) : run_sequence(p, seed, seq);
  if (o.rc == 1) {
    printf("FAILS sig=%s\n%s\n%s\n", o.fail.sig.c_str(), o.fail.msg.c_str(), o.desc.c_str());
    return 1;
  }
  printf("does not fail\n");
  return 0;
}

inline int main_impl(int argc, char **argv)
{
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  const auto get = [&](const char *k, const char *d) { return a.count(k) ? a[k] : std::string(d); };
  const std::string id = get("--prop", "");
  const Property *p = nullptr;
  for (const auto &q : registry())
    if (q.id == id) p = &q;
  if (p == nullptr) {
    for (const auto &q : registry()) printf("%s\n", q.id.c_str());
    return 2;
  }
  rlimit core{ 0, 0 };
  setrlimit(RLIMIT_CORE, &core);
  if (a.count("--replay")) return replay_main(*p, a["--replay"]);
  const std::uint64_t seed = std::strtoull(get("--seed", "1").c_str(), nullptr, 10);
  const bool thorough = get("--tier", "quick") == "thorough";
  long cases = thorough ? p->thorough : p->quick;
  if (a.count("--cases")) cases = std::atol(a["--cases"].c_str());
  const int shards = std::atoi(get("--shards", "8").c_str());
  const double max_s = std::atof(get("--max-seconds", thorough ? "3000" : "400").c_str());
  const std::string replay_dir = get("--replay-dir", ".");
  std::set<std::string> known;
  if (a.count("--known")) {
    std::istringstream s(a["--known"]);
    std::string k;
    while (std::getline(s, k, ',')) known.insert(k);
  }
  const double t0 = now();
  std::vector<Shared *> sh;
  std::vector<pid_t> pids;
  std::vector<std::set<std::uint64_t>> hashes;
  std::vector<std::string> hash_files;
  // Restartable shards: a crash with a known signature restarts the shard after the failing case.
  const auto start_shard = [&](int k, long first) {
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid != 0) return pid;
    const int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    Shared *s = sh[static_cast<std::size_t>(k)];
    std::unordered_set<std::uint64_t> seen;
    std::map<std::string, long> counts;
    std::set<std::string> known_hit;
    for (long c = first; c < cases; c += shards) {
      if (now() - t0 > max_s) break;
      s->case_index = c;
      s->start = now();
      Src src(case_seed(seed, c));
      Fail f;
      const int rc = run_case(*p, src, f);
      if (rc == 1) {
        if (known.count(f.sig)) {
          known_hit.insert(f.sig);
          std::string all;
          for (const auto &h : known_hit) all += h + "\n";
          put(s->known, sizeof(s->known), all);
          s->done = s->done + 1;
          continue;
        }
        store_tape(s, src.used());
        put(s->sig, sizeof(s->sig), f.sig);
        put(s->msg, sizeof(s->msg), f.msg);
        put(s->desc, sizeof(s->desc), src.desc());
        s->failed = 1;
        _exit(1);
      }
      if (rc == 2) {
        s->discarded = s->discarded + 1;
        continue;
      }
      s->done = s->done + 1;
      for (const auto &[kk, n] : src.counts()) counts[kk] += n;
      if (src.is_nontrivial()) {
        s->nontrivial = s->nontrivial + 1;
        if (seen.insert(std::hash<std::string>{}(src.desc())).second) s->distinct = s->distinct + 1;
        if (s->n_samples < 6) {
          put(s->samples[s->n_samples], sizeof(s->samples[0]), src.desc());
          s->n_samples = s->n_samples + 1;
        }
      }
      std::string cs;
      for (const auto &[kk, n] : counts) cs += kk + "\t" + std::to_string(n) + "\n";
      put(s->counts, sizeof(s->counts), cs);
    }
    _exit(0);
  };
  for (int k = 0; k < shards; ++k) {
    sh.push_back(new_shared());
    sh.back()->start = now();
  }
  for (int k = 0; k < shards; ++k) pids.push_back(start_shard(k, k));
  int failing = -1;
  std::string crash_sig;
  int live = shards;
  while (live > 0 && failing < 0) {
    int st = 0;
    const pid_t pid = waitpid(-1, &st, WNOHANG);
    if (pid > 0) {
      for (int k = 0; k < shards; ++k)
        if (pids[static_cast<std::size_t>(k)] == pid) {
          --live;
          if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            if (sh[static_cast<std::size_t>(k)]->failed == 0) crash_sig = "crash";
            failing = k;
          }
        }
      continue;
    }
    for (int k = 0; k < shards; ++k) {
      const double started = sh[static_cast<std::size_t>(k)]->start;
      if (kill(pids[static_cast<std::size_t>(k)], 0) == 0 && now() - started > 2.0 * p->case_seconds && now() - t0 < max_s + 2.0 * p->case_seconds + 5) {
        // Hang, unless the shard is done.
        siginfo_t si{};
        if (waitid(P_PID, static_cast<id_t>(pids[static_cast<std::size_t>(k)]), &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == 0) {
          crash_sig = "hang";
          failing = k;
        }
      }
    }
    usleep(5000);
  }
  for (const pid_t pid : pids) kill(pid, SIGKILL);
  while (waitpid(-1, nullptr, 0) > 0) {}
  long done = 0, discarded = 0, nontrivial = 0, distinct = 0;
  std::map<std::string, long> counts;
  std::set<std::string> known_hit;
  std::string samples;
  int ns = 0;
  for (const auto *s : sh) {
    done += s->done;
    discarded += s->discarded;
    nontrivial += s->nontrivial;
    distinct += s->distinct;
    for (int j = 0; j < s->n_samples && j < 2 && ns < 8; ++j, ++ns) samples += (ns ? "," : "") + json(s->samples[j]);
    std::istringstream in(s->counts);
    std::string k;
    long n = 0;
    while (std::getline(in, k, '\t') && in >> n) {
      counts[k] += n;
      in.ignore(1);
    }
    std::istringstream kin(s->known);
    while (std::getline(kin, k)) known_hit.insert(k);
  }
  int rc = 0;
  std::string violation = "null";
  if (failing >= 0) {
    Shared *s = sh[static_cast<std::size_t>(failing)];
    Outcome o;
    if (s->failed) {
      o.rc = 1;
      o.fail = Fail{ s->sig, s->msg };
      o.desc = s->desc;
      o.tape.assign(s->tape, s->tape + s->tape_len);
    } else {
      // Recover the tape of the crashed case: rerun it with generation from its seed, storing as it draws.
      Shared *r = new_shared();
      const long c = s->case_index;
      const pid_t pid = fork();
      if (pid == 0) {
        const int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        alarm(static_cast<unsigned>(p->case_seconds));
        Src *src = new Src(case_seed(seed, c));
        static Src *g_src;
        static Shared *g_r;
        g_src = src;
        g_r = r;
        const auto handler = [](int sig) {
          store_tape(g_r, g_src->used());
          put(g_r->desc, sizeof(g_r->desc), g_src->desc());
          signal(sig, SIG_DFL);
          raise(sig);
        };
        for (const int sg : { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM }) signal(sg, handler);
        std::atexit([] {
          store_tape(g_r, g_src->used());
          put(g_r->desc, sizeof(g_r->desc), g_src->desc());
        });
        Fail f;
        run_case(*p, *src, f);
        std::exit(0);
      }
      waitpid(pid, nullptr, 0);
      o.tape.assign(r->tape, r->tape + r->tape_len);
      const Outcome again = run_isolated(*p, o.tape);
      o.rc = 1;
      o.fail = again.rc == 1 ? again.fail : Fail{ crash_sig, "the shard died but the case does not fail alone" };
      o.desc = r->desc;
      if (again.rc != 1) o.rc = 0;
      if (o.rc == 1 && known.count(o.fail.sig)) {
        fprintf(stderr, "a crash cannot be a known finding: %s\n", o.fail.sig.c_str());
      }
    }
    // Confirm, shrink, confirm three times; a failure that needs the state of earlier cases is replayed as a sequence of cases.
    std::string how;
    const Outcome first = o;
    if (o.rc == 1 && run_isolated(*p, o.tape).rc == 1) {
      Outcome best = shrink(*p, o, thorough ? 120 : 60);
      if (best.desc.empty()) best.desc = o.desc;
      int again = 0;
      for (int k = 0; k < 3; ++k) again += run_isolated(*p, best.tape).rc == 1 ? 1 : 0;
      o = again == 3 ? best : first;
      how = "tape:";
      for (const auto v : o.tape) how += " " + std::to_string(v);
    } else if (crash_sig != "hang") {
      std::vector<long> cs;
      for (long c = failing; c <= s->case_index; c += shards) cs.push_back(c);
      Outcome q;
      cs = shrink_sequence(*p, seed, cs, q, thorough ? 120 : 60);
      if (!cs.empty()) {
        o = q;
        how = "sequence: " + std::to_string(seed);
        for (const auto c : cs) how += " " + std::to_string(c);
        o.desc = "the last of the cases (" + how + "): " + o.desc;
      }
    }
    if (!how.empty()) {
      const std::string path = replay_dir + "/" + id + ".replay";
      std::ofstream out(path);
      out << "property: " << id << "\nsignature: " << o.fail.sig << "\nmessage: " << o.fail.msg << "\ncase: " << o.desc << "\n" << how << "\n";
      out.close();
      violation = "{\"sig\":" + json(o.fail.sig) + ",\"message\":" + json(o.fail.msg) + ",\"case\":" + json(o.desc) + ",\"replay\":" + json(path) + "}";
      rc = 1;
    } else {
      fprintf(stderr, "failure not reproducible (%s): %s %s\n", crash_sig.c_str(), first.fail.sig.c_str(), first.fail.msg.c_str());
      rc = 3;
    }
  }
  std::string cj;
  for (const auto &[k, n] : counts) cj += (cj.empty() ? "" : ",") + json(k) + ":" + std::to_string(n);
  std::string kj;
  for (const auto &k : known_hit) kj += (kj.empty() ? "" : ",") + json(k);
  printf("{\"property\":%s,\"evaluations\":%ld,\"discarded\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%ld,\"planned\":%ld,"
         "\"wall_s\":%.2f,\"counts\":{%s},\"samples\":[%s],\"known\":[%s],\"violation\":%s}\n",
    json(id).c_str(), done, discarded, nontrivial, distinct, cases, now() - t0, cj.c_str(), samples.c_str(), kj.c_str(), violation.c_str());
  return rc;
}
}// namespace pbt
#endif
