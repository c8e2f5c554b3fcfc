// A small choice-sequence property-testing engine (in the style of Hypothesis).
//
// * A test case is a pure function of a finite sequence of integer choices.  Every random decision of every generator is a
//   choice (Source::below), so a case can be replayed from its choices and shrunk by editing them.
// * Cases run in forked children: a crash, abort, sanitizer report or hang of the code under test is an outcome like any
//   other and is shrunk and replayed in the same way.
// * Case number i of sub-property s under seed S always uses the same random stream, whatever the number of workers.
// * Built with -DPBT_LIBFUZZER, the same program is a libFuzzer target whose input bytes are read as choices: coverage of the
//   code under test then directs the search.  What it finds is turned into a replay file of choices by the ordinary program.
#pragma once
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <thread>
#include <vector>

namespace pbt {

struct Failure {
  std::string kind;  // a short stable code of the violated clause
  std::string msg;
};
struct Discard {};

[[noreturn]] inline void fail(const std::string& kind, const std::string& msg) { throw Failure{kind, msg}; }

inline std::uint64_t splitmix(std::uint64_t& x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

constexpr std::size_t kMaxChoices = 1U << 18;
constexpr std::size_t kMaxLabels = 256;
constexpr std::size_t kMaxHashes = 1U << 17;
constexpr std::size_t kMaxSamples = 6;

struct Shm {
  std::uint64_t cur_case;
  double case_start;
  std::uint64_t done, discarded, nontrivial, nhashes, evals;
  std::uint32_t nlabels;
  struct Label {
    char name[72];
    std::uint64_t n;
  } labels[kMaxLabels];
  std::uint64_t hashes[kMaxHashes];
  int status;  // 0 running/ok, 1 failed
  char kind[64];
  char msg[8192];
  char desc[16384];
  std::uint32_t nsamples;
  char samples[kMaxSamples][3072];
  std::uint64_t nchoices;
  std::uint64_t choices[kMaxChoices];
};

inline double now() {
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

class Source {
 public:
  Source(Shm* shm, std::vector<std::uint64_t> prefix, bool random_tail, std::uint64_t seed)
      : shm_{shm}, prefix_{std::move(prefix)}, random_{random_tail}, state_{seed} {
    shm_->nchoices = 0;
  }

  // Choices read from bytes (a choice among n values takes 1, 2, 4 or 8 bytes); zeros follow the last byte.
  Source(Shm* shm, const std::uint8_t* bytes, std::size_t size) : shm_{shm}, random_{false}, state_{0}, in_{bytes}, in_end_{bytes + size} {
    shm_->nchoices = 0;
  }
  static std::size_t width(std::uint64_t n) { return n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000 ? 4 : 8; }
  static void to_bytes(std::vector<std::uint8_t>& out, std::uint64_t v, std::uint64_t n) {
    for (std::size_t i = 0; n > 1 && i < width(n); ++i) {
      out.push_back(static_cast<std::uint8_t>(v >> (8 * i)));
    }
  }
  // If set, every choice is also written here as bytes.
  std::vector<std::uint8_t>* record{};

  // Uniform in [0, n).  0 is the simplest value.
  std::uint64_t below(std::uint64_t n) {
    if (n <= 1) {
      return 0;
    }
    if (shm_->nchoices >= kMaxChoices) {
      throw Discard{};
    }
    std::uint64_t v{};
    if (in_ != nullptr) {
      for (std::size_t i = 0; i < width(n) && in_ != in_end_; ++i) {
        v |= static_cast<std::uint64_t>(*in_++) << (8 * i);
      }
      v %= n;
    } else if (pos_ < prefix_.size()) {
      v = std::min(prefix_[pos_], n - 1);
    } else if (random_) {
      v = n == UINT64_MAX ? splitmix(state_) : splitmix(state_) % n;
    }
    ++pos_;
    shm_->choices[shm_->nchoices++] = v;
    if (record != nullptr) {
      to_bytes(*record, v, n);
    }
    return v;
  }
  // Up to max bytes.  Read from bytes, it takes all that are left.
  std::string rest(std::size_t max) {
    std::uint64_t n{};
    if (in_ != nullptr) {
      n = std::min<std::uint64_t>(static_cast<std::uint64_t>(in_end_ - in_), max);
      shm_->choices[shm_->nchoices++] = n;
    } else {
      n = below(max + 1);
    }
    std::string r;
    for (; n > 0; --n) {
      r += static_cast<char>(below(256));
    }
    return r;
  }
  // Inclusive range; lo is the simplest.
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  // Symmetric-ish integer: 0 simplest, then 1, -1, 2, -2 ...
  std::int64_t around(std::int64_t m) {
    auto v = static_cast<std::int64_t>(below(static_cast<std::uint64_t>(2 * m + 1)));
    return (v % 2) != 0 ? (v + 1) / 2 : -(v / 2);
  }
  std::size_t size(std::size_t lo, std::size_t hi) {
    return static_cast<std::size_t>(range(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi)));
  }
  // true with probability num/den; false is the simplest.
  bool chance(std::uint64_t num, std::uint64_t den) { return below(den) >= den - num; }
  bool flip() { return below(2) == 1; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T one_of(std::initializer_list<T> l) {
    return *(l.begin() + static_cast<std::ptrdiff_t>(below(l.size())));
  }
  // Index with the given weights; 0 is the simplest.
  std::size_t weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (auto x : w) {
      sum += x;
    }
    auto r = static_cast<unsigned>(below(sum));
    std::size_t i = 0;
    for (auto x : w) {
      if (r < x) {
        return i;
      }
      r -= x;
      ++i;
    }
    return 0;
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    // Identity when every choice is 0.
    for (std::size_t i = 0; i + 1 < v.size(); ++i) {
      auto j = i + below(v.size() - i);
      std::swap(v[i], v[j]);
    }
  }

 private:
  Shm* shm_;
  std::vector<std::uint64_t> prefix_;
  bool random_;
  std::uint64_t state_;
  std::size_t pos_{};
  const std::uint8_t *in_{}, *in_end_{};
};

// Per-case context: classification, samples, description of the case.
class Case {
 public:
  Case(Shm* shm, Source& src, std::string tier) : src{src}, tier{std::move(tier)}, shm_{shm} { shm_->desc[0] = 0; }
  Source& src;
  std::string tier;
  bool nontrivial{};

  void label(const std::string& s, std::uint64_t n = 1) {
    for (std::uint32_t i = 0; i < shm_->nlabels; ++i) {
      if (s == shm_->labels[i].name) {
        shm_->labels[i].n += n;
        return;
      }
    }
    if (shm_->nlabels < kMaxLabels) {
      auto& l = shm_->labels[shm_->nlabels];
      std::snprintf(l.name, sizeof(l.name), "%s", s.c_str());
      l.n = n;
      ++shm_->nlabels;
    }
  }
  // Describes the input of this case (kept for failures and samples).
  void describe(const std::string& s) {
    desc_ += s;
    std::snprintf(shm_->desc, sizeof(shm_->desc), "%s", desc_.c_str());
  }
  const std::string& description() const { return desc_; }
  // Individual oracle evaluations made in this case.
  void evals(std::uint64_t n) { shm_->evals += n; }

 private:
  std::string desc_;
  Shm* shm_;
};

struct Sub {
  std::string name;
  std::uint64_t quick, thorough;  // number of cases
  std::function<void(Case&)> fn;
  std::string rule;  // what is generated / what is non-trivial
};

inline std::vector<Sub>& subs() {
  static std::vector<Sub> v;
  return v;
}
// Sub-properties whose choices are the bytes of a file: valid contents to begin the coverage-guided search with.
inline std::map<std::string, std::function<void(Source&, std::vector<std::uint8_t>&)>>& seeders() {
  static std::map<std::string, std::function<void(Source&, std::vector<std::uint8_t>&)>> m;
  return m;
}
struct Register {
  Register(std::string name, std::uint64_t quick, std::uint64_t thorough, std::function<void(Case&)> fn, std::string rule) {
    subs().push_back({std::move(name), quick, thorough, std::move(fn), std::move(rule)});
  }
};

struct Null_buf : std::streambuf {
  int overflow(int c) override { return traits_type::not_eof(c); }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

inline std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

struct Outcome {
  bool failed{};
  std::string kind, msg, desc;
  std::vector<std::uint64_t> choices;
  std::uint64_t case_no{};
};

class Engine {
 public:
  // Per-case limits.  A case normally takes milliseconds; the limit only turns a hang into an outcome.
  double case_cpu_limit{60};
  std::size_t mem_limit_mb{0};  // RLIMIT_AS in the child, 0 = none
  std::uint64_t batch{40};

  int main(int argc, char** argv) {
    std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a.rfind("--", 0) == 0 && i + 1 < argc) {
        o[a.substr(2)] = argv[++i];
      } else {
        pos.push_back(a);
      }
    }
    shm_ = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    tmp_ = o.count("tmp") ? o["tmp"] : "/tmp";
    tier_ = o.count("tier") ? o["tier"] : "quick";
    if (o.count("cpu-limit")) {
      case_cpu_limit = std::stod(o["cpu-limit"]);
    }
    if (pos.empty()) {
      return 2;
    }
    if (pos[0] == "list") {
      for (const auto& s : subs()) {
        std::printf("%s\t%llu\t%llu\t%s\n", s.name.c_str(), (unsigned long long)s.quick, (unsigned long long)s.thorough,
                    s.rule.c_str());
      }
      return 0;
    }
    if (pos[0] == "run") {
      return run(o);
    }
    if (pos[0] == "replay") {
      return replay(pos.at(1));
    }
    if (pos[0] == "seeds") {
      return write_seeds(o);
    }
    if (pos[0] == "from-bytes") {
      return from_bytes(o);
    }
    if (pos[0] == "fuzz") {
      // The rest happens in fuzz_one.
      const auto* s = find(o["sub"]);
      if (s == nullptr) {
        return 2;
      }
      fuzzed() = {shm_, s, tier_, o["stats"]};
      silence();
      return 0;
    }
    return 2;
  }

  struct Fuzzed {
    Shm* shm{};
    const Sub* sub{};
    std::string tier, stats;
    std::uint64_t failures{};
  };
  static Fuzzed& fuzzed() {
    static Fuzzed f;
    return f;
  }
  // One input of the coverage-guided search.  A violated property ends the process, so that the input is kept.
  static int fuzz_one(const std::uint8_t* data, std::size_t size) {
    auto& z = fuzzed();
    Source src{z.shm, data, size};
    Case c{z.shm, src, z.tier};
    z.shm->case_start = now();
    ++z.shm->done;
    try {
      z.sub->fn(c);
    } catch (const Failure& f) {
      std::fprintf(stderr, "PROPERTY VIOLATED [%s] %s\n", f.kind.c_str(), f.msg.c_str());
      std::abort();
    } catch (const Discard&) {
      ++z.shm->discarded;
      return -1;
    } catch (const std::exception& e) {
      std::fprintf(stderr, "PROPERTY VIOLATED [exception] %s\n", e.what());
      std::abort();
    }
    if (c.nontrivial) {
      ++z.shm->nontrivial;
    }
    return 0;
  }
  static void fuzz_stats() {
    auto& z = fuzzed();
    std::ofstream f{z.stats};
    f << "{\"cases\":" << z.shm->done << ",\"discarded\":" << z.shm->discarded << ",\"nontrivial\":" << z.shm->nontrivial
      << ",\"evals\":" << z.shm->evals << ",\"labels\":{";
    for (std::uint32_t k = 0; k < z.shm->nlabels; ++k) {
      f << (k != 0 ? "," : "") << '"' << json_escape(z.shm->labels[k].name) << "\":" << z.shm->labels[k].n;
    }
    f << "}}\n";
  }

 private:
  static std::uint64_t case_seed(std::uint64_t seed, const std::string& sub, std::uint64_t i) {
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : sub) {
      h = (h ^ c) * 1099511628211ULL;
    }
    h ^= seed * 0xd1342543de82ef95ULL;
    splitmix(h);
    h ^= i * 0x2545f4914f6cdd1dULL;
    return splitmix(h);
  }

  void silence() {
    static Null_buf nb;
    std::cout.rdbuf(&nb);
    std::cerr.rdbuf(&nb);
    std::clog.rdbuf(&nb);
  }

  std::string err_file() const { return tmp_ + "/stderr." + std::to_string(getpid()); }

  void child_setup(const std::string& err) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
      close(fd);
    }
    if (mem_limit_mb != 0) {
      rlimit l{mem_limit_mb << 20, mem_limit_mb << 20};
      setrlimit(RLIMIT_AS, &l);
    }
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    silence();
  }

  // Runs one case in this (child) process.  Returns true if it failed.
  bool run_case(const Sub& sub, std::uint64_t case_no, Source& src) {
    Case c{shm_, src, tier_};
    shm_->cur_case = case_no;
    shm_->case_start = now();
    {
      // The CPU limit is per case: soft limit = what is used so far + the limit.
      rusage u{};
      getrusage(RUSAGE_SELF, &u);
      rlimit l{};
      getrlimit(RLIMIT_CPU, &l);
      l.rlim_cur = static_cast<rlim_t>(u.ru_utime.tv_sec + u.ru_stime.tv_sec + case_cpu_limit + 1);
      setrlimit(RLIMIT_CPU, &l);
    }
    try {
      sub.fn(c);
    } catch (const Failure& f) {
      set_fail(f.kind, f.msg);
      return true;
    } catch (const Discard&) {
      ++shm_->discarded;
      ++shm_->done;
      return false;
    } catch (const std::exception& e) {
      set_fail("exception", std::string{"unexpected exception: "} + e.what());
      return true;
    } catch (...) {
      set_fail("exception", "unexpected exception of unknown type");
      return true;
    }
    ++shm_->done;
    if (c.nontrivial) {
      ++shm_->nontrivial;
      std::uint64_t h = 1469598103934665603ULL;
      for (std::uint64_t i = 0; i < shm_->nchoices; ++i) {
        h = (h ^ shm_->choices[i]) * 1099511628211ULL;
        h ^= h >> 29;
      }
      if (shm_->nhashes < kMaxHashes) {
        shm_->hashes[shm_->nhashes++] = h;
      }
      if (shm_->nsamples < kMaxSamples && !c.description().empty()) {
        std::snprintf(shm_->samples[shm_->nsamples], sizeof(shm_->samples[0]), "%s", c.description().c_str());
        ++shm_->nsamples;
      }
    }
    return false;
  }

  void set_fail(const std::string& kind, const std::string& msg) {
    std::snprintf(shm_->kind, sizeof(shm_->kind), "%s", kind.c_str());
    std::snprintf(shm_->msg, sizeof(shm_->msg), "%s", msg.c_str());
    shm_->status = 1;
  }

  static std::string head_of(const std::string& file, std::size_t n) {
    std::ifstream f{file};
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    return s.substr(0, n);
  }

  // The CPU time that a child has used, in clock ticks.
  static long cpu_ticks(pid_t pid) {
    auto t = head_of("/proc/" + std::to_string(pid) + "/stat", 4096);
    auto i = t.rfind(')');
    if (i == std::string::npos) {
      return 0;
    }
    std::istringstream is{t.substr(i + 1)};
    std::string f;
    long u = 0, k = 0;
    for (int n = 0; n < 11; ++n) {
      is >> f;
    }
    is >> u >> k;
    return is ? u + k : 0;
  }

  // Waits for a child; fills in the outcome.
  Outcome wait_child(pid_t pid, const std::string& err) {
    int st{};
    bool timed_out = false, blocked = false;
    auto used = cpu_ticks(pid);
    double last = now(), looked = last;
    while (true) {
      auto r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        break;
      }
      // A case that blocks without using the CPU (deadlock): a busy machine does not starve a process for that long.
      if (now() - looked > 0.5) {
        looked = now();
        if (auto u = cpu_ticks(pid); u > used + 1) {
          used = u;
          last = looked;
        }
      }
      blocked = now() - last > 25;
      if (blocked || now() - shm_->case_start > std::min(20 * case_cpu_limit, 400.0)) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        timed_out = true;
        break;
      }
      usleep(shm_->case_start + 0.05 > now() ? 200 : 2000);
    }
    Outcome out;
    out.case_no = shm_->cur_case;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !timed_out) {
      return out;
    }
    out.failed = true;
    out.choices.assign(shm_->choices, shm_->choices + shm_->nchoices);
    out.desc = shm_->desc;
    if (timed_out || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU))) {
      out.kind = blocked ? "deadlock" : "hang";
      out.msg = blocked ? "the case is blocked: no thread of it runs any more" : "the case did not finish within its time limit";
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && shm_->status == 1) {
      out.kind = shm_->kind;
      out.msg = shm_->msg;
    } else {
      out.kind = "crash";
      out.msg = WIFSIGNALED(st) ? std::string{"killed by signal "} + std::to_string(WTERMSIG(st)) + " (" +
                                      strsignal(WTERMSIG(st)) + ")"
                                : std::string{"process exit "} + std::to_string(WEXITSTATUS(st));
      out.msg += "\n" + head_of(err, 3000);
    }
    unlink(err.c_str());
    return out;
  }

  Outcome exec(const Sub& sub, const std::vector<std::uint64_t>& choices) {
    shm_->status = 0;
    shm_->case_start = now();
    auto err = err_file();
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(err);
      Source src{shm_, choices, false, 0};
      bool f = run_case(sub, 0, src);
      _exit(f ? 10 : 0);
    }
    auto out = wait_child(pid, err);
    unlink(err.c_str());
    return out;
  }

  Outcome exec_bytes(const Sub& sub, const std::vector<std::uint8_t>& bytes) {
    shm_->status = 0;
    shm_->case_start = now();
    auto err = err_file();
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(err);
      Source src{shm_, bytes.data(), bytes.size()};
      bool f = run_case(sub, 0, src);
      _exit(f ? 10 : 0);
    }
    auto out = wait_child(pid, err);
    unlink(err.c_str());
    return out;
  }

  // Random cases (or valid files) as bytes, for the coverage-guided search to begin with.
  int write_seeds(std::map<std::string, std::string>& o) {
    const auto* s = find(o["sub"]);
    if (s == nullptr) {
      return 2;
    }
    auto n = std::stoull(o["n"]), seed = std::stoull(o["seed"]);
    auto max = std::stoull(o["max-len"]);
    for (std::uint64_t i = 0; i < n; ++i) {
      shm_->case_start = now();
      auto err = err_file();
      pid_t pid = fork();
      if (pid == 0) {
        child_setup(err);
        std::vector<std::uint8_t> bytes;
        Source src{shm_, {}, true, case_seed(seed ^ 0x5eedULL, s->name, i)};
        if (auto it = seeders().find(s->name); it != seeders().end()) {
          it->second(src, bytes);
        } else {
          src.record = &bytes;
          if (run_case(*s, i, src)) {
            _exit(0);
          }
        }
        if (!bytes.empty() && bytes.size() <= max) {
          std::ofstream f{o["out"] + "/seed" + std::to_string(i), std::ios::binary};
          f.write(reinterpret_cast<const char*>(bytes.data()), static_cast<std::streamsize>(bytes.size()));
        }
        _exit(0);
      }
      wait_child(pid, err);
      unlink(err.c_str());
    }
    return 0;
  }

  // Turns an input that the coverage-guided search kept into a shrunk replay file.  Exit code 1: it fails.
  int from_bytes(std::map<std::string, std::string>& o) {
    const auto* s = find(o["sub"]);
    if (s == nullptr) {
      return 2;
    }
    std::ifstream f{o["in"], std::ios::binary};
    std::vector<std::uint8_t> bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    auto out = exec_bytes(*s, bytes);
    if (!out.failed) {
      return 0;
    }
    auto again = exec(*s, out.choices);
    if (again.failed) {
      out = again.kind == "hang" ? again : shrink(*s, again, 40.0);
    }
    write_replay(o["replay"], *s, out, "");
    std::printf("%s\n%s\n", out.kind.c_str(), out.msg.substr(0, 2000).c_str());
    return 1;
  }

  Outcome exec_range(const Sub& sub, std::uint64_t seed, std::uint64_t from, std::uint64_t to, std::uint64_t stride) {
    shm_->status = 0;
    shm_->case_start = now();
    auto err = err_file();
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(err);
      for (std::uint64_t i = from; i < to; i += stride) {
        Source src{shm_, {}, true, case_seed(seed, sub.name, i)};
        if (run_case(sub, i, src)) {
          _exit(10);
        }
      }
      _exit(0);
    }
    auto out = wait_child(pid, err);
    unlink(err.c_str());
    return out;
  }

  Outcome shrink(const Sub& sub, Outcome best, double budget_s) {
    auto t0 = now();
    std::size_t tries = 0;
    auto attempt = [&](std::vector<std::uint64_t> c) -> bool {
      if (now() - t0 > budget_s || tries > 4000) {
        return false;
      }
      ++tries;
      auto o = exec(sub, c);
      if (!o.failed || o.kind != best.kind) {
        return false;
      }
      if (o.choices.size() > best.choices.size() ||
          (o.choices.size() == best.choices.size() && !(o.choices < best.choices))) {
        return false;
      }
      best = o;
      return true;
    };
    bool improved = true;
    while (improved && now() - t0 < budget_s) {
      improved = false;
      for (std::size_t len = std::max<std::size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
        for (std::size_t i = 0; i + len <= best.choices.size();) {
          auto c = best.choices;
          c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + len));
          if (attempt(c)) {
            improved = true;
          } else {
            i += len;
          }
          if (now() - t0 > budget_s) {
            break;
          }
        }
        if (len == 1 || now() - t0 > budget_s) {
          break;
        }
      }
      for (std::size_t len = 8; len >= 1; len /= 2) {
        for (std::size_t i = 0; i + len <= best.choices.size(); i += len) {
          auto c = best.choices;
          if (std::all_of(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + len),
                          [](auto x) { return x == 0; })) {
            continue;
          }
          std::fill(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + len), 0);
          improved |= attempt(c);
          if (now() - t0 > budget_s) {
            break;
          }
        }
        if (len == 1 || now() - t0 > budget_s) {
          break;
        }
      }
      for (std::size_t i = 0; i < best.choices.size() && now() - t0 < budget_s; ++i) {
        std::uint64_t lo = 0;
        while (i < best.choices.size() && lo < best.choices[i]) {
          auto mid = lo + (best.choices[i] - lo) / 2;
          auto c = best.choices;
          c[i] = mid;
          if (attempt(c)) {
            improved = true;
          } else {
            lo = mid + 1;
          }
          if (now() - t0 > budget_s) {
            break;
          }
        }
      }
    }
    return best;
  }

  void write_replay(const std::string& file, const Sub& sub, const Outcome& o, const std::string& extra) {
    std::ofstream f{file};
    f << "sub " << sub.name << "\ntier " << tier_ << "\n";
    if (!extra.empty()) {
      f << extra << "\n";
    } else {
      f << "choices " << o.choices.size();
      for (auto c : o.choices) {
        f << ' ' << c;
      }
      f << "\n";
    }
    f << "kind " << o.kind << "\n";
    std::istringstream m{o.msg};
    std::string l;
    while (std::getline(m, l)) {
      f << "# " << l << "\n";
    }
    f << "# --- input ---\n";
    std::istringstream d{o.desc};
    while (std::getline(d, l)) {
      f << "# " << l << "\n";
    }
  }

  const Sub* find(const std::string& n) {
    for (const auto& s : subs()) {
      if (s.name == n) {
        return &s;
      }
    }
    return nullptr;
  }

  int run(std::map<std::string, std::string>& o) {
    std::uint64_t seed = std::stoull(o["seed"]);
    std::uint64_t worker = std::stoull(o["worker"]), workers = std::stoull(o["workers"]);
    double deadline = now() + (o.count("deadline") ? std::stod(o["deadline"]) : 600.0);
    double scale = o.count("scale") ? std::stod(o["scale"]) : 1.0;
    std::string only = o.count("sub") ? o["sub"] : "";
    std::ofstream js{o["out"]};
    js << "{\"subs\":[";
    bool first = true;
    int rc = 0;
    std::string viol;
    for (const auto& s : subs()) {
      if (!only.empty() && s.name != only) {
        continue;
      }
      std::memset(static_cast<void*>(shm_), 0, offsetof(Shm, choices));
      auto n = static_cast<std::uint64_t>(static_cast<double>(tier_ == "thorough" ? s.thorough : s.quick) * scale);
      if (n == 0 && (tier_ == "thorough" ? s.thorough : s.quick) != 0) {
        n = 1;
      }
      if (n == 0) {
        continue;  // only for the coverage-guided search
      }
      std::set<std::uint64_t> hashes;
      std::string cut;
      auto t_sub = now();
      // Child b of this worker handles `batch` consecutive cases of the worker's stride.
      for (std::uint64_t i = worker; i < n; i += workers * batch) {
        if (now() > deadline) {
          cut = "stopped at the overall time budget";
          break;
        }
        auto to = std::min(n, i + workers * batch);
        auto out = exec_range(s, seed, i, to, workers);
        for (std::uint64_t k = 0; k < shm_->nhashes; ++k) {
          hashes.insert(shm_->hashes[k]);
        }
        shm_->nhashes = 0;
        if (!out.failed) {
          continue;
        }
        // Does the case fail by itself?
        auto again = exec(s, out.choices);
        std::string file = o["replay"] + "." + s.name + "." + std::to_string(worker);
        if (again.failed) {
          // Every attempt on a hanging case takes the whole time limit: report it as it is.
          auto best = again.kind == "hang" ? again : shrink(s, again, o.count("shrink") ? std::stod(o["shrink"]) : 40.0);
          write_replay(file, s, best, "");
          viol = file;
          out = best;
        } else {
          // It needs the cases before it in the same process, or a particular schedule.
          auto done = shm_->done, disc = shm_->discarded, nt = shm_->nontrivial, ev = shm_->evals;
          auto seq = exec_range(s, seed, i, out.case_no + 1, workers);
          if (out.kind == "hang" && !seq.failed) {
            // Only slow: what was counted before it stays, and the batch goes on behind it.
            shm_->done = done;
            shm_->discarded = disc;
            shm_->nontrivial = nt;
            shm_->evals = ev;
            shm_->nhashes = 0;
            std::cerr << "a slow case passes when run again: " << s.name << ' ' << out.case_no << '\n';
            i = out.case_no + workers - workers * batch;
            continue;
          }
          write_replay(file, s, seq.failed ? seq : out,
                       "range " + std::to_string(seed) + ' ' + std::to_string(i) + ' ' + std::to_string(out.case_no + 1) + ' ' +
                           std::to_string(workers));
          viol = file;
        }
        rc = 1;
        js << (first ? "" : ",") << "{\"name\":\"" << s.name << "\",\"failed\":true,\"kind\":\"" << json_escape(out.kind)
           << "\",\"msg\":\"" << json_escape(out.msg.substr(0, 2000)) << "\",\"replay\":\"" << json_escape(file) << "\"}";
        first = false;
        break;
      }
      if (rc != 0) {
        break;
      }
      js << (first ? "" : ",") << "{\"name\":\"" << s.name << "\",\"failed\":false,\"wall\":" << (now() - t_sub)
         << ",\"cases\":" << shm_->done << ",\"planned\":" << n << ",\"discarded\":" << shm_->discarded
         << ",\"nontrivial\":" << shm_->nontrivial << ",\"evals\":" << shm_->evals << ",\"cut\":\"" << cut
         << "\",\"hashes\":[";
      bool h1 = true;
      for (auto h : hashes) {
        js << (h1 ? "" : ",") << '"' << std::hex << h << std::dec << '"';
        h1 = false;
      }
      js << "],\"labels\":{";
      for (std::uint32_t k = 0; k < shm_->nlabels; ++k) {
        js << (k ? "," : "") << '"' << json_escape(shm_->labels[k].name) << "\":" << shm_->labels[k].n;
      }
      js << "},\"samples\":[";
      for (std::uint32_t k = 0; k < shm_->nsamples; ++k) {
        js << (k ? "," : "") << '"' << json_escape(shm_->samples[k]) << '"';
      }
      js << "]}";
      first = false;
    }
    js << "],\"rc\":" << rc << "}\n";
    return rc;
  }

  int replay(const std::string& file) {
    std::ifstream f{file};
    std::string w, name;
    while (f.peek() == '#') {
      std::getline(f, w);
    }
    f >> w >> name;
    const auto* s = find(name);
    if (s == nullptr) {
      std::fprintf(stderr, "no sub-property %s\n", name.c_str());
      return 2;
    }
    f >> w >> tier_ >> w;
    Outcome out;
    if (w == "choices") {
      std::size_t n{};
      f >> n;
      std::vector<std::uint64_t> c(n);
      for (auto& x : c) {
        f >> x;
      }
      out = exec(*s, c);
    } else if (w == "range") {
      std::uint64_t seed{}, a{}, b{}, st{};
      f >> seed >> a >> b >> st;
      out = exec_range(*s, seed, a, b, st);
    } else {
      return 2;
    }
    if (out.failed) {
      std::printf("FAILS kind=%s\n%s\n--- input ---\n%s\n", out.kind.c_str(), out.msg.c_str(), out.desc.c_str());
      return 1;
    }
    std::printf("PASSES\n");
    return 0;
  }

  Shm* shm_{};
  std::string tmp_, tier_;
};

}  // namespace pbt

#ifdef PBT_LIBFUZZER
// The harness's own main is compiled as pbt_main (-Dmain=pbt_main).
int pbt_main(int argc, char** argv);
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  static std::string a[] = {"fuzz", "fuzz", "--sub", std::getenv("PBT_SUB_NAME"), "--stats", std::getenv("PBT_STATS"), "--tier", "thorough"};
  static char* argv[8];
  for (int i = 0; i < 8; ++i) {
    argv[i] = a[i].data();
  }
  if (pbt_main(8, argv) != 0) {
    _exit(2);
  }
  std::atexit(pbt::Engine::fuzz_stats);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) { return pbt::Engine::fuzz_one(data, size); }
#endif

#define PBT_SUB(id, quick, thorough, rule)                                           \
  static void id(pbt::Case&);                                                        \
  static pbt::Register register_##id{#id, quick, thorough, id, rule};                \
  static void id(pbt::Case& c)
