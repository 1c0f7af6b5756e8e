// Runner shared by all harnesses: deterministic case generation, crash isolation, event accounting.
//
// A harness registers suites (one per monitored property).  A suite is a function of a `Ctx`; it must be
// deterministic in (seed, suite, case index).  Worker processes execute cases in-process; if a worker dies
// (assertion, sanitizer report, signal, uncaught exception, hang) the parent attributes the death to the case
// that was running, records it as a violation and starts a fresh worker with the next case.
#pragma once

#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

  namespace fs = std::filesystem;

  inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }

  inline std::uint64_t hash_bytes(const void* data, std::size_t len, std::uint64_t h = 1469598103934665603ull) {
    const unsigned char* p = static_cast<const unsigned char*>(data);
    for(std::size_t i = 0; i < len; i++) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
  }
  inline std::uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

  struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 0) : s(seed) { }
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; std::uint64_t x = s;
      x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    // inclusive
    std::size_t range(std::size_t a, std::size_t b) { return a + next() % (b - a + 1); }
    long irange(long a, long b) { return a + (long)(next() % (std::uint64_t)(b - a + 1)); }
    double real() { return (double)(next() >> 11) / 9007199254740992.0; }
    double real(double a, double b) { return a + (b - a) * real(); }
    bool chance(double p) { return real() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T>& v) { for(std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]); }
  };

  // thrown by the monitors
  struct Fail : std::exception {
    std::string key, msg;
    Fail(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) { }
    const char* what() const noexcept override { return msg.c_str(); }
  };

  struct Ctx {
    Rng rng;
    std::uint64_t idx = 0;
    bool thorough = false;
    fs::path dir;                               // empty scratch directory for this case
    std::ostringstream desc;                    // what this case does
    std::uint64_t sig = 0;                      // hash of the observed behaviour class (defaults to hash of desc)
    std::uint64_t digest = 1469598103934665603ull;   // hash over observed outputs
    bool nontrivial = false;
    std::map<std::string, std::uint64_t> counters;
    void count(const std::string& k, std::uint64_t n = 1) { counters[k] += n; }
    void out(const void* p, std::size_t n) { digest = hash_bytes(p, n, digest); }
    template <class T> void outv(const T& v) { out(&v, sizeof(v)); }
    fs::path sub(const std::string& name) { return dir / name; }
  };

  [[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Fail(key, msg); }

  template <class... A> std::string cat(const A&... a) { std::ostringstream s; s.precision(9); (s << ... << a); return s.str(); }

#define VH_CHECK(cond, key, ...) do { if(!(cond)) { vh::fail(key, vh::cat(#cond, " violated: ", __VA_ARGS__)); } } while(0)

  // runs the same case several times in this process: the memory in use must not grow from one repetition to the next
  inline void check_no_growth(Ctx& c, const std::function<void(Ctx&)>& fn) {
    // Chunks that the allocator keeps for reuse count as memory in use, hence the numbers may rise for a while also without any leak. What leaks must rise with (nearly) every repetition, for as long as
    // they go on: if it does for the first few, many more follow.
    std::vector<std::size_t> used;
    const int reps = 6, more = 80;
    used.reserve(reps + more);
    auto repeat = [&] {
      { Ctx k; k.rng = c.rng; k.idx = c.idx; k.thorough = c.thorough; k.dir = c.dir / "rep"; fs::create_directories(k.dir); fn(k); fs::remove_all(k.dir);
	if(used.empty()) { c.desc << "repeated: " << k.desc.str(); c.sig = k.sig; c.nontrivial = k.nontrivial; for(auto& [a, b] : k.counters) c.count(a, b); } }
      struct mallinfo2 m = mallinfo2();
      used.push_back(m.uordblks + m.hblkhd);
    };
    auto rises = [&](std::size_t from) { std::size_t n = 0; for(std::size_t i = from; i < used.size(); i++) n += used[i] > used[i - 1]; return n; };
    for(int i = 0; i < reps; i++) repeat();
    bool grows = rises(2) == reps - 2;
    if(grows) { for(int i = 0; i < more; i++) repeat(); grows = rises(reps) >= more * 9 / 10; c.count("long_repetitions"); }
    c.count("memory_samples", (std::uint64_t)used.size());
    VH_CHECK(!grows, "leak", "memory in use grows with every repetition of the same operations: ", used[1], " -> ", used.back(), " bytes in ", used.size() - 2, " repetitions");
  }

  using suite_fn = std::function<void(Ctx&)>;
  struct Suite { std::string name; suite_fn fn; double timeout_s; };
  inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
  struct Reg { Reg(const std::string& n, suite_fn f, double timeout_s = 60) { suites().push_back({n, std::move(f), timeout_s}); } };

  inline std::string json_escape(const std::string& in) {
    std::string o;
    for(unsigned char c : in) {
      if(c == '"') o += "\\\"";
      else if(c == '\\') o += "\\\\";
      else if(c == '\n') o += "\\n";
      else if(c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
    return o;
  }

  inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }

  struct Slot {                 // shared between parent and one worker
    std::atomic<std::uint64_t> idx;
    std::atomic<std::uint64_t> running;   // 1 while a case runs
    std::atomic<double> started;
  };

  struct Opts {
    std::string suite; std::uint64_t seed = 1; std::uint64_t cases = 1000; double budget = 20; int jobs = 8;
    std::string scratch = "/tmp"; std::string out; long only = -1; bool thorough = false; bool verbose = false; double tscale = 1;
    std::uint64_t first = 0; int maxviol = 20;
  };

  inline void run_case(const Suite& su, const Opts& o, std::uint64_t idx, const fs::path& wdir, FILE* log) {
    Ctx c;
    c.idx = idx; c.thorough = o.thorough;
    c.rng = Rng(mix(o.seed) ^ mix(hash_str(su.name)) ^ mix(idx * 0x9E3779B97F4A7C15ull + 17));
    c.dir = wdir / ("c" + std::to_string(idx));
    fs::create_directories(c.dir);
    std::string key, msg;
    try { su.fn(c); }
    catch(const Fail& f) { key = f.key; msg = f.msg; }
    catch(const std::exception& e) { key = "exception"; msg = std::string("unexpected exception: ") + e.what(); }
    catch(...) { key = "exception"; msg = "unexpected exception of unknown type"; }
    std::error_code ec;
    fs::remove_all(c.dir, ec);
    std::string d = c.desc.str();
    std::uint64_t sig = c.sig ? c.sig : hash_str(d);
    std::ostringstream line;
    line << "{\"idx\":" << idx << ",\"sig\":" << sig << ",\"nt\":" << (c.nontrivial ? 1 : 0) << ",\"dig\":" << c.digest << ",\"cnt\":{";
    bool first = true;
    for(auto& [k, v] : c.counters) { line << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v; first = false; }
    line << "}";
    if(idx % 97 == 3 || idx < 3 || !key.empty()) line << ",\"desc\":\"" << json_escape(d.substr(0, 1500)) << "\"";
    if(!key.empty()) line << ",\"key\":\"" << json_escape(key) << "\",\"msg\":\"" << json_escape(msg.substr(0, 1500)) << "\"";
    line << "}\n";
    std::string s = line.str();
    std::fwrite(s.data(), 1, s.size(), log);
    std::fflush(log);
  }

  inline std::string tail_of(const fs::path& p, std::size_t n) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    // keep the most informative part: start of a sanitizer report / assertion message
    std::size_t pos = s.find("ERROR: AddressSanitizer");
    if(pos == std::string::npos) pos = s.find("WARNING: ThreadSanitizer");
    if(pos == std::string::npos) pos = s.find("runtime error");
    if(pos == std::string::npos) pos = s.find("Assertion");
    if(pos != std::string::npos) { std::size_t b = s.rfind('\n', pos); if(b == std::string::npos) b = 0; return s.substr(b, n); }
    return s.size() > n ? s.substr(s.size() - n) : s;
  }

  inline int main_impl(int argc, char** argv) {
    Opts o;
    for(int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { if(i + 1 >= argc) { std::fprintf(stderr, "missing value for %s\n", a.c_str()); std::exit(2); } return argv[++i]; };
      if(a == "--suite") o.suite = val(); else if(a == "--seed") o.seed = std::stoull(val());
      else if(a == "--cases") o.cases = std::stoull(val()); else if(a == "--budget") o.budget = std::stod(val());
      else if(a == "--jobs") o.jobs = std::stoi(val()); else if(a == "--scratch") o.scratch = val();
      else if(a == "--out") o.out = val(); else if(a == "--only") o.only = std::stol(val());
      else if(a == "--first") o.first = std::stoull(val());
      else if(a == "--thorough") o.thorough = true; else if(a == "--verbose") o.verbose = true;
      else if(a == "--tscale") o.tscale = std::stod(val());
      else if(a == "--list") { for(auto& s : suites()) std::printf("%s\n", s.name.c_str()); return 0; }
      else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    const Suite* su = nullptr;
    for(auto& s : suites()) if(s.name == o.suite) su = &s;
    if(!su) { std::fprintf(stderr, "no such suite: %s\n", o.suite.c_str()); return 2; }

    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    struct rlimit rf{256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &rf); signal(SIGXFSZ, SIG_IGN); // a runaway writer gets an error instead of filling the file system
    fs::path base = fs::path(o.scratch) / ("vh." + o.suite + "." + std::to_string(getpid()));
    fs::create_directories(base);

    if(o.only >= 0) {      // run one case in this very process (for replay and for valgrind)
      if(!o.verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn); }
      FILE* log = o.out.empty() ? stderr : std::fopen(o.out.c_str(), "a");
      for(std::uint64_t i = (std::uint64_t)o.only; i < (std::uint64_t)o.only + (o.first ? o.first : 1); i++) run_case(*su, o, i, base, log);
      if(log != stderr) std::fclose(log);
      std::error_code ec; fs::remove_all(base, ec);
      return 0;
    }

    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * o.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(o.jobs, -1);
    std::vector<std::uint64_t> next(o.jobs);
    double t0 = now(), deadline = t0 + o.budget;
    FILE* vlog = std::fopen((o.out + ".parent").c_str(), "w");
    int nviol = 0;

    auto spawn = [&](int w) {
      slots[w].running = 0; slots[w].started = now();
      pid_t p = fork();
      if(p == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn);
        fs::path ep = base / ("err." + std::to_string(w));
        int ef = open(ep.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(ef, 2); close(ef);
        FILE* log = std::fopen((o.out + "." + std::to_string(w)).c_str(), "a");
        fs::path wdir = base / ("w" + std::to_string(w));
        for(std::uint64_t i = next[w]; i < o.cases && now() < deadline; i += o.jobs) {
          if(ftruncate(2, 0)) { }
          slots[w].idx = i; slots[w].started = now(); slots[w].running = 1;
          run_case(*su, o, i, wdir, log);
          slots[w].running = 0;
        }
        std::fclose(log);
        _exit(0);
      }
      pid[w] = p;
    };
    for(int w = 0; w < o.jobs; w++) { next[w] = o.first + w; spawn(w); }
    int alive = o.jobs;
    while(alive > 0) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if(p > 0) {
        int w = -1; for(int i = 0; i < o.jobs; i++) if(pid[i] == p) w = i;
        if(w < 0) continue;
        pid[w] = -1; alive--;
        bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !slots[w].running;
        if(!clean) {
          std::string how = WIFSIGNALED(st) ? cat("killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")") : cat("exited with status ", WEXITSTATUS(st));
          bool hang = slots[w].running == 2;
          if(hang) how = "did not finish within its time limit";
          std::string t = tail_of(base / ("err." + std::to_string(w)), 3000);
          std::string key = hang ? "hang" : (t.find("AddressSanitizer") != std::string::npos || t.find("ThreadSanitizer") != std::string::npos || t.find("runtime error") != std::string::npos) ? "sanitizer"
            : t.find("Assertion") != std::string::npos ? "assert" : (WIFEXITED(st) && WEXITSTATUS(st) == 99) ? "memcheck" : "crash";
          std::fprintf(vlog, "{\"idx\":%llu,\"sig\":0,\"nt\":1,\"dig\":0,\"cnt\":{},\"key\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)slots[w].idx.load(), key.c_str(), json_escape(how + "\n" + t).c_str());
          std::fflush(vlog);
          std::error_code ec; fs::remove_all(base / ("w" + std::to_string(w)), ec);
          next[w] = slots[w].idx + o.jobs;
          if(++nviol < o.maxviol && now() < deadline && next[w] < o.cases) { spawn(w); alive++; }
        }
        continue;
      }
      double tn = now();
      for(int w = 0; w < o.jobs; w++)
        if(pid[w] > 0 && slots[w].running == 1 && tn - slots[w].started > su->timeout_s * o.tscale) { slots[w].running = 2; kill(pid[w], SIGKILL); }
      usleep(2000);
    }
    std::fclose(vlog);
    std::error_code ec; fs::remove_all(base, ec);
    return 0;
  }
}

// With VH_PERTURB=<byte> in the environment, the beginning of every new allocation is filled with that byte (like glibc's MALLOC_PERTURB_,
// which would spend most of its time in filling the very large buffers that the Green's function reserves).
#if !defined(__SANITIZE_ADDRESS__) && defined(VH_FILL_NEW)
namespace vh { inline int perturb_byte() { static int b = getenv("VH_PERTURB") ? atoi(getenv("VH_PERTURB")) : -1; return b; } }
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); if(vh::perturb_byte() >= 0) std::memset(p, vh::perturb_byte(), std::min<std::size_t>(n, 1 << 17)); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif

#define VH_MAIN int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
