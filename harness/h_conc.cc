// Several processes that use the same directories at the same time, and independent objects in several threads.
//
// Processes: the calls through which the C++ library opens, writes, renames or removes files are interposed; each is a scheduling point at which
// a scheduler in shared memory decides which of the processes runs next (only one runs at a time).  Interleavings are therefore a function of
// the seed, can be replayed, and are counted.
// Threads: no control of the schedule; results are compared with those of the same work done sequentially (and ThreadSanitizer watches).
#include "gfm.hh"
#include "AnalyticGreensFunctionCalculator.hh"
#include <dlfcn.h>
#include <mutex>
#include <semaphore.h>
#include <sys/sendfile.h>
#include <sys/uio.h>

namespace sched {
  constexpr int maxp = 6;
  struct Shared {
    sem_t go[maxp];
    std::atomic<int> alive[maxp];
    std::atomic<std::uint64_t> rng, trace, switches, points;
    std::atomic<int> failed;
    char key[64], what[1500];
    int n; double p_switch;
    int victim; long victim_at;       // a process that dies at its k-th scheduling point
  };
  inline Shared* sh = nullptr;
  inline int me = -1;                 // -1: not scheduled
  inline long mine = 0;

  inline std::uint64_t draw() { vh::Rng r(sh->rng); std::uint64_t x = r.next(); sh->rng = r.s; return x; }
  inline int other(bool self_ok) { int c[maxp], k = 0; for(int i = 0; i < sh->n; i++) if(sh->alive[i] && (self_ok || i != me)) c[k++] = i; return k ? c[draw() % (std::uint64_t)k] : -1; }
  inline void hand_over(int q) { sem_post(&sh->go[q]); }
  inline void wait() { while(sem_wait(&sh->go[me]) && errno == EINTR) { } }
  inline void leave() { if(me < 0) return; sh->alive[me] = 0; int q = other(false); if(q >= 0) hand_over(q); me = -1; }
  inline void point(int kind) {
    if(me < 0) return;
    mine++;
    sh->points++;
    if(me == sh->victim && mine == sh->victim_at) { leave(); _exit(42); }
    if((double)(draw() >> 11) / 9007199254740992.0 >= sh->p_switch) return;
    int q = other(false);
    if(q < 0) return;
    sh->switches++; sh->trace = vh::mix(sh->trace * 31 + (std::uint64_t)(q * 64 + me * 8 + kind));
    hand_over(q); wait();
  }
  template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}

#define SC_REAL(name) static auto real_fn = sched::real<decltype(&name)>(#name)

#if !defined(__SANITIZE_THREAD__)
extern "C" {
  ssize_t write(int fd, const void* b, size_t n) { SC_REAL(write); if(fd > 2) sched::point(1); return real_fn(fd, b, n); }
  ssize_t writev(int fd, const struct iovec* v, int cnt) { SC_REAL(writev); if(fd > 2) sched::point(1); return real_fn(fd, v, cnt); }
  ssize_t read(int fd, void* b, size_t n) { SC_REAL(read); if(fd > 2) sched::point(2); return real_fn(fd, b, n); }
  FILE* fopen(const char* p, const char* m) { static auto real_fn = sched::real<FILE* (*)(const char*, const char*)>("fopen"); sched::point(3); return real_fn(p, m); }
  FILE* fopen64(const char* p, const char* m) { static auto real_fn = sched::real<FILE* (*)(const char*, const char*)>("fopen64"); sched::point(3); return real_fn(p, m); }
  int fclose(FILE* f) { static auto real_fn = sched::real<int (*)(FILE*)>("fclose"); sched::point(4); return real_fn(f); }
  int rename(const char* x, const char* y) noexcept { SC_REAL(rename); sched::point(5); return real_fn(x, y); }
  int remove(const char* x) noexcept { SC_REAL(remove); sched::point(6); return real_fn(x); }
  int unlink(const char* x) noexcept { SC_REAL(unlink); sched::point(6); return real_fn(x); }
  int unlinkat(int d, const char* x, int f) noexcept { SC_REAL(unlinkat); sched::point(6); return real_fn(d, x, f); }
  int mkdir(const char* x, mode_t m) noexcept { SC_REAL(mkdir); sched::point(7); return real_fn(x, m); }
  int truncate(const char* x, off_t n) noexcept { SC_REAL(truncate); sched::point(5); return real_fn(x, n); }
  int ftruncate(int fd, off_t n) noexcept { SC_REAL(ftruncate); if(fd > 2) sched::point(5); return real_fn(fd, n); }
}
#endif

using namespace ev;

namespace {

  // runs the given programs in processes of their own, interleaved at their file operations
  struct Procs {
    Ctx& c; std::vector<std::function<void()>> fn; std::vector<std::string> name; std::vector<int> status;
    double p_switch; int victim = -1; long victim_at = 0;
    explicit Procs(Ctx& c_) : c(c_) { static const double p[] = {0.03, 0.1, 0.3, 0.6, 1.0}; p_switch = p[c.rng.range(0, 4)]; }
    void add(std::string n, std::function<void()> f) { name.push_back(std::move(n)); fn.push_back(std::move(f)); }
    void run() {
      using namespace sched;
      int n = (int)fn.size();
      sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::memset((void*)sh, 0, sizeof(Shared));
      sh->n = n; sh->p_switch = p_switch; sh->victim = victim; sh->victim_at = victim_at; sh->rng = c.rng.next();
      for(int i = 0; i < n; i++) { sem_init(&sh->go[i], 1, 0); sh->alive[i] = 1; }
      std::vector<pid_t> pid;
      for(int i = 0; i < n; i++) {
	pid_t p = fork();
	if(p == 0) {
	  me = i; wait();
	  auto report = [&](const std::string& k, const std::string& m) { if(!sh->failed.exchange(1)) { snprintf(sh->key, sizeof sh->key, "%s", k.c_str()); snprintf(sh->what, sizeof sh->what, "%s: %s", name[(std::size_t)i].c_str(), m.c_str()); } };
	  int code = 0;
	  try { fn[(std::size_t)i](); }
	  catch(const Fail& f) { report(f.key, f.msg); code = 3; }
	  catch(const std::exception& e) { report("unexpected_error", e.what()); code = 4; }
	  leave();
	  _exit(code);
	}
	pid.push_back(p);
      }
      sem_post(&sh->go[draw() % (std::uint64_t)n]);
      status.assign((std::size_t)n, 0);
      std::string died;
      for(int left = n; left > 0; left--) {
	int st = 0; pid_t p; while((p = waitpid(-1, &st, 0)) < 0 && errno == EINTR) { }
	int i = (int)(std::find(pid.begin(), pid.end(), p) - pid.begin());
	if(i >= n) { left++; continue; }
	status[(std::size_t)i] = st;
	if(WIFSIGNALED(st)) {      // died without handing over: the others still have to finish
	  died = cat(name[(std::size_t)i], " was killed by signal ", WTERMSIG(st));
	  sh->alive[i] = 0; me = i; int q = other(false); me = -1; if(q >= 0) hand_over(q);
	}
      }
      c.count("scheduling_points", sh->points); c.count("process_switches", sh->switches); c.count("processes", (std::uint64_t)n);
      c.sig = mix(c.sig ^ sh->trace);
      bool failed = sh->failed; std::string k = sh->key, w = sh->what;
      for(int i = 0; i < n; i++) sem_destroy(&sh->go[i]);
      munmap(sh, sizeof(Shared)); sh = nullptr;
      if(failed) fail(k, w);
      if(!died.empty()) fail("killed", died);
      for(int i = 0; i < n; i++) { int s = status[(std::size_t)i]; VH_CHECK(WIFEXITED(s) && (WEXITSTATUS(s) == 0 || (i == victim && WEXITSTATUS(s) == 42)), "status", name[(std::size_t)i], " ended with status ", s); }
      if(victim >= 0 && WEXITSTATUS(status[(std::size_t)victim]) == 42) c.count("processes_killed");
    }
  };

  // ---- an array that several processes read, while another one may extend it
  struct Stored {
    I3 n; Dense d; std::vector<std::pair<I3, I3>> chunks; std::size_t base = 0;     // the first `base` chunks exist from the start
    Stored(Rng& r) {
      n = {r.irange(2, 7), r.irange(2, 6), r.irange(2, 7)};
      if(r.chance(0.15)) n = {r.irange(2, 4), r.irange(10, 30), r.irange(10, 40)};
      d = Dense(n); Values v(r);
      each({0, 0, 0}, n, [&](I3 i) { d.set(i, v.next()); });
      split(r, {0, 0, 0}, n, r.irange(1, 4)); r.shuffle(chunks);
      base = chunks.size();
    }
    void split(Rng& r, I3 b, I3 e, long lv) {
      int k = (int)r.range(0, 2);
      if(lv <= 0 || e[k] - b[k] < 2) { if(lv > 0 && vol(e - b) > 1) return split(r, b, e, lv - 1); chunks.push_back({b, e}); return; }
      I3 m1 = e, m2 = b; long cut = r.irange(b[k] + 1, e[k] - 1); m1[k] = cut; m2[k] = cut;
      split(r, b, m1, lv - 1); split(r, m2, e, lv - 1);
    }
    void store(darr_t& a, std::size_t i, bool opt) const {
      auto [b, e] = chunks[i]; arr_t x(U(e - b)); I3 o = b;
      each(b, e, [&](I3 j) { put(x, j - o, d.at(j)); });
      a.RegisterChunk(x, U(b), opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    }
  };

  std::unique_ptr<darr_t> open_arr(const fs::path& p, std::size_t depth) { return std::make_unique<darr_t>(p, depth, U(I3{3, 3, 3}), streamer_shape()); }

  void read_base(Rng& r, darr_t& a, const Stored& s, bool complete) {
    int k = (int)r.range(0, 2);
    if(k == 0 && complete) {
      I3 lo, hi; for(int d = 0; d < 3; d++) { lo[d] = r.irange(0, s.n[d] - 1); hi[d] = r.irange(lo[d] + 1, s.n[d]); }
      arr_t out(U(hi - lo), 4711.0f);
      a.FillArray(out, U(lo), U(hi), U(I3{0, 0, 0}));
      each(lo, hi, [&](I3 i) { F2 x = get(out, i - lo); VH_CHECK(x == s.d.at(i), "wrong_value", "region ", lo, hi, ": element ", i, " is ", x, ", stored was ", s.d.at(i)); });
      return;
    }
    if(k == 1 && complete) { VH_CHECK(L(a.GetShape()) == s.n, "shape", "shape is ", L(a.GetShape()), ", stored was ", s.n); }
    for(int q = (int)r.range(1, 8); q > 0; q--) {
      auto [b, e] = s.chunks[r.range(0, s.base - 1)];
      I3 i; for(int d = 0; d < 3; d++) i[d] = r.irange(b[d], e[d] - 1);
      auto v = a[U(i)]; F2 x{v[0], v[1]};
      VH_CHECK(x == s.d.at(i), "wrong_value", "element ", i, " is ", x, ", stored was ", s.d.at(i));
    }
  }

  void verify_all(Ctx& c, const fs::path& dir, const Stored& s, std::size_t upto, const char* what) {
    std::unique_ptr<darr_t> a;
    try { a = open_arr(dir, c.rng.range(0, 3)); } catch(const std::exception& e) { fail("lost_all", cat(what, ": the array can no longer be opened: ", e.what())); }
    for(std::size_t k = 0; k < upto; k++) each(s.chunks[k].first, s.chunks[k].second, [&](I3 i) {
      F2 x{};
      try { auto v = (*a)[U(i)]; x = {v[0], v[1]}; } catch(const std::exception& e) { fail("lost", cat(what, ": element ", i, " cannot be read any more: ", e.what())); }
      VH_CHECK(x == s.d.at(i), "wrong_value", what, ": element ", i, " is ", x, ", stored was ", s.d.at(i));
    });
    c.count("elements_verified");
  }

  std::map<std::string, std::string> files_of(const fs::path& dir) {
    std::map<std::string, std::string> m;
    for(auto& e : fs::recursive_directory_iterator(dir)) if(e.is_regular_file()) { std::ifstream f(e.path(), std::ios::binary); m[fs::relative(e.path(), dir).string()] = std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
    return m;
  }
  void same_files(Ctx& c, const std::map<std::string, std::string>& before, const fs::path& dir) {
    auto after = files_of(dir);
    for(auto& [n, x] : before) { VH_CHECK(after.count(n), "files_changed", "reading removed the file ", n); VH_CHECK(after[n] == x, "files_changed", "reading changed the file ", n); }
    for(auto& [n, x] : after) VH_CHECK(before.count(n), "files_changed", "reading left the file ", n, " behind");
    c.count("files_compared", before.size());
  }

  void array_case(Ctx& c) {
    Rng& r = c.rng; Stored s(r);
    bool opt = r.chance(0.3), writer = r.chance(0.5) && s.chunks.size() > 1;
    if(writer) s.base = r.range(1, s.chunks.size() - 1);
    fs::path dir = c.sub("arr");
    { auto a = open_arr(dir, r.range(0, 4)); for(std::size_t i = 0; i < s.base; i++) s.store(*a, i, opt); }
    int readers = (int)r.range(writer ? 1 : 2, 4);
    c.desc << "array " << s.n << " chunks " << s.base << "/" << s.chunks.size() << " readers " << readers << (writer ? " and a writer" : "") << (opt ? " hints" : "");
    Procs p(c);
    for(int i = 0; i < readers; i++) {
      std::uint64_t seed = r.next();
      p.add(cat("reader ", i), [&c, &s, dir, seed, writer] {
	Rng q(seed);
	for(int k = (int)q.range(1, 3); k > 0; k--) { auto a = open_arr(dir, q.range(0, 4)); for(int j = (int)q.range(1, 3); j > 0; j--) read_base(q, *a, s, !writer); if(!writer && q.chance(0.1)) a->Flush(); }
      });
    }
    if(writer) {
      std::uint64_t seed = r.next();
      p.add("writer", [&s, dir, seed, opt] {
	Rng q(seed); auto a = open_arr(dir, q.range(0, 4));
	for(std::size_t k = s.base; k < s.chunks.size(); k++) { s.store(*a, k, opt); if(q.chance(0.3)) read_base(q, *a, s, false); if(q.chance(0.3)) a->Flush(); if(q.chance(0.15)) { a.reset(); a = open_arr(dir, q.range(0, 4)); } }
      });
    }
    if(r.chance(0.3)) { p.victim = (int)r.range(0, (std::size_t)readers - 1); p.victim_at = r.irange(1, 40); }
    auto before = files_of(dir);
    p.run();
    if(!writer) same_files(c, before, dir);
    verify_all(c, dir, s, s.chunks.size(), "afterwards");
    verify_all(c, dir, s, s.chunks.size(), "opened again");
    c.nontrivial = true;
  }

  // ---- a Green's function that several processes evaluate
  void gf_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, false, false);
    if(s.ns > 20) s.ns = 20;
    fs::path dir = c.sub("gf");
    build_gf(c, s.m, dir, s.cs, 2, r.chance(0.5));
    std::vector<float> want;
    { CylindricalGreensFunction gf(dir, 2); want = signal<K::Linear, float>(gf, s, s.g, s.t_sig, s.ns); }
    int readers = (int)r.range(2, 4);
    c.desc << " readers " << readers;
    auto eval = [&, dir](std::uint64_t seed) {
      Rng q(seed);
      for(int k = (int)q.range(1, 2); k > 0; k--) {
	std::vector<float> got;
	if(q.chance(0.7)) { CylindricalGreensFunction gf(dir, q.range(0, 4)); got = signal<K::Linear, float>(gf, s, s.g, s.t_sig, s.ns); }
	else { SignalCalculator sc(dir, q.range(0, 4)); got.assign(s.ns, 0); sc.AccumulateSignal(s.g.seg(), s.t_sig, s.t_samp, s.ns, got); CylindricalGreensFunction gf(dir, 1); got = signal<K::Linear, float>(gf, s, s.g, s.t_sig, s.ns); }
	for(std::size_t i = 0; i < s.ns; i++) VH_CHECK(std::memcmp(&got[i], &want[i], 4) == 0, "signal", "sample ", i, " is ", got[i], ", but ", want[i], " if nobody else uses the Green's function");
      }
    };
    Procs p(c);
    for(int i = 0; i < readers; i++) { std::uint64_t seed = r.next(); p.add(cat("reader ", i), [&eval, seed] { eval(seed); }); }
    if(r.chance(0.3)) { p.victim = (int)r.range(0, (std::size_t)readers - 1); p.victim_at = r.irange(1, 60); }
    auto before = files_of(dir);
    p.run();
    same_files(c, before, dir);
    try { eval(r.next()); } catch(const Fail&) { throw; } catch(const std::exception& e) { fail("lost_all", cat("afterwards, the Green's function can no longer be used: ", e.what())); }
    c.count("greens_functions_shared"); c.nontrivial = true;
  }

  // ---- different arrays whose owners share a directory for temporary use, or live next to each other
  void neighbours_case(Ctx& c) {
    Rng& r = c.rng;
    int n = (int)r.range(2, 3);
    fs::path shared = c.sub("scratch"), home = c.sub("home"); fs::create_directories(shared); fs::create_directories(home);
    { std::ofstream f(shared / "notes.txt"); f << "of somebody else"; }
    std::vector<std::unique_ptr<Stored>> st; std::vector<fs::path> final_dir;
    Procs p(c);
    for(int i = 0; i < n; i++) { st.push_back(std::make_unique<Stored>(r)); final_dir.push_back(home / cat("b", i)); }
    c.desc << "neighbours " << n;
    for(int i = 0; i < n; i++) {
      std::uint64_t seed = r.next(); const Stored* s = st[(std::size_t)i].get(); fs::path a_dir = home / cat("a", i), b_dir = final_dir[(std::size_t)i];
      p.add(cat("owner ", i), [=] {
	Rng q(seed); auto a = open_arr(a_dir, q.range(0, 4));
	for(std::size_t k = 0; k < s->chunks.size(); k++) s->store(*a, k, q.chance(0.3));
	for(int k = (int)q.range(1, 2); k > 0; k--) {
	  I3 cs{q.irange(1, 5), q.irange(1, 5), q.irange(1, 5)};
	  a->RebuildChunks(U(cs), shared, (std::size_t)q.range(0, 2), SpatialSymmetry::Cylindrical<float>::boundary_evaluator);
	  read_base(q, *a, *s, true);
	}
	a->Move(b_dir); read_base(q, *a, *s, true);
	if(q.chance(0.5)) { a.reset(); a = open_arr(b_dir, q.range(0, 4)); read_base(q, *a, *s, true); }
      });
    }
    p.run();
    for(int i = 0; i < n; i++) verify_all(c, final_dir[(std::size_t)i], *st[(std::size_t)i], st[(std::size_t)i]->chunks.size(), cat("array ", i, " afterwards").c_str());
    long left = 0; for(auto& e : fs::recursive_directory_iterator(shared)) { (void)e; left++; }
    VH_CHECK(left == 1, "scratch", left - 1, " files are left in the directory for temporary use");
    c.count("neighbour_arrays", (std::uint64_t)n); c.nontrivial = true;
  }

  Reg c33("C33", [](Ctx& c) { switch(c.rng.range(0, 9)) { case 0: case 1: neighbours_case(c); break; case 2: case 3: gf_case(c); break; default: array_case(c); } }, 60);

  // ---- independent objects in threads
  std::uint64_t work(std::uint64_t seed, const fs::path& dir, const fs::path& gfdir, const SigSetup& s, int steps, bool with_gf) {
    Rng r(seed); Ctx t; t.rng = Rng(seed ^ 77); t.dir = dir;
    fs::create_directories(dir);
    std::unique_ptr<CylindricalGreensFunction> gf;
    for(int k = 0; k < steps; k++) { int kind = (int)r.range(0, 9); if(!with_gf && kind >= 2 && kind <= 5) kind = kind < 4 ? 0 : kind == 4 ? 6 : 8; switch(kind) {
      case 0: case 1: {
	Stored st(r); fs::path a_dir = dir / cat("arr", k);
	auto a = open_arr(a_dir, r.range(0, 4));
	for(std::size_t i = 0; i < st.chunks.size(); i++) st.store(*a, i, r.chance(0.3));
	if(r.chance(0.5)) { a->RebuildChunks(U(I3{r.irange(1, 5), r.irange(1, 5), r.irange(1, 5)}), dir / "tmp", (std::size_t)r.range(0, 2), SpatialSymmetry::Cylindrical<float>::boundary_evaluator); }
	if(r.chance(0.3)) { a.reset(); a = open_arr(a_dir, r.range(0, 4)); }
	each({0, 0, 0}, st.n, [&](I3 i) { auto v = (*a)[U(i)]; t.outv(v[0]); t.outv(v[1]); VH_CHECK((F2{v[0], v[1]} == st.d.at(i)), "wrong_value", "element ", i, " is ", v[0], " ", v[1], ", stored was ", st.d.at(i)); });
	break;
      }
      case 2: case 3: case 4: {
	if(!gf || r.chance(0.3)) gf = std::make_unique<CylindricalGreensFunction>(gfdir, r.range(0, 4));
	for(int n = (int)r.range(1, 30); n > 0; n--) {    // (several in a row: threads meet in the same places)
	  Seg g = s.g; if(n % 2) { std::swap(g.p0, g.p1); g.q = -g.q; }
	  auto v = r.chance(0.5) ? signal<K::Linear, float>(*gf, s, g, s.t_sig, s.ns) : signal<K::Keys, float>(*gf, s, g, s.t_sig, s.ns);
	  t.out(v.data(), v.size() * 4);
	}
	break;
      }
      case 5: {
	fs::path p = dir / cat("dip", k);
	GreensFunctionCalculator::Analytic::ElectricDipole(p, dir / "dtmp", RZCoordVector{0, -2}, RZCoordVector{(float)r.real(3, 6), 3}, 6, 1.3f, 3, (unsigned)r.range(2, 5), 0.1f, 2, r.range(3, 20));
	CylindricalGreensFunction g(p, r.range(0, 3)); arr_t a(U(I3{4, 4, 4}));
	g.fill_array<K::Linear>(RZTCoordVector{0.5f, -1, 1}, RZTCoordVector{2.5f, 2, 5}, RZTVector<std::size_t>{(std::size_t)4, (std::size_t)4, (std::size_t)4}, a);
	each({0, 0, 0}, {4, 4, 4}, [&](I3 i) { F2 x = get(a, i); t.outv(x); });
	break;
      }
      case 6: {
	arr_t a(U(I3{r.irange(1, 9), r.irange(1, 9), r.irange(1, 20)})), b(U(I3{1, 1, 1})); Values v(r);
	each({0, 0, 0}, L(a.GetShape()), [&](I3 i) { put(a, i, v.next()); });
	stor::NDVecArrayStreamer<NDVecArray, float, 3, 2> st; fs::path f = dir / cat("s", k);
	{ std::fstream o(f, std::ios::out | std::ios::binary); st.serialize(o, a, U(I3{1, r.irange(1, 9), 5}), r.chance(0.5) ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense); }
	{ std::fstream o(f, std::ios::in | std::ios::binary); st.deserialize(o, b); }
	VH_CHECK(L(a.GetShape()) == L(b.GetShape()), "shape", "shape is ", L(b.GetShape()));
	each({0, 0, 0}, L(a.GetShape()), [&](I3 i) { VH_CHECK(get(a, i) == get(b, i), "wrong_value", "element ", i, " is ", get(b, i), ", stored was ", get(a, i)); F2 x = get(b, i); t.outv(x); });
	break;
      }
      case 8: {
	arr_t a(U(I3{r.irange(6, 9), r.irange(6, 9), r.irange(8, 20)})); Values v(r);
	each({0, 0, 0}, L(a.GetShape()), [&](I3 i) { put(a, i, v.next()); });
	for(int n = (int)r.range(20, 400); n > 0; n--) {
	  Vector<float, 2> o{(float)r.real(2, 3.5), (float)r.real(2, 3.5)}; float start = (float)r.real(2, 3), delta = (float)r.real(0.01, 0.5); std::size_t m = r.range(1, 8);
	  NDVecArray<float, 1, 2> out(m, 0.0f);
	  if(r.chance(0.5)) Interpolation::interpolate<K::Keys>(a, out, o, start, delta, m); else Interpolation::interpolate<K::Linear>(a, out, o, start, delta, m);
	  for(std::size_t k = 0; k < m; k++) { auto x = out[k]; t.outv(x[0]); t.outv(x[1]); }
	}
	break;
      }
      default: {
	float z = (float)r.real(0, 20), a = (float)r.range(1, 8); float g = MathUtils::incomplete_gamma(a, z); t.outv(g);
	std::vector<float> w(r.range(2, 50)); Quadrature::TrapezoidalRule::fill_weights(0, w.size(), w.size(), w.begin(), w.end()); t.out(w.data(), w.size() * 4);
      }
    } }
    return t.digest;
  }

  Reg c33t("C33threads", [](Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, false, false); if(s.ns > 20) s.ns = 20;
    fs::path gfdir = c.sub("gf");
    bool with_gf = true;
#if defined(__SANITIZE_THREAD__)
    with_gf = r.chance(0.08);    // touching the large cache reservations of Green's functions takes seconds here
#endif
    if(with_gf) build_gf(c, s.m, gfdir, s.cs, 2, r.chance(0.5));
    int n = (int)r.range(2, 4), steps = (int)r.range(2, 6);
    std::vector<std::uint64_t> seed, par((std::size_t)n), seq; for(int i = 0; i < n; i++) seed.push_back(r.next());
    if(r.chance(0.3)) for(auto& x : seed) x = seed[0];      // all the same
    std::vector<std::string> err((std::size_t)n);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for(int i = 0; i < n; i++) th.emplace_back([&, i] {
      ready++; while(ready < n) { }
      try { par[(std::size_t)i] = work(seed[(std::size_t)i], c.dir / cat("p", i), gfdir, s, steps, with_gf); } catch(const std::exception& e) { err[(std::size_t)i] = e.what(); }
    });
    for(auto& t : th) t.join();
    for(int i = 0; i < n; i++) VH_CHECK(err[(std::size_t)i].empty(), "thread_error", "thread ", i, ": ", err[(std::size_t)i]);
    for(int i = 0; i < n; i++) { std::uint64_t d = work(seed[(std::size_t)i], c.dir / cat("q", i), gfdir, s, steps, with_gf); VH_CHECK(d == par[(std::size_t)i], "thread_result", "thread ", i, " of ", n, " obtained other results than the same work without other threads"); }
    c.desc << " threads " << n << " steps " << steps; c.count("threads", (std::uint64_t)n); if(with_gf) c.count("with_greens_function"); c.count("work_items", (std::uint64_t)(n * steps)); c.nontrivial = true;
  }, 60);
}

#if defined(__SANITIZE_THREAD__)
// lgamma() writes glibc's global 'signgam', which neither the library nor its users read
extern "C" const char* __tsan_default_suppressions() { return "race:signgam\nrace:lgamma\n"; }
#endif

VH_MAIN
