// Crash and fault injection for chunked arrays.  The calls through which the C++ library changes (or reads) files are interposed by this
// executable; in a forked child, the k-th of them ends the process (before, in the middle of, or after taking effect) or fails with an error.
// The child records in shared memory which elements were stored and which of them are guaranteed (covered by a successful flush);
// afterwards the directory is reopened and compared.
#include "ev.hh"
#include <dlfcn.h>
#include <sys/sendfile.h>
#include <sys/uio.h>

namespace fi {
  // Plan and trace, shared with the child
  struct Shared {
    std::atomic<long> calls;        // file-system calls made by the child while armed
    std::atomic<long> fired;        // faults that were injected
    std::atomic<long> reported;     // operations that reported an error by an exception
    std::atomic<long> silent_ops;   // operations that completed after a fault was injected, without any error reported
    std::atomic<int> fatal_phase;   // 1 while the destructor runs
    std::atomic<long> kinds[16];    // calls by kind
    char what[200];
  };
  inline Shared* sh = nullptr;
  inline bool armed = false;
  inline long at = -1;              // index of the call at which something happens
  enum Mode { none, die_before, die_middle, die_after, fail_once, fail_from, fail_short } mode = none;
  inline int err = ENOSPC;
  enum Kind { k_write, k_open, k_rename, k_unlink, k_mkdir, k_copy, k_trunc, k_read, k_openread };
  inline const char* kind_name[] = {"write", "create", "rename", "unlink", "mkdir", "copy", "truncate", "read", "open"};
  inline bool reads = false;        // also count (and fail) reading calls

  inline bool overwrites(int fd) { struct stat st; off_t p = lseek(fd, 0, SEEK_CUR); return fstat(fd, &st) == 0 && p < st.st_size; }

  struct Act { bool fail = false, die_after = false; std::size_t len = (std::size_t)-1; bool die_now = false; };
  inline Act hook(Kind k, std::size_t len = 0, int fd = -1) {
    Act a;
    if(!armed || ((k == k_read || k == k_openread) && !reads)) return a;
    long n = sh->calls.fetch_add(1);
    sh->kinds[k]++;
    if(n < at || (n > at && mode != fail_from)) return a;
    if(at < 0) return a;
    sh->fired++;
    if(n == at) snprintf(sh->what, sizeof sh->what, "%s", kind_name[k]);
    switch(mode) {
    case none: break;
    case die_before: _exit(42);
    case die_after: a.die_after = true; break;
    case die_middle: if(len > 1) { a.len = 1 + (std::size_t)at * 7919 % (len - 1); a.die_after = true; } else _exit(42); break;
    case fail_once: case fail_from: a.fail = true; break;
    case fail_short:
      // (an error halfway through overwriting existing bytes is left out: nothing but a redundant file format could cope with it)
      if(k == k_write && len > 1 && !overwrites(fd)) { a.len = 1 + (std::size_t)at * 7919 % (len - 1); mode = fail_once; at = n + 1; } else a.fail = true; break;
    }
    return a;
  }
  template <class F> F real(const char* n) { static_assert(std::is_pointer_v<F>); return (F)dlsym(RTLD_NEXT, n); }
}

#define FI_REAL(name) static auto real_fn = fi::real<decltype(&name)>(#name)
#define FI_END(a) do { if((a).die_after) _exit(42); } while(0)

extern "C" {
  ssize_t write(int fd, const void* b, size_t n) {
    FI_REAL(write);
    if(fd <= 2) return real_fn(fd, b, n);
    auto a = fi::hook(fi::k_write, n, fd);
    if(a.fail) { errno = fi::err; return -1; }
    ssize_t r = real_fn(fd, b, std::min(n, a.len)); FI_END(a); return r;
  }
  ssize_t writev(int fd, const struct iovec* v, int cnt) {
    FI_REAL(writev);
    size_t n = 0; for(int i = 0; i < cnt; i++) n += v[i].iov_len;
    auto a = fi::hook(fi::k_write, n, fd);
    if(a.fail) { errno = fi::err; return -1; }
    if(a.len < n) {
      std::string all; for(int i = 0; i < cnt; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
      static auto w = fi::real<ssize_t (*)(int, const void*, size_t)>("write");
      ssize_t r = w(fd, all.data(), a.len); FI_END(a); return r;
    }
    ssize_t r = real_fn(fd, v, cnt); FI_END(a); return r;
  }
  ssize_t read(int fd, void* b, size_t n) {
    FI_REAL(read);
    if(fd <= 2) return real_fn(fd, b, n);
    auto a = fi::hook(fi::k_read);
    if(a.fail) { errno = EIO; return -1; }
    return real_fn(fd, b, n);
  }
  FILE* fopen(const char* p, const char* m) {
    static auto real_fn = fi::real<FILE* (*)(const char*, const char*)>("fopen");
    auto a = fi::hook(m[0] == 'r' ? fi::k_openread : fi::k_open);
    if(a.fail) { errno = fi::err; return nullptr; }
    FILE* f = real_fn(p, m); FI_END(a); return f;
  }
  FILE* fopen64(const char* p, const char* m) {
    static auto real_fn = fi::real<FILE* (*)(const char*, const char*)>("fopen64");
    auto a = fi::hook(m[0] == 'r' ? fi::k_openread : fi::k_open);
    if(a.fail) { errno = fi::err; return nullptr; }
    FILE* f = real_fn(p, m); FI_END(a); return f;
  }
  int rename(const char* x, const char* y) noexcept { FI_REAL(rename); auto a = fi::hook(fi::k_rename); if(a.fail) { errno = fi::err; return -1; } int r = real_fn(x, y); FI_END(a); return r; }
  int remove(const char* x) noexcept { FI_REAL(remove); auto a = fi::hook(fi::k_unlink); if(a.fail) { errno = EACCES; return -1; } int r = real_fn(x); FI_END(a); return r; }
  int unlink(const char* x) noexcept { FI_REAL(unlink); auto a = fi::hook(fi::k_unlink); if(a.fail) { errno = EACCES; return -1; } int r = real_fn(x); FI_END(a); return r; }
  int unlinkat(int d, const char* x, int f) noexcept { FI_REAL(unlinkat); auto a = fi::hook(fi::k_unlink); if(a.fail) { errno = EACCES; return -1; } int r = real_fn(d, x, f); FI_END(a); return r; }
  int mkdir(const char* x, mode_t m) noexcept { FI_REAL(mkdir); auto a = fi::hook(fi::k_mkdir); if(a.fail) { errno = fi::err; return -1; } int r = real_fn(x, m); FI_END(a); return r; }
  int truncate(const char* x, off_t n) noexcept { FI_REAL(truncate); auto a = fi::hook(fi::k_trunc); if(a.fail) { errno = fi::err; return -1; } int r = real_fn(x, n); FI_END(a); return r; }
  int ftruncate(int fd, off_t n) noexcept { FI_REAL(ftruncate); if(fd <= 2) return real_fn(fd, n); auto a = fi::hook(fi::k_trunc); if(a.fail) { errno = fi::err; return -1; } int r = real_fn(fd, n); FI_END(a); return r; }
  ssize_t sendfile(int o, int i, off_t* p, size_t n) noexcept { FI_REAL(sendfile); auto a = fi::hook(fi::k_copy); if(a.fail) { errno = fi::err; return -1; } ssize_t r = real_fn(o, i, p, n); FI_END(a); return r; }
}

using namespace ev;

namespace {

  struct Leaf { I3 b, e; long filled = 0; bool closed = false; };

  // state of one element
  enum : unsigned char { UNSET = 0, STORED = 1, PENDING = 2, MUST = 3 };       // PENDING: stored but possibly not yet flushed

  struct Cells {      // in shared memory
    I3 n; F2* val; unsigned char* st;
    std::size_t f(I3 i) const { return (std::size_t)((i[0] * n[1] + i[1]) * n[2] + i[2]); }
  };

  struct Crash {
    Ctx& c; Rng& r; Cells cells; std::vector<Leaf> leaves; I3 initel; Values vals;
    fs::path base, dir;
    void* mem = nullptr; std::size_t memsz = 0;
    std::unique_ptr<darr_t> a;
    std::size_t depth = 0;
    bool use_opt;
    bool tainted = false;     // an operation has reported an error: nothing more is guaranteed for what was pending

    explicit Crash(Ctx& c_) : c(c_), r(c_.rng), vals(c_.rng) {
      I3 n{r.irange(2, 9), r.irange(1, 5), r.irange(1, 7)};
      if(r.chance(0.3)) n = {r.irange(2, 5), r.irange(1, 40), r.irange(1, 40)};           // chunks larger than a stream buffer
      if(r.chance(0.1)) n = {r.irange(2, 6), r.irange(20, 60), r.irange(20, 60)};
      cells.n = n;
      memsz = sizeof(fi::Shared) + 64 + vol(n) * (sizeof(F2) + 1);
      mem = mmap(nullptr, memsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      fi::sh = (fi::Shared*)mem;
      cells.val = (F2*)((char*)mem + sizeof(fi::Shared) + 64 - sizeof(fi::Shared) % 64);
      cells.st = (unsigned char*)mem + memsz - vol(n);
      initel = {r.irange(1, 6), r.irange(1, 6), r.irange(1, 6)};
      use_opt = r.chance(0.4);
      split({0, 0, 0}, n, r.irange(0, 4));
      r.shuffle(leaves);
      base = c.sub("base"); dir = c.sub("arr");
      depth = r.range(0, 4);
    }
    ~Crash() { a.reset(); fi::sh = nullptr; munmap(mem, memsz); }

    void split(I3 b, I3 e, long lv) {
      int d = (int)r.range(0, 2);
      if(lv <= 0 || e[d] - b[d] < 2) { if(lv > 0 && vol(e - b) > 1) return split(b, e, lv - 1); leaves.push_back({b, e}); return; }
      I3 m1 = e, m2 = b; long cut = r.irange(b[d] + 1, e[d] - 1); m1[d] = cut; m2[d] = cut;
      split(b, m1, lv - 1); split(m2, e, lv - 1);
    }

    // ---- operations; every one of them may throw when a fault is injected
    template <class F> bool op(F&& f) {
      long before = fi::sh->fired;
      try { f(); }
      catch(const std::exception&) { fi::sh->reported++; tainted = true; return false; }
      if(fi::sh->fired > before) fi::sh->silent_ops++;
      return true;
    }
    void set(I3 i, F2 x) { cells.val[cells.f(i)] = x; cells.st[cells.f(i)] = PENDING; }
    // what is guaranteed once everything has been flushed
    void flushed() {
      if(tainted) return;
      for(long q = 0; q < vol(cells.n); q++) if(cells.st[q] == PENDING) cells.st[q] = MUST;
    }
    bool open() { return op([&] { a = std::make_unique<darr_t>(dir, depth, U(initel), streamer_shape()); }); }
    void close() {
      long before = fi::sh->fired;
      a.reset();
      if(fi::sh->fired > before) tainted = true;     // a destructor cannot report an error
      flushed();
    }
    void reg() {
      std::vector<Leaf*> cand; for(Leaf& l : leaves) if(!l.filled && !l.closed) cand.push_back(&l);
      if(cand.empty()) return append();
      Leaf& l = *r.pick(cand);
      long len = l.e[0] - l.b[0]; if(r.chance(0.5)) len = r.irange(1, len);
      I3 e = l.e; e[0] = l.b[0] + len;
      bool null_chunk = use_opt && r.chance(0.4), allnull = true;
      arr_t x(U(e - l.b));
      each(l.b, e, [&](I3 i) { F2 v = null_chunk ? F2{0, 0} : vals.next(); if(v.a != 0 || v.b != 0) allnull = false; put(x, i - l.b, v); set(i, v); });
      l.filled = len; if(len == l.e[0] - l.b[0] || (use_opt && allnull)) l.closed = true;
      if(!op([&] { a -> RegisterChunk(x, U(l.b), use_opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); })) l.closed = true;
    }
    void append() {
      std::vector<Leaf*> cand; for(Leaf& l : leaves) if(l.filled && !l.closed) cand.push_back(&l);
      if(cand.empty()) return;
      Leaf& l = *r.pick(cand);
      long left = l.e[0] - l.b[0] - l.filled, k = r.irange(1, left);
      I3 b = l.b; b[0] += l.filled; I3 e = l.e; e[0] = b[0] + k;
      arr_t s(U(e - b));
      each(l.b, I3{b[0], l.e[1], l.e[2]}, [&](I3 i) { if(cells.st[cells.f(i)] == MUST) cells.st[cells.f(i)] = PENDING; });      // this chunk is being extended
      each(b, e, [&](I3 i) { F2 v = vals.next(); put(s, i - b, v); set(i, v); });
      l.filled += k; if(k == left) l.closed = true;
      if(!op([&] { a -> AppendSlice<0>(U(b), s); })) l.closed = true;
    }
    bool random_stored(I3& i) {
      for(int q = 0; q < 20; q++) { I3 j{r.irange(0, cells.n[0] - 1), r.irange(0, cells.n[1] - 1), r.irange(0, cells.n[2] - 1)}; if(cells.st[cells.f(j)]) { i = j; return true; } }
      return false;
    }
    void read() {
      for(int k = (int)r.range(1, 6); k > 0; k--) {
	I3 i; if(!random_stored(i)) return;
	F2 x{}; if(op([&] { auto v = (*a)[U(i)]; x = {v[0], v[1]}; })) check(i, x, "read while running");
      }
    }
    void check(I3 i, F2 x, const char* what) {
      F2 want = cells.val[cells.f(i)];
      VH_CHECK(cells.st[cells.f(i)] != UNSET, "phantom", what, ": element ", i, " was never stored but reads as ", x);
      VH_CHECK(x == want, "wrong_value", what, ": element ", i, " is ", x, ", stored was ", want);
    }
    void flush() { if(op([&] { a -> Flush(); })) flushed(); }

    // ---- one sequence of operations; `readonly` never stores anything
    void script(int n, bool readonly) {
      if(!open()) return;
      for(int k = 0; k < n; k++) {
	switch(readonly ? r.range(7, 9) : r.range(0, 9)) {
	case 0: case 1: case 2: reg(); break;
	case 3: case 4: append(); break;
	case 5: case 6: if(r.chance(0.7)) flush(); else { close(); depth = r.range(0, 4); if(!open()) return; } break;
	default: read(); if(readonly && r.chance(0.2)) { close(); if(!open()) return; } break;
	}
      }
      if(r.chance(0.7)) close(); else { flush(); close(); }
    }

    // ---- after the crash
    void verify(const char* what, bool all_must) {
      std::unique_ptr<darr_t> b;
      long must = 0; for(long q = 0; q < vol(cells.n); q++) if(cells.st[q] == MUST) must++;
      try { b = std::make_unique<darr_t>(dir, r.range(0, 3), U(initel), streamer_shape()); }
      catch(const std::exception& e) { VH_CHECK(must == 0, "lost_all", what, ": the array cannot be opened although ", must, " elements had been flushed: ", e.what()); return; }
      (void)all_must;
      std::vector<I3> order; each({0, 0, 0}, cells.n, [&](I3 i) { order.push_back(i); });
      if(r.chance(0.3)) r.shuffle(order); else if(r.chance(0.3)) std::reverse(order.begin(), order.end());
      if(order.size() > 1500) order.resize(1500);
      for(int pass = 0; pass < 2; pass++) for(const I3& i : order) {
	if(pass && !r.chance(0.2)) continue;
	unsigned char s = cells.st[cells.f(i)];
	F2 x{};
	try { auto v = (*b)[U(i)]; x = {v[0], v[1]}; }
	catch(const std::exception& e) {
	  VH_CHECK(s != MUST, "lost", what, ": element ", i, " had been flushed before but reading it fails: ", e.what());
	  c.count("errors_reported"); continue;
	}
	check(i, x, what); c.count(s == MUST ? "guaranteed_elements_read" : "other_elements_read");
      }
      // region read
      if(r.chance(0.5)) {
	I3 lo, hi; for(int d = 0; d < 3; d++) { lo[d] = r.irange(0, cells.n[d] - 1); hi[d] = r.irange(lo[d] + 1, cells.n[d]); }
	const float canary = 4711.25f;
	arr_t out(U(hi - lo), canary);
	bool clean = true; each(lo, hi, [&](I3 i) { auto s = cells.st[cells.f(i)]; if(s != MUST && s != UNSET) clean = false; });
	try { b -> FillArray(out, U(lo), U(hi), U(I3{0, 0, 0})); }
	catch(const std::exception& e) { VH_CHECK(!clean, "lost", what, ": region ", lo, hi, " contains only flushed elements but copying it fails: ", e.what()); return; }
	each(lo, hi, [&](I3 i) {
	  F2 x = get(out, i - lo); auto s = cells.st[cells.f(i)];
	  if(x == (F2{canary, canary})) VH_CHECK(s != MUST, "lost", what, ": element ", i, " had been flushed before but is not found");
	  else check(i, x, what);
	});
	c.count("regions_read");
      }
    }

    void copy_dir(const fs::path& from, const fs::path& to) {
      fs::remove_all(to);
      if(fs::exists(from)) fs::copy(from, to, fs::copy_options::recursive);
    }

    void run() {
      // history before the crash, in this process
      bool fresh = r.chance(0.15);
      if(!fresh) { script((int)r.range(1, 8), false); a.reset(); }
      copy_dir(dir, base);
      std::vector<Leaf> leaves0 = leaves;
      std::vector<F2> val0(cells.val, cells.val + vol(cells.n)); std::vector<unsigned char> st0(cells.st, cells.st + vol(cells.n));
      bool readonly = !fresh && r.chance(0.25);
      int nops = (int)r.range(1, 7);
      Rng start = r; std::size_t depth0 = depth = r.range(0, 4);
      Values vals0 = vals;
      std::uint64_t sig = 0;

      auto attempt = [&](fi::Mode mode, long at, bool reads, int err) {
	copy_dir(base, dir);
	std::copy(val0.begin(), val0.end(), cells.val); std::copy(st0.begin(), st0.end(), cells.st);
	leaves = leaves0; tainted = false; depth = depth0;
	std::memset((void*)fi::sh, 0, sizeof(*fi::sh));
	pid_t p = fork();
	if(p == 0) {
	  r = start; vals = vals0; vals.r = &r;
	  int code = 0;
	  try {
	    fi::mode = mode; fi::at = at; fi::reads = reads; fi::err = err; fi::armed = true;
	    script(nops, readonly);
	    fi::armed = false;
	  }
	  catch(const Fail& f) { fi::armed = false; code = 3; snprintf(fi::sh->what, sizeof fi::sh->what, "%s: %s", f.key.c_str(), f.msg.c_str()); }
	  catch(const std::exception& e) { fi::armed = false; code = 4; snprintf(fi::sh->what, sizeof fi::sh->what, "%s", e.what()); }
	  _exit(code);
	}
	int st = 0; while(waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	return st;
      };
      auto judge = [&](int st, const std::string& what, fi::Mode mode) {
	bool crashed = WIFEXITED(st) && WEXITSTATUS(st) == 42;
	VH_CHECK(!WIFEXITED(st) || (WEXITSTATUS(st) != 3 && WEXITSTATUS(st) != 4), "running", what, ": ", fi::sh->what);
	VH_CHECK(WIFEXITED(st), "killed", what, ": the program is killed by signal ", WTERMSIG(st), " instead of reporting the error");
	VH_CHECK(crashed || WEXITSTATUS(st) == 0, "killed", what, ": the program ends with status ", WEXITSTATUS(st));
	if(crashed) c.count("crashes"); else c.count("survived");
	c.count("faults_injected", fi::sh->fired); c.count("errors_thrown", fi::sh->reported); c.count("faults_without_consequence", fi::sh->silent_ops);
	for(int k = 0; k < 9; k++) if(fi::sh->kinds[k]) c.count(std::string("calls_") + fi::kind_name[k], fi::sh->kinds[k]);
	Rng keep = r;
	verify(what.c_str(), false);
	if(r.chance(0.3)) verify((what + ", read again").c_str(), false);
	// work goes on after the crash
	if(r.chance(0.5)) {
	  // chunks that were being stored or extended when the process died can be extended further if they can still be read, and are left alone otherwise
	  std::vector<Leaf> ok; std::vector<std::pair<I3, I3>> still;
	  for(Leaf& l : leaves0) {
	    bool untouched = true; long have = 0;
	    each(l.b, l.e, [&](I3 i) { auto s = cells.st[cells.f(i)]; if(s == PENDING || s == STORED) untouched = false; if(s == MUST) have++; });
	    if(!untouched) {
	      if(l.closed || !l.filled) continue;
	      try {
		I3 e = l.e;
		{ Probe pr(dir, 1); if(!pr.has(l.b)) continue; e = L(pr.meta(l.b).end_ind); if(L(pr.meta(l.b).start_ind) != l.b || e[1] != l.e[1] || e[2] != l.e[2] || e[0] >= l.e[0] || pr.meta(l.b).chunk_type != ChunkType::specified) continue; }
		darr_t t(dir, 1, U(initel), streamer_shape());
		each(l.b, e, [&](I3 i) { auto v = t[U(i)]; check(i, F2{v[0], v[1]}, what.c_str()); });
		Leaf k = l; k.filled = e[0] - l.b[0]; k.closed = false; ok.push_back(k); still.push_back({l.b, e}); c.count("extended_after_crash");
	      }
	      catch(const Fail&) { throw; }
	      catch(const std::exception&) { }
	      continue;
	    }
	    Leaf k = l; k.filled = have / std::max<long>(1, vol(I3{1, l.e[1] - l.b[1], l.e[2] - l.b[2]})); k.closed = k.filled != l.filled || l.closed || k.filled == l.e[0] - l.b[0];
	    ok.push_back(k);
	  }
	  for(long q = 0; q < vol(cells.n); q++) if(cells.st[q] == PENDING) cells.st[q] = STORED;     // never guaranteed
	  for(auto& [sb, se] : still) each(sb, se, [&](I3 i) { cells.st[cells.f(i)] = PENDING; });
	  std::vector<Leaf> all = leaves; leaves = ok; tainted = false; depth = r.range(0, 4);
	  bool stored_any = false; for(Leaf& l : leaves) if(!l.closed) stored_any = true;
	  if(stored_any) { script((int)r.range(1, 5), false); a.reset(); verify((what + ", then continued").c_str(), false); c.count("continued"); }
	  leaves = all;
	}
	r = keep; r.next();
	(void)mode;
      };

      // how many calls does the undisturbed sequence make?
      bool reads = r.chance(0.3);
      int st = attempt(fi::none, -1, reads, 0);
      long total = fi::sh->calls;
      sig = hash_bytes(fi::sh->kinds, sizeof fi::sh->kinds);
      judge(st, "undisturbed run", fi::none);
      c.desc << "box " << cells.n << " leaves " << leaves0.size() << " depth " << depth0 << (readonly ? " reading only" : "") << (fresh ? " new array" : "") << " ops " << nops << " calls " << total << ";";
      std::vector<std::pair<long, fi::Mode>> plan;
      for(long k = 0; k < total; k++) for(fi::Mode m : {fi::die_before, fi::die_middle, fi::die_after, fi::fail_once, fi::fail_from, fi::fail_short}) {
	if(reads && m <= fi::die_after) continue;
	plan.push_back({k, m});
      }
      r.shuffle(plan);
      std::size_t limit = c.thorough ? 60 : 24;
      if(plan.size() > limit) plan.resize(limit); else c.count("exhaustive_cases");
      static const char* mname[] = {"none", "process dies before", "process dies in the middle of", "process dies after", "error in", "errors from", "short write, then error in"};
      static const int errs[] = {ENOSPC, EIO, EDQUOT, EACCES};
      for(auto& [k, m] : plan) {
	int s = attempt(m, k, reads, errs[r.range(0, 3)]);
	judge(s, cat(mname[m], " call ", k, " of ", total, " (", fi::sh->what, ")"), m);
      }
      c.sig = mix(sig ^ hash_str(c.desc.str())); c.nontrivial = total > 2;
    }
  };

  Reg c24("C24", [](Ctx& c) { Crash k(c); k.run(); }, 120);
}

VH_MAIN
