// Resources: the same operations on arrays that differ only in their number of chunks must need the same memory up to the
// entries of the chunk index, keep no files open, and leave on disk what the contents require and nothing else.
#define EV_COUNT_MEMORY
#include <malloc.h>
#include <new>
#include "gfm.hh"
#include "Symmetry.hh"
#include "SignalCalculator.hh"

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
namespace memcount { inline long live = 0, peak = 0; inline void add(long n) { live += n; if(live > peak) peak = live; } }
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); memcount::add((long)malloc_usable_size(p)); return p; }
void operator delete(void* p) noexcept { if(p) memcount::add(-(long)malloc_usable_size(p)); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { ::operator delete(p); }
#endif

using namespace ev;

namespace {

  struct Measured { std::string what; long n; long peak, kept; };

  long open_files() { long n = 0; for(auto& e : fs::directory_iterator("/proc/self/fd")) { (void)e; n++; } return n; }

  struct Meter {
    std::vector<Measured> m; long chunks = 0; long fds = open_files();
#ifndef __SANITIZE_ADDRESS__
    long start = 0;
    void begin() { m.reserve(32); start = memcount::live; }
    // everything has been closed: nothing must stay behind in memory
    void end() { long kept = memcount::live - start; for(auto& x : m) kept -= (long)(x.what.capacity() > 15 ? malloc_usable_size((void*)x.what.data()) : 0); VH_CHECK(kept < 30000, "memory_after_close", kept, " bytes are still in use after everything has been closed"); }
#else
    void begin() { } void end() { }
#endif
    template <class F> void op(const std::string& what, F&& f) {
#ifdef __SANITIZE_ADDRESS__
      f();
#else
      long base = memcount::live; memcount::peak = base;
      f();
      m.push_back({what, chunks, memcount::peak - base, memcount::live - base});
#endif
      long now = open_files();
      VH_CHECK(now == fds, "open_files", "after ", what, " ", now - fds, " more files are open than at the start");
    }
  };

  // what the files in the directory of an array must be: one for each chunk with contents, and the index
  void check_disk(Ctx& c, const fs::path& dir, long expected_specified, const std::vector<std::string>& others, const char* what, bool sparse = false, bool markers = false) {
    Probe p(dir, 1); long spec = 0, dense = 0, rows = 0;
    for(const auto& m : p.all()) if(m.chunk_type == ChunkType::specified) { spec++; I3 s = L(m.shape); long ov = (long)m.overlap; dense += vol(s + I3{2 * ov, 2 * ov, 2 * ov}) * 8; rows += s[0] + 2 * ov; }
    long files = 0, bytes = 0, other = 0;
    for(auto& e : fs::recursive_directory_iterator(dir)) {
      std::string n = e.path().filename().string();
      if(n == "index.bin" || std::find(others.begin(), others.end(), n) != others.end()) { other++; continue; }
      files++; if(e.is_regular_file()) bytes += (long)e.file_size();
    }
    VH_CHECK(files == spec, "files_on_disk", what, ": ", files, " files for ", spec, " chunks with contents");
    if(expected_specified >= 0) VH_CHECK(spec == expected_specified, "null_chunks", what, ": ", spec, " chunks have contents on disk, expected ", expected_specified);
    VH_CHECK(bytes <= dense + dense / 4 + 2000 * spec, "bytes_on_disk", what, ": ", bytes, " bytes on disk for ", dense, " bytes of contents");
    // nearly all elements are zero: long runs of them must not take space
    if(sparse) VH_CHECK(bytes <= 200 * rows + 2000 * spec, "bytes_on_disk", what, ": ", bytes, " bytes on disk for ", spec, " chunks of altogether ", dense, " bytes that contain very few nonzero elements");
    if(markers) for(const auto& m : p.all()) if(m.chunk_type == ChunkType::specified) {
      arr_t x = p.data(L(m.start_ind)); bool null = true;
      each({0, 0, 0}, L(x.GetShape()), [&](I3 i) { null = null && get(x, i) == F2{0, 0}; });
      VH_CHECK(!null, "null_chunks", what, ": the chunk at ", L(m.start_ind), " is all null, but takes space on disk although hints are enabled");
    }
    c.count("chunk_files_inspected", (std::uint64_t)files);
  }

  constexpr long PERCHUNK = 2500;     // bytes of index entry, with the copies made while the index is written or rebuilt

  struct Shape { I3 cs; int grow; long few, many; std::size_t depth; int profile; bool opt; double null_frac; };

  ind_t Z3() { return U(I3{0, 0, 0}); }

  // one pass over all operations on an array of `n` chunks along axis `grow`
  void pass(Ctx& c, Rng r, const Shape& s, long n, const fs::path& root, Meter& me, const std::vector<int>& plan) {
    I3 cs = s.cs; int ax = s.grow;
    I3 N = cs; N[ax] *= n;
    fs::create_directories(root);
    fs::path dir = root / "a"; int moved = 0;
    auto open = [&] { return std::make_unique<darr_t>(dir, s.depth, U(I3{2, 2, 2}), streamer_shape()); };
    me.chunks = n;
    std::unique_ptr<darr_t> a;
    me.op("opening a new array", [&] { a = open(); });
    arr_t x(U(cs)), zero(U(cs), 0.0f);
    std::uint64_t vseed = r.next(), nseed = r.next(); Rng q(r.next());
    auto value = [&](long k, int v) { std::uint64_t h = mix(vseed ^ (std::uint64_t)(k * 2 + v)); return s.profile == 4 || (s.profile == 1 && h % 8) ? 0.0f : s.profile == 2 && (h >> 8) % 2 ? 0.0f : (float)(1 + (h % 1000) * 0.25); };
    auto null_chunk = [&](long k) { return mix(nseed ^ (std::uint64_t)k) % 1000 < s.null_frac * 1000; };
    long nulls = 0, pos = 0;
    for(long k = 0; k < n; k++) nulls += null_chunk(k);
    std::vector<long> order; for(long k = 0; k < n; k++) order.push_back(k);
    q.shuffle(order);
    me.op("registering chunks", [&] {
      for(long k : order) {
	I3 b{0, 0, 0}; b[ax] = k * cs[ax];
	if(!null_chunk(k)) { long h = k * 131; each({0, 0, 0}, cs, [&](I3 i) { put(x, i, {value(h, 0), value(h, 1)}); h++; }); auto v = x[Z3()]; v[0] = 1; }
	a->RegisterChunk(null_chunk(k) ? zero : x, U(b), s.opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      } });
    me.op("flushing", [&] { a->Flush(); });
    check_disk(c, dir, s.opt ? n - nulls : n, {}, "after registering chunks", s.profile == 4, s.opt);
    for(std::size_t step = 0; step < plan.size(); step++) switch(plan[step]) {
      case 0: me.op("closing and opening", [&] { a.reset(); a = open(); }); break;
      case 1: me.op("reading elements", [&] { double t = 0; for(long k = 0; k < 3 * n; k++) { I3 i; for(int d = 0; d < 3; d++) i[d] = q.irange(0, N[d] - 1); auto v = (*a)[U(i)]; t += v[0]; } pos += t != 0; }); break;
      case 2: me.op("copying regions", [&] {
	I3 sz{std::min(cs[0], 4L), std::min(cs[1], 4L), std::min(cs[2], 4L)}; arr_t out(U(sz));
	for(long k = 0; k < n; k++) { I3 b; for(int d = 0; d < 3; d++) b[d] = q.irange(0, N[d] - sz[d]); a->FillArray(out, U(b), U(b + sz), Z3()); } }); break;
      case 3: me.op("looping over all elements", [&] { double t = 0; a->index_loop_over_elements([&](const ind_t&, const darr_t::view_t& v) { t += v[0]; }); pos += t != 0; }); break;
      case 4: { I3 ncs = cs; for(int d = 0; d < 3; d++) if(r.chance(0.5)) ncs[d] = std::max(1L, cs[d] - r.irange(0, 2)); long ov = r.irange(0, 2); bool bd = ov || r.chance(0.5);
	long cnt = 1; for(int d = 0; d < 3; d++) cnt *= (N[d] + ncs[d] - 1) / ncs[d]; me.chunks = std::max(me.chunks, cnt);
	me.op("rebuilding chunks", [&] {
	  if(bd) a->RebuildChunks(U(ncs), root / "tmp", (std::size_t)ov, SpatialSymmetry::Cylindrical<float>::boundary_evaluator, s.opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
	  else a->RebuildChunks(U(ncs), root / "tmp", s.opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); });
	VH_CHECK(!fs::exists(root / "tmp"), "scratch", "rebuilding left the directory for temporary use behind");
	cs = ncs; me.chunks = cnt; a->Flush(); check_disk(c, dir, -1, {}, "after rebuilding", s.profile == 4, s.opt); break; }
      case 5: me.op("swapping axes", [&] { a->SwapAxes<1, 2>(); a->SwapAxes<1, 2>(); }); a->Flush(); check_disk(c, dir, -1, {}, "after swapping axes", s.profile == 4, s.opt); break;
      case 6: { fs::path to = root / cat("m", moved++); me.op("moving", [&] { a->Move(to); }); VH_CHECK(!fs::exists(dir), "files_on_disk", "moving left files behind"); dir = to; check_disk(c, dir, -1, {}, "after moving", s.profile == 4, s.opt); break; }
      case 7: {
	fs::path to = root / cat("i", moved++);
	std::unique_ptr<darr_t> b; me.op("opening a new array", [&] { b = std::make_unique<darr_t>(to, s.depth, U(I3{2, 2, 2}), streamer_shape()); });
	bool mv = r.chance(0.5); a->Flush(); if(mv) a.reset();
	me.op("importing", [&] { b->Import(dir, mv); b->Flush(); });
	if(mv) { long left = 0; for(auto& e : fs::recursive_directory_iterator(dir)) left += e.is_regular_file(); VH_CHECK(left == 0, "files_on_disk", left, " files are left in the directory of an array that has been moved into another one"); fs::remove_all(dir); }
	else { check_disk(c, dir, -1, {}, "imported from", s.profile == 4, s.opt); a.reset(); }
	a = std::move(b); dir = to; check_disk(c, dir, -1, {}, "after importing", s.profile == 4, s.opt); break; }
      default: me.op("reading elements at random and flushing", [&] { for(long k = 0; k < n; k++) { I3 i; for(int d = 0; d < 3; d++) i[d] = q.irange(0, N[d] - 1); auto v = (*a)[U(i)]; pos += v[0] != 0; if(k % 7 == 0) a->Flush(); } }); break;
      }
    me.op("closing", [&] { a.reset(); });
    c.count("elements", (std::uint64_t)vol(N));
    fs::remove_all(root);
  }

  void compare(Ctx& c, const Meter& few, const Meter& many, long perchunk, long chunk_bytes) {
    VH_CHECK(few.m.size() == many.m.size(), "harness", "passes differ");
    for(std::size_t i = 0; i < few.m.size(); i++) {
      const Measured &f = few.m[i], &m = many.m[i];
      long dn = m.n - f.n, extra = m.peak - f.peak, allowed = dn * perchunk + 2 * chunk_bytes + 40000;

      VH_CHECK(extra <= allowed, "memory", f.what, ": ", dn, " more chunks of ", chunk_bytes, " bytes made the peak memory use rise by ", extra, " from ", f.peak, " to ", m.peak, " bytes");
      VH_CHECK(m.kept - f.kept <= allowed, "memory_kept", f.what, ": ", dn, " more chunks of ", chunk_bytes, " bytes made the memory in use afterwards rise by ", m.kept - f.kept, " bytes");
    }
    c.count("operations_measured", few.m.size());
  }

  void array_case(Ctx& c) {
    Rng& r = c.rng; Shape s;
    s.cs = {r.irange(12, 17), r.irange(12, 17), r.irange(12, 17)};
    if(r.chance(0.2)) s.cs = {r.irange(2, 4), r.irange(30, 45), r.irange(30, 45)};
    s.grow = (int)r.range(0, 2); s.depth = r.range(0, 6); s.profile = (int)r.range(0, 4); s.opt = r.chance(0.5);
    s.null_frac = r.chance(0.5) ? 0 : r.real(0.1, 0.9);
    s.few = r.irange(20, 30); s.many = s.few + r.irange(60, 120);
    std::vector<int> plan; for(int k = (int)r.range(2, 5); k > 0; k--) plan.push_back((int)r.range(0, 8));
    c.desc << "chunks of " << s.cs << " along axis " << s.grow << ", " << s.few << " and " << s.many << " of them, depth " << s.depth << " profile " << s.profile << (s.opt ? " hints" : "") << " null " << s.null_frac << " plan"; for(int p : plan) c.desc << " " << p;
    std::uint64_t seed = r.next();
    Meter few, many;
    few.begin(); pass(c, Rng(seed), s, s.few, c.sub("few"), few, plan); few.end();
    many.begin(); pass(c, Rng(seed), s, s.many, c.sub("many"), many, plan); many.end();
    compare(c, few, many, PERCHUNK, (vol(s.cs + I3{4, 4, 4})) * 8);
    c.nontrivial = true;
  }

  // slices appended to one chunk that never is in memory as a whole
  void append_case(Ctx& c) {
    Rng& r = c.rng;
    I3 sl{r.irange(1, 3), r.irange(8, 30), r.irange(8, 30)}; int axis = 0;
    long few = r.irange(10, 20), many = few + r.irange(40, 100); int prof = (int)r.range(0, 2);
    c.desc << "slices of " << sl << ", " << few << " and " << many << " of them";
    std::uint64_t seed = r.next();
    auto go = [&](long n, const fs::path& dir, Meter& me) {
      Rng q(seed); std::unique_ptr<darr_t> a; arr_t x(U(sl)); me.chunks = n * sl[0];
      me.op("opening a new array", [&] { a = std::make_unique<darr_t>(dir, 0, U(I3{2, 2, 2}), streamer_shape()); });
      me.op("appending slices", [&] { for(long k = 0; k < n; k++) { each({0, 0, 0}, sl, [&](I3 i) { float v = prof && q.chance(prof == 1 ? 0.5 : 0.95) ? 0.0f : (float)q.real(1, 2); put(x, i, {v, v}); }); if(prof) { auto v = x[Z3()]; v[0] = 1; } if(k == 0) a->RegisterChunk(x, Z3()); else a->AppendSlice<0>(U(I3{k * sl[0], 0, 0}), x); } });
      me.op("closing", [&] { a.reset(); });
      check_disk(c, dir, 1, {}, "after appending");
      fs::remove_all(dir);
    };
    Meter f, m; f.begin(); go(few, c.sub("few"), f); f.end(); m.begin(); go(many, c.sub("many"), m); m.end();
    (void)axis;
    // a serialisation chunk is one index along the first axis: some bookkeeping for each of them
    compare(c, f, m, 200, vol(sl) * 8);
    c.nontrivial = true;
  }

  void gf_case(Ctx& c) {
    Rng& r = c.rng;
    I3 cs{r.irange(6, 10), r.irange(6, 10), r.irange(20, 40)}; std::size_t depth = r.range(1, 3);
    long few = r.irange(5, 8), many = few * 4; float len = r.chance(0.5) ? 1.0f : (float)r.real(0.2, 1);
    std::uint64_t seed = r.next(); int kind = (int)r.range(0, 2);
    c.desc << "Green's function with chunks of " << cs << ", " << few << " and " << many << " along z, depth " << depth << " kind " << kind;
    auto go = [&](long n, const fs::path& dir, Meter& me) {
      me.chunks = 4 * n; Rng q(seed); I3 N{cs[0] * 2, cs[1] * n, cs[2] * 2};
      { darr_t a(dir, 1, U(I3{2, 2, 2}), streamer_shape()); arr_t x(U(cs));
	auto reg = [&](const ind_t& b, const ind_t& e) { (void)e; each({0, 0, 0}, cs, [&](I3 i) { put(x, i, {(float)q.real(1, 2), (float)q.real(1, 2)}); }); a.RegisterChunk(x, b); };
	IteratorUtils::index_loop_over_chunks(Z3(), U(N), U(cs), reg);
	a.RebuildChunks(U(cs), c.sub("tmp"), 2, SpatialSymmetry::Cylindrical<float>::boundary_evaluator);
	CylindricalGreensFunction(RZTCoordVector{0, 0, 0}, RZTCoordVector{(float)(N[0] - 1), (float)(N[1] - 1), (float)(N[2] - 1)}, RZTCoordVector{1, 1, 1}, std::move(a)); }
      std::unique_ptr<CylindricalGreensFunction> gf;
      me.op("opening a Green's function", [&] { gf = std::make_unique<CylindricalGreensFunction>(dir, depth); });
      float zmax = (float)(N[1] - 4), rmax = (float)(N[0] - 4); std::vector<float> sig(20);
      me.op("calculating signals", [&] {
	for(int k = 0; k < 12; k++) {
	  float f = (float)k / 12.0f, z0 = 2 + f * (zmax - 4) * len, z1 = std::min(zmax, z0 + 6);
	  Seg g{{0.4f * rmax, 0.1f, z0}, {0.3f * rmax, 0.5f * rmax, z1}, 0, 6, 1};
	  if(kind == 0) gf->apply_accumulate<K::Keys, float>(g.seg(), 1, 1.5f, 20, sig, Green::OutOfBoundsBehavior::RaiseError, 1);
	  else gf->apply_accumulate<K::Linear, float>(g.seg(), 1, 1.5f, 20, sig, Green::OutOfBoundsBehavior::RaiseError, 1);
	} });
      if(kind == 2) me.op("exporting a grid", [&] { arr_t out(U(I3{1, 1, 1})); gf->fill_array<K::Linear>(RZTCoordVector{0, 0, 0}, RZTCoordVector{rmax, zmax, 20}, RZTVector<std::size_t>{(std::size_t)8, (std::size_t)9, (std::size_t)7}, out); });
      me.op("closing", [&] { gf.reset(); });
      check_disk(c, dir, 4 * n, {"gf_meta.bin", "meta.bin", "green.meta"}, "Green's function");
      fs::remove_all(dir);
    };
    Meter f, m; f.begin(); go(few, c.sub("few"), f); f.end(); m.begin(); go(many, c.sub("many"), m); m.end();
    compare(c, f, m, PERCHUNK, vol(cs + I3{4, 4, 4}) * 8);
    c.nontrivial = true;
  }

  Reg c32("C32", [](Ctx& c) { switch(c.rng.range(0, 9)) { case 0: append_case(c); break; case 1: gf_case(c); break; default: array_case(c); } }, 60);
}

VH_MAIN
