// Chunked distributed arrays: histories of registrations, appends, reads, flushes, reopenings, axis swaps, moves,
// imports and rechunkings are executed against the real library and compared with a dense reference model.
#include "ev.hh"
#include "Symmetry.hh"

using namespace ev;

namespace {

  struct Weights { int reg = 10, app = 10, rd = 12, fill = 8, shape = 3, loop = 2, flush = 4, reopen = 0, swap = 0, move = 0, import = 0, rebuild = 0, view = 2, invalid = 0; };

  // A region of the index space that will be filled by one chunk; `filled` is its current extent along axis 0
  struct Leaf { I3 b, e; long filled = 0; bool closed = false; bool all_null = false; long overlap = 0; };

  struct History {
    Ctx& c; Rng& r;
    Weights w;
    Dense model;
    std::vector<Leaf> leaves;
    std::unique_ptr<darr_t> a;
    fs::path dir;
    std::size_t depth; I3 initel;
    Values vals;
    int ndir = 0;
    bool use_overlap, use_opt, allow_append = true;
    std::uint64_t sigacc = 0;
    std::size_t ser_len = 1;    // extent of the serialisation chunks along the first axis
    fs::path altroot;       // a directory on another file system (may be empty)

    History(Ctx& c_, Weights w_) : c(c_), r(c_.rng), w(w_), vals(c_.rng) {
      static const std::vector<std::size_t> depths{0, 0, 1, 1, 2, 3, 4, 5, 8, 20};
      depth = r.pick(depths);
      initel = {r.irange(1, 6), r.irange(1, 6), r.irange(1, 6)};
      use_overlap = r.chance(0.3); use_opt = r.chance(0.5);
      long big = c.thorough ? 22 : 14;
      I3 n{r.irange(1, big), r.irange(1, big), r.irange(1, big)};
      if(r.chance(0.15)) n = {r.irange(1, 3), r.irange(1, 3), r.irange(1, 60)};
      if(r.chance(0.15)) n = {r.irange(20, 60), r.irange(1, 3), r.irange(1, 4)};
      I3 off{0, 0, 0};
      if(r.chance(0.4)) off = {r.irange(0, 5), r.irange(0, 5), r.irange(0, 5)};
      long side = 0; for(int d = 0; d < 3; d++) side = std::max(side, n[d] + off[d]);
      model = Dense(n + off);
      split(off, n + off, r.irange(0, 5));
      r.shuffle(leaves);
      if(r.chance(0.3) && leaves.size() > 1) leaves.resize(r.range(1, leaves.size()));   // leave gaps
      static const std::vector<std::string> names{"arr0", "arr0", "arr0", "arr 0", "arr.0", "\xc3\xa4rr%s", ".arr", "arr.chunk", std::string(180, 'a')};
      dir = c.sub(r.pick(names));
      open();
      c.desc << "box " << n << "+" << off << " leaves " << leaves.size() << " depth " << depth << " profile " << vals.profile << (use_overlap ? " overlap" : "") << (use_opt ? " opt" : "") << ";";
    }

    void split(I3 b, I3 e, long lv) {
      int d = (int)r.range(0, 2);
      if(lv <= 0 || e[d] - b[d] < 2) { if(lv > 0 && vol(e - b) > 1) return split(b, e, lv - 1); leaves.push_back({b, e}); return; }
      I3 m1 = e, m2 = b; long cut = r.irange(b[d] + 1, e[d] - 1); m1[d] = cut; m2[d] = cut;
      split(b, m1, lv - 1); split(m2, e, lv - 1);
    }

    void open() { a = std::make_unique<darr_t>(spell(dir), depth, U(initel), sshape()); }
    ind_t sshape() { ind_t s = streamer_shape(); s[0] = ser_len; return s; }

    void note(int op) { sigacc = mix(sigacc * 31 + (std::uint64_t)op); }

    void reg() {
      std::vector<std::size_t> cand;
      for(std::size_t i = 0; i < leaves.size(); i++) if(leaves[i].filled == 0 && !leaves[i].closed) cand.push_back(i);
      if(cand.empty()) return ser_len > 1 ? append_or_refuse() : append();
      Leaf& l = leaves[cand[r.range(0, cand.size() - 1)]];
      l.overlap = (use_overlap && r.chance(0.5)) ? r.irange(1, 2) : 0;
      long len = l.e[0] - l.b[0];
      if(allow_append && l.overlap == 0 && r.chance(0.6)) len = r.irange(1, len);
      I3 e = l.e; e[0] = l.b[0] + len;
      I3 sh = e - l.b; I3 o{l.overlap, l.overlap, l.overlap};
      I3 full = sh + o + o;
      bool null_chunk = use_opt && r.chance(0.35);
      bool opt = use_opt && (null_chunk || r.chance(0.5));
      arr_t arr(U(full));
      bool allnull = true;
      each({0, 0, 0}, full, [&](I3 i) {
	F2 x = null_chunk ? F2{0, 0} : vals.next();
	if(x.a != 0 || x.b != 0) allnull = false;
	put(arr, i, x);
      });
      each(l.b, e, [&](I3 i) { model.set(i, get(arr, i - l.b + o)); });
      if(l.overlap == 0 && r.chance(0.5)) {
	if(r.chance(w.view ? 0.4 : 0)) {      // hand in a view of a larger array
	  I3 pad{r.irange(0, 2), r.irange(0, 2), r.irange(0, 2)};
	  arr_t big(U(full + pad + pad), 7.0f);
	  each({0, 0, 0}, full, [&](I3 i) { put(big, i + pad, get(arr, i)); });
	  a -> RegisterChunk(big.View(U(pad), U(pad + full)), U(l.b), opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
	  c.count("register_view");
	}
	else a -> RegisterChunk(arr, U(l.b), opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      }
      else a -> RegisterChunk(arr, U(l.b), U(e), (std::size_t)l.overlap, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      l.filled = len; l.all_null = opt && allnull;
      if(len == l.e[0] - l.b[0] || l.overlap || l.all_null) l.closed = true;
      if(l.all_null || l.overlap) l.e = e;
      note(1); c.count("register"); if(l.all_null) c.count("register_allnull");
      c.desc << " R" << l.b << e << (l.overlap ? cat("o", l.overlap) : "") << (opt ? "!" : "");
    }

    void append() {
      std::vector<std::size_t> cand;
      for(std::size_t i = 0; i < leaves.size(); i++) if(leaves[i].filled > 0 && !leaves[i].closed) cand.push_back(i);
      if(cand.empty() || !allow_append) return;
      Leaf& l = leaves[r.chance(0.5) ? cand[0] : cand[r.range(0, cand.size() - 1)]];
      long left = l.e[0] - l.b[0] - l.filled;
      long k = r.irange(1, std::min<long>(left, r.chance(0.5) ? 1 : left));
      I3 b = l.b; b[0] += l.filled; I3 e = l.e; e[0] = b[0] + k;
      arr_t s(U(e - b));
      each(b, e, [&](I3 i) { F2 x = vals.next(); put(s, i - b, x); model.set(i, x); });
      if(w.view && r.chance(0.2)) {
	arr_t big(U((e - b) + I3{1, 2, 1}), -3.0f);
	each(b, e, [&](I3 i) { put(big, i - b + I3{0, 1, 1}, get(s, i - b)); });
	a -> AppendSlice<0>(U(b), big.View(ind_t((std::size_t)0, (std::size_t)1, (std::size_t)1), U((e - b) + I3{0, 1, 1})));
	c.count("append_view");
      }
      else a -> AppendSlice<0>(U(b), s);
      l.filled += k; if(l.filled == l.e[0] - l.b[0]) l.closed = true;
      note(2); c.count("append");
      c.desc << " A" << b << e;
    }

    bool random_covered(I3& i) {
      for(int k = 0; k < 30; k++) {
	I3 j{r.irange(0, model.n[0] - 1), r.irange(0, model.n[1] - 1), r.irange(0, model.n[2] - 1)};
	if(model.cov(j)) { i = j; return true; }
      }
      return false;
    }

    void check_elem(darr_t& arr, I3 i, const char* what) {
      auto v = arr[U(i)];
      F2 x{v[0], v[1]};
      c.count("elements_compared"); c.outv(x);
      VH_CHECK(x == model.at(i), "mismatch", what, " element ", i, " is ", x, ", expected ", model.at(i));
    }

    void read() {
      int k = (int)r.range(1, 12);
      for(int q = 0; q < k; q++) { I3 i; if(!random_covered(i)) return; check_elem(*a, i, "read"); }
      note(3); c.count("read"); c.desc << " r";
    }

    // copy a random region into a larger array and look at everything in it
    void fill() {
      I3 b, e;
      for(int d = 0; d < 3; d++) { b[d] = r.irange(0, model.n[d] - 1); e[d] = r.irange(b[d] + 1, model.n[d]); }
      if(r.chance(0.2)) { b = {0, 0, 0}; e = model.n; }
      I3 o1{r.irange(0, 3), r.irange(0, 3), r.irange(0, 3)}, o2{r.irange(0, 3), r.irange(0, 3), r.irange(0, 3)};
      if(r.chance(0.4)) { o1 = {0, 0, 0}; o2 = {0, 0, 0}; }
      const float canary = 12345.5f;
      arr_t out(U(o1 + (e - b) + o2), canary);
      a -> FillArray(out, U(b), U(e), U(o1));
      long inside = 0;
      each({0, 0, 0}, o1 + (e - b) + o2, [&](I3 i) {
	I3 g = i - o1 + b;
	bool in = true; for(int d = 0; d < 3; d++) if(g[d] < b[d] || g[d] >= e[d]) in = false;
	F2 x = get(out, i);
	if(in && model.cov(g)) {
	  inside++; c.outv(x);
	  VH_CHECK(x == model.at(g), "fill_mismatch", "region read ", b, e, " gives ", x, " at ", g, ", expected ", model.at(g));
	}
	else VH_CHECK(x == (F2{canary, canary}), "fill_touched", "region read ", b, e, " into offset ", o1, " changed output element ", i, " that is not part of the stored region: ", x);
      });
      c.count("elements_compared", inside); note(4); c.count("fill"); c.desc << " F" << b << e;
    }

    void shape() {
      I3 b, e; long n;
      I3 want{0, 0, 0};
      if(model.bbox(b, e, n) && n == vol(e - b)) want = e - b;
      I3 got = L(a -> GetShape());
      c.count("shape");
      VH_CHECK(got == want, "shape", "shape is ", got, ", expected ", want);
      note(5); c.desc << " S";
    }

    void loop() {
      I3 b, e; long n; if(!model.bbox(b, e, n)) return;
      Dense seen(model.n); long cnt = 0;
      auto worker = [&](const ind_t& ind, const darr_t::view_t& v) {
	I3 i = L(ind);
	VH_CHECK(model.cov(i), "loop", "element loop visits ", i, " which was never stored");
	VH_CHECK(!seen.cov(i), "loop", "element loop visits ", i, " twice");
	F2 x{v[0], v[1]}; seen.set(i, x); cnt++; c.outv(i);
	VH_CHECK(x == model.at(i), "loop", "element loop sees ", x, " at ", i, ", expected ", model.at(i));
      };
      a -> index_loop_over_elements(worker);
      VH_CHECK(cnt == n, "loop", "element loop visits ", cnt, " of ", n, " elements");
      c.count("elements_compared", cnt); c.count("loop"); note(6); c.desc << " L";
    }

    void flush() { a -> Flush(); note(7); c.count("flush"); c.desc << " f"; }

    // compare everything with the model through a fresh instance
    // the directory of a closed array holds the files of its chunks, and no others
    static void check_files(const fs::path& dir, const char* what) {
      std::vector<std::string> want, found;
      { Probe p(dir, 1); for(const auto& m : p.all()) if(m.chunk_type == ChunkType::specified) want.push_back(m.filepath.string()); }
      for(auto& f : fs::directory_iterator(dir)) if(f.path().extension() == ".chunk") found.push_back(f.path().stem().string());
      std::sort(want.begin(), want.end()); std::sort(found.begin(), found.end());
      VH_CHECK(want == found, "chunk_files", what, " the directory holds ", found.size(), " chunk files, but the index lists ", want.size(), (want.size() == found.size() ? ", with other names" : ""));
    }

    void verify_all(darr_t& x, const char* what) {
      long n = 0;
      each({0, 0, 0}, model.n, [&](I3 i) { if(model.cov(i)) { n++; auto v = x[U(i)]; F2 g{v[0], v[1]};
	VH_CHECK(g == model.at(i), "mismatch", what, " element ", i, " is ", g, ", expected ", model.at(i)); c.outv(g); } });
      c.count("elements_compared", n);
    }

    void reopen() {
      int how = (int)r.range(0, 2);
      if(how == 0) { a.reset(); }                               // orderly shutdown only
      else if(how == 1) { a -> Flush(); a.reset(); }
      else {                                                   // read back a snapshot taken right after the flush while the writer is still alive
	a -> Flush();
	fs::path snap = c.sub("snap" + std::to_string(ndir++));
	fs::copy(dir, snap, fs::copy_options::recursive);
	{ darr_t s(snap, r.range(0, 3), U(initel), streamer_shape()); verify_all(s, "snapshot after flush"); }
	fs::remove_all(snap);
	c.count("snapshot"); note(8); c.desc << " N";
	if(r.chance(0.5)) return;
	a.reset();
      }
      if(r.chance(0.5)) depth = r.range(0, 6);
      open(); note(9); c.count("reopen"); c.desc << " O" << depth;
      if(r.chance(0.4)) verify_all(*a, "reopened");
    }

    template <int x, int y> void do_swap() {
      a -> SwapAxes<x, y>();
      model = model.swapped(x, y);
      for(Leaf& l : leaves) {
	if(l.filled) { l.e[0] = l.b[0] + l.filled; l.closed = true; }
	std::swap(l.b[x], l.b[y]); std::swap(l.e[x], l.e[y]);
	if(l.filled) l.filled = l.e[0] - l.b[0];
      }
      c.desc << " X" << x << y;
    }
    void swap() {
      I3 b, e; long n; if(!model.bbox(b, e, n)) return;
      switch(r.range(0, 5)) { case 0: do_swap<0, 1>(); break; case 1: do_swap<0, 2>(); break; case 2: do_swap<1, 2>(); break;
      case 3: do_swap<2, 0>(); break; case 4: do_swap<1, 0>(); break; default: do_swap<2, 1>(); }
      note(10); c.count("swap");
    }

    // the same path in other words
    fs::path spell(const fs::path& p) {
      switch(r.range(0, 9)) {
      case 0: c.count("spelled_paths"); return p / "";                                    // with a separator at its end
      case 1: c.count("spelled_paths"); return fs::relative(p.parent_path()) / p.filename();
      case 2: c.count("spelled_paths"); return p.parent_path() / "." / p.filename();
      case 3: c.count("spelled_paths"); return p.parent_path() / ".." / p.parent_path().filename() / p.filename();
      default: return p;
      }
    }

    fs::path fresh(const char* stem) {
      fs::path root = (!altroot.empty() && r.chance(0.4)) ? altroot : c.dir;
      return root / (stem + std::to_string(ndir++));
    }

    void move() {
      fs::path to = fresh("mv");
      if(r.chance(0.3)) fs::create_directory(to);
      fs::path from = dir;
      a -> Move(spell(to));
      dir = to;
      VH_CHECK(!fs::exists(from), "move_source", "source directory still exists after moving the array");
      if(r.chance(0.3)) {      // the new location is complete as soon as the array has been moved
	fs::path snap = c.sub("snap" + std::to_string(ndir++));
	fs::copy(dir, snap, fs::copy_options::recursive);
	{ darr_t s(snap, r.range(0, 3), U(initel), streamer_shape()); verify_all(s, "snapshot after move"); }
	fs::remove_all(snap); c.count("snapshot");
      }
      if(r.chance(0.5)) { a.reset(); open(); }
      note(11); c.count("move"); c.desc << " M";
      if(r.chance(0.5)) verify_all(*a, "moved");
    }

    void import() {
      std::vector<std::size_t> cand;
      for(std::size_t i = 0; i < leaves.size(); i++) if(leaves[i].filled == 0 && !leaves[i].closed) cand.push_back(i);
      if(cand.empty()) return;
      r.shuffle(cand); cand.resize(r.range(1, cand.size()));
      fs::path src = fresh("imp");
      bool mv = r.chance(0.5);
      std::vector<std::pair<I3, F2>> content;
      {
	darr_t s(spell(src), r.range(0, 3), U(initel), streamer_shape());
	for(std::size_t q : cand) {
	  Leaf& l = leaves[q];
	  bool null_chunk = use_opt && r.chance(0.3);
	  arr_t arr(U(l.e - l.b));
	  each(l.b, l.e, [&](I3 i) { F2 x = null_chunk ? F2{0, 0} : vals.next(); put(arr, i - l.b, x); model.set(i, x); content.push_back({i, x}); });
	  s.RegisterChunk(arr, U(l.b), null_chunk ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
	  l.filled = l.e[0] - l.b[0]; l.closed = true;
	}
	// the source may have a history of its own
	const I3 lo = leaves[cand[0]].b, hi = leaves[cand[0]].e;
	if(cand.size() == 1 && r.chance(0.5)) {
	  I3 cs{r.irange(1, 5), r.irange(1, 5), r.irange(1, 5)};
	  s.RebuildChunks(U(cs), c.sub("tmp" + std::to_string(ndir++)), r.chance(0.5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
	  c.desc << "b" << cs << lo << hi; rebuilt = true; c.count("import_of_rebuilt");
	}
	if(r.chance(0.2)) { s.template SwapAxes<0, 2>(); s.template SwapAxes<0, 2>(); }
	if(r.chance(0.3)) s.Flush();
      }
      if(r.chance(0.2)) { // imported by the source itself before
	fs::path src2 = fresh("imp"); { darr_t s(src2, r.range(0, 3), U(initel), streamer_shape()); s.Import(src, r.chance(0.5)); }
	fs::remove_all(src); src = src2; c.count("import_of_imported");
      }
      a -> Import(spell(src), mv);
      if(mv) {
	long left = 0; for(auto& p : fs::directory_iterator(src)) { (void)p; left++; }
	VH_CHECK(left == 0, "import_move", left, " files are left behind in a directory that was imported by moving");
      }
      else {
	darr_t s(src, 2, U(initel), streamer_shape());
	for(auto& [i, x] : content) { auto v = s[U(i)]; VH_CHECK((F2{v[0], v[1]}) == x, "import_copy", "importing by copy changed the source at ", i); }
      }
      fs::remove_all(src);
      note(12); c.count("import"); c.desc << " I" << (mv ? "m" : "c") << cand.size();
      if(r.chance(0.5)) verify_all(*a, "after import");
    }

    void rebuild() {
      I3 b, e; long n; if(!model.bbox(b, e, n) || n != vol(e - b)) return;
      for(Leaf& l : leaves) if(l.filled == 0 && !l.closed) { bool ov = false; (void)ov; }
      I3 cs{r.irange(1, 8), r.irange(1, 8), r.irange(1, 8)};
      fs::path tmp = c.sub("tmp" + std::to_string(ndir++));
      bool shared_tmp = r.chance(0.25);
      if(shared_tmp) { fs::create_directory(tmp); std::ofstream(tmp / "other.txt") << "other"; std::ofstream(tmp / "other.bin") << "other"; c.count("rebuild_in_shared_tmp"); }
      auto hints = r.chance(0.5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      int mode = (int)r.range(0, 2); std::size_t ov = r.range(0, 3);
      if(mode == 0) a -> RebuildChunks(U(cs), spell(tmp), hints);
      else if(mode == 1) a -> RebuildChunks(U(cs), spell(tmp), ov, [](darr_t&, const sind_t&, darr_t::view_t v) { v = Vector<float, 2>(9.0f, -9.0f); }, hints);
      else a -> RebuildChunks(U(cs), spell(tmp), ov, [](arr_t&, const sind_t&, const sind_t&, const sind_t&, darr_t::view_t v) { v = Vector<float, 2>(4.0f, -4.0f); }, hints);
      if(shared_tmp) {
        long left = 0; if(fs::exists(tmp)) for(auto& q : fs::recursive_directory_iterator(tmp)) { (void)q; left++; }
        VH_CHECK(left == 2 && fs::exists(tmp / "other.txt") && fs::exists(tmp / "other.bin"), "rebuild_other", "rechunking does not leave the other files in the temporary directory alone");
        fs::remove_all(tmp);
      }
      else VH_CHECK(!fs::exists(tmp), "rebuild_tmp", "temporary directory is left behind after rechunking");
      for(Leaf& l : leaves) if(l.filled) { l.e[0] = l.b[0] + l.filled; l.closed = true; }
      rebuilt = true; note(13); c.count("rebuild"); c.desc << " B" << cs << "m" << mode << "o" << ov;
      if(r.chance(0.5)) verify_all(*a, "rechunked");
    }

    // a chunk with at least one element
    Leaf* some_leaf(bool appendable) {
      std::vector<Leaf*> cand;
      for(Leaf& l : leaves) if(l.filled > 0 && (!appendable || !l.closed)) cand.push_back(&l);
      return cand.empty() ? nullptr : r.pick(cand);
    }

    template <int axis> void bad_append_axis(Leaf& l, bool& thrown, std::string& what) {
      // append behind `l` along `axis`, if there is nothing
      I3 b = l.b, e = l.e; if(axis != 0) e[0] = l.b[0] + l.filled;
      b[axis] = axis == 0 ? l.b[0] + l.filled : l.e[axis]; e[axis] = b[axis] + r.irange(1, 2);
      bool free = true; each(b, e, [&](I3 i) { bool in = true; for(int d = 0; d < 3; d++) if(i[d] >= model.n[d]) in = false; if(in && model.cov(i)) free = false; });
      if(!free) { thrown = true; return; }
      arr_t s(U(e - b)); std::vector<std::pair<I3, F2>> put_;
      each(b, e, [&](I3 i) { F2 x = vals.next(); put(s, i - b, x); put_.push_back({i, x}); });
      c.desc << axis << b << e;
      try { a -> AppendSlice<axis>(U(b), s); } catch(const std::exception& x) { thrown = true; what = x.what(); }
      if(thrown) return;
      // accepted: then it must have worked
      for(auto& [i, x] : put_) { auto v = (*a)[U(i)]; VH_CHECK((F2{v[0], v[1]}) == x, "wrong_append", "appending behind chunk ", l.b, l.e, " along axis ", axis, " was accepted, but ", i, " is ", v[0], "/", v[1], ", expected ", x); }
      stop = true; thrown = true; c.count("unusual_appends_accepted");
    }

    bool stop = false, rebuilt = false;

    // C28: a request that has to be refused; nothing may change
    void invalid() {
      bool thrown = false; std::string what; const char* name = "";
      auto attempt = [&](auto&& fn) { try { fn(); } catch(const std::exception& e) { thrown = true; what = e.what(); } };
      int kind = (int)r.range(0, 15);
      c.desc << " ?" << kind;
      switch(kind) {
      case 0: case 1: {
	name = "appending a slice of incompatible shape";
	Leaf* l = some_leaf(r.chance(0.8)); if(!l || l -> overlap || rebuilt) return;
	I3 sh = l -> e - l -> b; int d = (int)r.range(1, 2); sh[d] += r.chance(0.5) && sh[d] > 1 ? -1 : 1; sh[0] = r.irange(1, 2);
	I3 b = l -> b; b[0] += l -> filled; if(model.n[0] > b[0] && model.cov(b)) return;
	arr_t s(U(sh), 5.0f);
	attempt([&] { a -> AppendSlice<0>(U(b), s); });
	break;
      }
      case 2: {
	name = "appending where there is no chunk";
	I3 b; int k = 0;
	for(; k < 20; k++) {
	  b = {r.irange(0, model.n[0] + 2), r.irange(0, model.n[1] + 1), r.irange(0, model.n[2] + 1)};
	  bool in = b[0] > 0; for(int d = 0; d < 3; d++) if(b[d] - (d == 0) >= model.n[d]) in = false;
	  if(!in || !model.cov(b - I3{1, 0, 0})) break;
	}
	if(k == 20) return;
	arr_t s(U(I3{r.irange(1, 2), r.irange(1, 3), r.irange(1, 3)}), 6.0f);
	attempt([&] { a -> AppendSlice<0>(U(b), s); });
	break;
      }
      case 3: case 4: {
	name = "appending to a chunk that does not permit it";
	std::vector<Leaf*> cand; for(Leaf& l : leaves) if(l.filled > 0 && (l.overlap || l.all_null)) cand.push_back(&l);
	if(cand.empty()) return;
	bad_append_axis<0>(*r.pick(cand), thrown, what);
	break;
      }
      case 5: {
	name = "appending along an axis along which the serialisation does not permit it";
	Leaf* l = some_leaf(false); if(!l) return;
	if(r.chance(0.5)) bad_append_axis<1>(*l, thrown, what); else bad_append_axis<2>(*l, thrown, what);
	break;
      }
      case 6: {
	name = "appending with hints";
	Leaf* l = some_leaf(true); if(!l) return;
	I3 b = l -> b; b[0] += l -> filled; I3 e = l -> e; e[0] = b[0] + 1; if(b[0] >= model.n[0] || model.cov(b)) return;
	arr_t s(U(e - b)); std::vector<F2> x; each(b, e, [&](I3 i) { x.push_back(vals.next()); put(s, i - b, x.back()); });
	attempt([&] { a -> AppendSlice<0>(U(b), s, ChunkHints::ENABLE_OPT); });
	if(!thrown) { std::size_t q = 0; each(b, e, [&](I3 i) { model.set(i, x[q++]); }); l -> filled++; if(l -> filled == l -> e[0] - l -> b[0]) l -> closed = true; thrown = true; }
	break;
      }
      case 7: case 8: {
	name = "reading an element that was never stored";
	I3 i; int k = 0;
	for(; k < 20; k++) {
	  i = {r.irange(0, model.n[0] + 2), r.irange(0, model.n[1] + 2), r.irange(0, model.n[2] + 2)};
	  bool in = true; for(int d = 0; d < 3; d++) if(i[d] >= model.n[d]) in = false;
	  if(!in || !model.cov(i)) break;
	}
	if(k == 20) return;
	attempt([&] { auto v = (*a)[U(i)]; what = cat(v[0]); });
	break;
      }
      case 9: {
	name = "registering a chunk whose shape does not match its range";
	I3 b{model.n[0] + 1, 0, 0}, sh{r.irange(1, 3), r.irange(1, 3), r.irange(1, 3)}, wrong = sh; wrong[r.range(0, 2)] += r.irange(1, 2);
	std::size_t ov = r.range(0, 1);
	arr_t x(U(wrong + I3{2 * (long)ov, 2 * (long)ov, 2 * (long)ov}), 7.0f);
	if(r.chance(0.5)) attempt([&] { a -> RegisterChunk(x, U(b), U(b + sh), ov); });
	else attempt([&] { a -> RegisterChunk(x, U(b), U(b + sh), ov + 1); });
	break;
      }
      case 10: {
	name = "reading a region into an array that is too small";
	I3 b, e; for(int d = 0; d < 3; d++) { b[d] = r.irange(0, model.n[d] - 1); e[d] = r.irange(b[d] + 1, model.n[d]); }
	I3 o{r.irange(0, 2), r.irange(0, 2), r.irange(0, 2)}, sh = o + (e - b); int d = (int)r.range(0, 2);
	sh[d] -= r.irange(1, sh[d]);
	for(int q = 0; q < 3; q++) if(sh[q] == 0) sh[q] = q == d ? (o[d] += 1, 1) : 1;
	arr_t out(U(sh), 1.25f);
	attempt([&] { a -> FillArray(out, U(b), U(e), U(o)); });
	each({0, 0, 0}, sh, [&](I3 i) { VH_CHECK(get(out, i) == (F2{1.25f, 1.25f}), "damage", "refused region read changed the output array at ", i); });
	break;
      }
      case 14: {
	name = "appending at an index that is not directly behind a chunk";
	Leaf* l = some_leaf(r.chance(0.8)); if(!l || rebuilt) return;
	I3 sh = l -> e - l -> b, b = l -> b; sh[0] = r.irange(1, 2);
	if(r.chance(0.5)) { if(l -> filled < 2) return; b[0] += r.irange(1, l -> filled - 1); }      // in the middle of the chunk
	else { int d = (int)r.range(1, 2); if(sh[d] < 2) return; b[0] += l -> filled; b[d] += r.irange(1, sh[d] - 1); }   // shifted sideways
	arr_t s(U(sh), 8.0f);
	attempt([&] { a -> AppendSlice<0>(U(b), s); });
	break;
      }
      case 11: {
	int how = (int)r.range(0, 2); bool mv = r.chance(0.5);
	name = how == 0 ? "importing from a directory that does not exist" : how == 1 ? "importing from a directory without an array" : "importing an array into itself";
	fs::path src = how == 2 ? dir : c.sub("noarr" + std::to_string(ndir++));
	if(how == 1) { fs::create_directory(src); std::ofstream(src / "x.txt") << "x"; }
	if(how == 2) a -> Flush();
	attempt([&] { a -> Import(spell(src), mv); });
	if(how == 1) VH_CHECK(fs::exists(src / "x.txt"), "damage", "refused import removed a file");
	break;
      }
      case 12: {
	fs::path tmp = c.sub("tmp" + std::to_string(ndir++));
	I3 b, e; long n; bool any = model.bbox(b, e, n);
	if(!any) return;
	I3 cs{r.irange(1, 5), r.irange(1, 5), r.irange(1, 5)};
	if(n == vol(e - b) || r.chance(0.5)) {
	  name = "rechunking into chunks without extent"; cs[r.range(0, 2)] = 0;
	  if(r.chance(0.5)) attempt([&] { a -> RebuildChunks(U(cs), tmp); });
	  else attempt([&] { a -> RebuildChunksPartial(U(b), U(e), U(cs), tmp); });
	}
	else { name = "rechunking an array with gaps"; attempt([&] { a -> RebuildChunks(U(cs), tmp); }); }
	break;
      }
      case 13: {
	if(r.chance(0.5)) { name = "moving an array to where it is"; attempt([&] { a -> Move(dir); }); }
	else {
	  name = "moving an array on top of another one";
	  fs::path other = c.sub("other" + std::to_string(ndir++));
	  F2 x = vals.next();
	  { darr_t o(other, 1, U(initel), sshape()); arr_t v(U(I3{1, 2, 1})); put(v, {0, 0, 0}, x); put(v, {0, 1, 0}, x); o.RegisterChunk(v, U(I3{3, 1, 2})); }
	  attempt([&] { a -> Move(other); });
	  { darr_t o(other, 1, U(initel), sshape()); auto v = o[U(I3{3, 2, 2})]; VH_CHECK((F2{v[0], v[1]}) == x && L(o.GetShape()) == (I3{1, 2, 1}), "damage", "refused move changed the array at the destination"); }
	}
	break;
      }
      default: {
	name = "opening an array with malformed serialisation chunks";
	ind_t bad = sshape(); if(r.chance(0.5)) bad[0] = stor::INFTY; else bad[r.range(0, 2)] = 0;
	a -> Flush();
	attempt([&] { darr_t x(r.chance(0.5) ? dir : c.sub("bad" + std::to_string(ndir++)), depth, U(initel), bad); });
	break;
      }
      }
      VH_CHECK(thrown, "accepted", name, " is not refused");
      c.count(std::string("refused: ") + name); note(20 + kind);
      if(stop) return;
      if(r.chance(0.3)) verify_all(*a, "after a refused request"); else read();
      if(r.chance(0.3)) shape();
    }

    // with serialisation chunks that extend over several elements an array may become final at any time: appending is then refused
    void append_or_refuse() {
      Leaf* l = some_leaf(true); if(!l) return;
      I3 b = l -> b; b[0] += l -> filled; I3 e = l -> e; e[0] = r.irange(b[0] + 1, e[0]);
      arr_t s(U(e - b)); std::vector<F2> x; each(b, e, [&](I3 i) { x.push_back(vals.next()); put(s, i - b, x.back()); });
      bool ok = true;
      try { a -> AppendSlice<0>(U(b), s); } catch(const std::exception&) { ok = false; }
      c.desc << (ok ? " A" : " a") << b << e; c.count(ok ? "append" : "refused: appending to finalised data");
      if(ok) { std::size_t q = 0; each(b, e, [&](I3 i) { model.set(i, x[q++]); }); l -> filled += e[0] - b[0]; }
      if(!ok || l -> filled == l -> e[0] - l -> b[0]) l -> closed = true;
      if(!ok) { l -> e[0] = l -> b[0] + l -> filled; VH_CHECK(l -> filled % (long)ser_len != 0, "refused_valid", "appending to a chunk of ", l -> filled, " slices is refused for serialisation chunks of ", ser_len, " slices"); }
      if(!ok) { if(r.chance(0.5)) verify_all(*a, "after a refused append"); else read(); shape(); }
    }

    void run(int nops) {
      int tot = w.invalid + w.reg + w.app + w.rd + w.fill + w.shape + w.loop + w.flush + w.reopen + w.swap + w.move + w.import + w.rebuild;
      for(int k = 0; k < nops; k++) {
	int x = (int)r.range(0, tot - 1);
	auto take = [&](int q) { if(x < q) { x = 1 << 30; return true; } x -= q; return false; };
	if(take(w.reg)) reg(); else if(take(w.app)) { if(ser_len > 1) append_or_refuse(); else append(); } else if(take(w.rd)) read(); else if(take(w.fill)) fill();
	else if(take(w.shape)) shape(); else if(take(w.loop)) loop(); else if(take(w.flush)) flush(); else if(take(w.reopen)) reopen();
	else if(take(w.swap)) swap(); else if(take(w.move)) move(); else if(take(w.import)) import(); else if(take(w.rebuild)) rebuild();
	else if(take(w.invalid)) invalid();
	if(stop) break;
      }
      if(stop) return;
      verify_all(*a, "final");
      shape(); loop();
    }

    void finish() {
      a.reset();
      check_files(dir, "after shutdown");
      { darr_t s(dir, r.range(0, 4), U(initel), streamer_shape()); verify_all(s, "after shutdown"); }
      {      // everything that is stored, including overlap regions, enters the digest
	Probe p(dir, 1);
	std::vector<std::pair<I3, I3>> chunks;
	for(const auto& m : p.all()) if(vol(L(m.end_ind) - L(m.start_ind)) > 0) { I3 o{(long)m.overlap, (long)m.overlap, (long)m.overlap}; chunks.push_back({L(m.start_ind), L(m.end_ind) - L(m.start_ind) + o + o}); }
	std::sort(chunks.begin(), chunks.end());
	for(auto& [b, sh] : chunks) { arr_t x = p.data(b); c.outv(b); c.outv(sh); each({0, 0, 0}, L(x.GetShape()), [&](I3 i) { c.outv(get(x, i)); }); }
      }
      c.sig = mix(sigacc ^ mix(leaves.size() * 64 + depth));
      c.nontrivial = leaves.size() > 1 && (c.counters["register"] + c.counters["import"]) > 1;
    }
  };

  int nops(Ctx& c) { int base = c.idx < 400 ? 12 : c.idx < 4000 ? 35 : 90; return (int)c.rng.range(base / 2, base * (c.thorough ? 2 : 1)); }

  // Appending along any axis that the serialisation chunks allow; one chunk grows per lane
  template <int axis> void axis_case(Ctx& c) {
    Rng& r = c.rng; Values vals(r);
    constexpr int lane = axis == 2 ? 1 : 2, other = 3 - axis - lane;
    ind_t ser; long k = r.irange(1, 3);
    for(int d = 0; d < 3; d++) ser[d] = d == axis ? (std::size_t)k : d > axis && r.chance(0.7) ? stor::INFTY : r.chance(0.8) ? (std::size_t)50 : 1;
    const std::size_t depth = r.range(0, 4);
    fs::path dir = c.sub("a");
    auto open = [&] { return std::make_unique<darr_t>(dir, depth, U(I3{2, 2, 2}), ser); };
    auto a = open();
    const int lanes = (int)r.range(1, 5); const long no = r.irange(1, 3), longest = 40;
    I3 n; n[axis] = longest; n[other] = no; n[lane] = 0;
    std::vector<I3> b(lanes), e(lanes); std::vector<char> exact(lanes, 1);
    for(int q = 0; q < lanes; q++) { b[q][lane] = n[lane]; n[lane] += r.irange(1, 3); e[q][lane] = n[lane]; b[q][other] = 0; e[q][other] = no; b[q][axis] = r.irange(0, 4); e[q][axis] = b[q][axis]; }
    Dense m(n);
    auto verify = [&](darr_t& x, const char* what) {
      each({0, 0, 0}, n, [&](I3 i) { if(!m.cov(i)) return; auto v = x[U(i)]; VH_CHECK((F2{v[0], v[1]}) == m.at(i), "mismatch", what, ": element ", i, " is ", v[0], "/", v[1], ", expected ", m.at(i)); c.count("elements_compared"); });
    };
    c.desc << "axis " << axis << " lanes " << lanes << " depth " << depth << " ser " << ser << ";";
    const int ops = (int)r.range(5, 40); long appends = 0;
    for(int o = 0; o < ops; o++) {
      const int q = (int)r.range(0, lanes - 1);
      const int what = (int)r.range(0, 11);
      if(what < 8) {
	long len = r.chance(0.8) ? k * r.irange(1, 2) : r.irange(1, 4);
	if(e[q][axis] + len > longest) continue;
	const bool fresh = e[q][axis] == b[q][axis];
	I3 sb = b[q], se = e[q]; sb[axis] = e[q][axis]; se[axis] = sb[axis] + len;
	arr_t x(U(se - sb)); std::vector<std::pair<I3, F2>> in;
	each(sb, se, [&](I3 i) { F2 v = vals.next(); put(x, i - sb, v); in.push_back({i, v}); });
	c.desc << (fresh ? " R" : " A") << q << ":" << len;
	bool refused = false; std::string why;
	if(fresh) a -> RegisterChunk(x, U(sb));
	else {
	  bool split = false; for(int d = 0; d < axis; d++) if((long)ser[d] < e[q][d] - b[q][d]) split = true;
	  try { a -> template AppendSlice<axis>(U(sb), x); appends++; } catch(const std::exception& ex) { refused = true; why = ex.what(); }
	  if(exact[q] && !split) VH_CHECK(!refused, "append_refused", "appending ", len, " along axis ", axis, " to a chunk of extent ", e[q][axis] - b[q][axis], " is refused: ", why, " (serialisation chunk ", ser, ")");
	  if(refused) c.desc << "!";
	}
	if(!refused) { for(auto& [i, v] : in) m.set(i, v); e[q] = se; if(len % k) exact[q] = 0; }
      }
      else if(what == 8) { a -> Flush(); c.desc << " f"; }
      else if(what == 9) { a.reset(); a = open(); c.desc << " O"; }
      else if(what == 10) verify(*a, "between appends");
      else if(e[q][axis] > b[q][axis]) {
	I3 fb = b[q], fe = e[q]; fb[axis] = r.irange(fb[axis], fe[axis] - 1); fe[axis] = r.irange(fb[axis] + 1, fe[axis]);
	arr_t out(U(fe - fb), 7.0f);
	a -> FillArray(out, U(fb), U(fe), U(I3{0, 0, 0}));
	each(fb, fe, [&](I3 i) { F2 v = get(out, i - fb); VH_CHECK(v == m.at(i), "fill_mismatch", "region read gives ", v, " at ", i, ", expected ", m.at(i)); });
      }
    }
    verify(*a, "finally");
    a.reset(); History::check_files(dir, "after shutdown");
    a = open(); verify(*a, "after shutdown");
    c.count("append", appends); if(axis) c.count("append_along_other_axes", appends);
    c.sig = hash_str(c.desc.str()); c.nontrivial = lanes > 1 && appends > 0;
  }

  // Few chunks at positions that need most of the bits of an index
  void far_case(Ctx& c) {
    Rng& r = c.rng; Values vals(r);
    const std::size_t depth = r.range(0, 4); fs::path dir = c.sub("a");
    auto open = [&] { return std::make_unique<darr_t>(dir, depth, U(I3{2, 2, 2}), streamer_shape()); };
    auto a = open();
    struct Far { I3 b, n; std::vector<F2> v; };
    std::vector<Far> chunks;
    static const int bits[] = {8, 15, 16, 24, 31, 32, 33, 40, 48, 53};
    auto position = [&] { long x = 1l << bits[r.range(0, 9)]; x += r.irange(-6, 6); return r.chance(0.25) ? r.irange(0, 9) : x; };
    auto apart = [](const Far& x, const Far& y) { for(int d = 0; d < 3; d++) if(x.b[d] + x.n[d] + 8 <= y.b[d] || y.b[d] + y.n[d] + 8 <= x.b[d]) return true; return false; };
    auto verify = [&](darr_t& x, const char* what) {
      for(const Far& f : chunks) {
	std::size_t k = 0;
	if(r.chance(0.5)) each({0, 0, 0}, f.n, [&](I3 i) { auto v = x[U(f.b + i)]; VH_CHECK((F2{v[0], v[1]}) == f.v[k], "far_mismatch", what, ": element ", f.b + i, " is ", v[0], "/", v[1], ", expected ", f.v[k]); k++; c.count("elements_compared"); });
	else {
	  arr_t out(U(f.n), 7.0f); x.FillArray(out, U(f.b), U(f.b + f.n), U(I3{0, 0, 0}));
	  each({0, 0, 0}, f.n, [&](I3 i) { F2 v = get(out, i); VH_CHECK(v == f.v[k], "far_mismatch", what, ": region read gives ", v, " at ", f.b + i, ", expected ", f.v[k]); k++; c.count("elements_compared"); });
	}
      }
    };
    const int ops = (int)r.range(3, 20);
    for(int o = 0; o < ops; o++) {
      const int what = (int)r.range(0, 9);
      if(what <= 3 || chunks.empty()) {
	Far f; f.b = {position(), position(), position()}; f.n = {r.irange(1, 4), r.irange(1, 4), r.irange(1, 5)};
	bool free = true; for(const Far& g : chunks) if(!apart(f, g)) free = false;
	if(!free) continue;
	const bool null = r.chance(0.2); const long ov = r.chance(0.3) ? 1 : 0;
	arr_t x(U(f.n + I3{2 * ov, 2 * ov, 2 * ov}), 0.0f);
	each({0, 0, 0}, f.n, [&](I3 i) { F2 v = null ? F2{0, 0} : vals.next(); put(x, i + I3{ov, ov, ov}, v); f.v.push_back(v); });
	if(ov) a -> RegisterChunk(x, U(f.b), U(f.b + f.n), (std::size_t)ov, r.chance(0.5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
	else a -> RegisterChunk(x, U(f.b), r.chance(0.5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
	chunks.push_back(f); c.desc << " R" << f.b << f.n << (null ? "0" : "") << (ov ? "o" : ""); c.count("register");
      }
      else if(what == 4) { a -> Flush(); c.desc << " f"; }
      else if(what <= 6) { a.reset(); a = open(); c.desc << " O"; c.count("reopen"); verify(*a, "reopened"); }
      else if(what == 7) verify(*a, "in between");
      else if(what == 8) {      // elements next to a chunk are not there
	const Far& f = chunks[r.range(0, chunks.size() - 1)]; I3 i = f.b; const int d = (int)r.range(0, 2); i[d] += f.n[d];
	bool thrown = false; try { (void)(*a)[U(i)]; } catch(const std::exception&) { thrown = true; }
	VH_CHECK(thrown, "far_outside", "element ", i, " next to the chunk at ", f.b, " can be read");
      }
      else {
	a -> SwapAxes<1, 2>(); c.desc << " S";
	for(Far& f : chunks) {
	  std::vector<F2> v(f.v.size());
	  each({0, 0, 0}, f.n, [&](I3 i) { v[(std::size_t)((i[0] * f.n[2] + i[2]) * f.n[1] + i[1])] = f.v[(std::size_t)((i[0] * f.n[1] + i[1]) * f.n[2] + i[2])]; });
	  std::swap(f.b[1], f.b[2]); std::swap(f.n[1], f.n[2]); f.v = v;
	}
      }
    }
    a.reset(); a = open(); verify(*a, "after shutdown");
    c.count("far_chunks", chunks.size()); c.sig = hash_str(c.desc.str()); c.nontrivial = chunks.size() > 1;
  }

  // ---- C01: values last stored are the values read, for every history and cache depth
  Reg c01("C01", [](Ctx& c) {
    if(c.idx % 8 == 7) { int ax = (int)c.rng.range(0, 2); if(ax == 0) axis_case<0>(c); else if(ax == 1) axis_case<1>(c); else axis_case<2>(c); return; }
    if(c.idx % 16 == 3) { far_case(c); return; }
    Weights w; History h(c, w); h.run(nops(c)); h.finish(); });

  // ---- C02: contents survive flush / shutdown and later extension
  Reg c02("C02", [](Ctx& c) { if(c.idx % 8 == 5) { far_case(c); return; } Weights w; w.reopen = 10; w.rd = 6; w.fill = 3; w.rebuild = 1; w.import = 1; w.move = 1; if(c.rng.chance(0.5)) w.swap = 1; History h(c, w); h.run(nops(c)); h.finish(); });

  // ---- C04: axis swaps are transpositions of contents
  Reg c04("C04", [](Ctx& c) { Weights w; w.swap = 7; w.reopen = 3; w.rebuild = 1; History h(c, w); h.run(nops(c)); h.finish(); });

  // ---- C07: storing null chunks as markers changes nothing
  Reg c07("C07", [](Ctx& c) {
    Weights w; w.reg = 14; w.swap = 4; w.reopen = 4; w.rebuild = 7; w.import = 2; w.move = 1; w.rd = 6; w.fill = 10; w.loop = 3;
    History h(c, w); h.use_opt = true;
    if(h.r.chance(0.7)) h.vals.profile = (int)h.r.range(1, 4);
    h.run(nops(c)); h.finish();
    long markers = 0; { Probe p(h.dir, 1); for(const auto& m : p.all()) if(m.chunk_type == ChunkType::all_null) markers++; }
    c.count("null_markers_stored", markers);
    c.nontrivial = h.leaves.size() > 1 && (markers > 0 || c.counters["register_allnull"] > 0);
  });

  // ---- C05: moving, importing and merging keeps all contents
  Reg c05("C05", [](Ctx& c) {
    Weights w; w.move = 5; w.import = 8; w.reg = 5; w.reopen = 3; w.swap = 1; w.rebuild = 2; w.rd = 6; w.fill = 4;
    History h(c, w);
    struct Alt { fs::path p; ~Alt() { std::error_code ec; if(!p.empty()) fs::remove_all(p, ec); } } alt;
    // a directory on another file system than the scratch directory (slow, so only for some of the cases)
    if(c.idx % 5 == 0) {
      struct stat here, there;
      for(const char* root : {"/dev/shm", "/tmp"}) {
	if(stat(c.dir.c_str(), &here) || stat(root, &there) || here.st_dev == there.st_dev) continue;
	std::error_code ec; fs::path p = fs::path(root) / cat("vhalt.", getpid(), ".", c.idx);
	if(fs::create_directory(p, ec)) { alt.p = p; h.altroot = p; break; }
      }
    }
    if(!h.altroot.empty()) c.count("two_file_systems");
    h.run(nops(c)); h.finish();
    h.a.reset();
  });

  // ---- C03: rechunking preserves contents and fills the overlap regions
  struct Marker { long n = 0; };

  F2 boundary_value(I3 i) { return {(float)(1000 + i[0] * 7 + i[1] * 3 - i[2]), (float)(-2000 - i[0] + 5 * i[1] + 11 * i[2])}; }

  void c03_case(Ctx& c) {
    Rng& r = c.rng; Values vals(r);
    long big = c.idx < 300 ? 6 : 14;
    I3 n{r.irange(1, big), r.irange(1, big), r.irange(1, big)}, off{0, 0, 0};
    bool cyl = r.chance(0.35);                           // cylindrical boundary rule: index starts at zero
    if(!cyl && r.chance(0.4)) off = {r.irange(0, 4), r.irange(0, 4), r.irange(0, 4)};
    long ov = r.irange(0, 3);
    if(cyl) n[0] = std::max(n[0], ov + 1);
    Dense m(n + off);
    I3 ics{r.irange(1, 7), r.irange(1, 7), r.irange(1, 7)};
    std::size_t depth = r.range(0, 5);
    fs::path dir = c.sub("a");
    auto a = std::make_unique<darr_t>(dir, depth, U(I3{2, 2, 2}), streamer_shape());
    // region-dependent sparsity so that some rebuilt chunks are completely null and others not
    I3 hole_b = off, hole_e = n + off;
    bool hole = r.chance(0.5);
    if(hole) for(int d = 0; d < 3; d++) { hole_b[d] = r.irange(off[d], off[d] + n[d] - 1); hole_e[d] = r.irange(hole_b[d] + 1, off[d] + n[d]); }
    auto in_hole = [&](I3 i) { if(!hole) return false; for(int d = 0; d < 3; d++) if(i[d] < hole_b[d] || i[d] >= hole_e[d]) return false; return true; };
    auto reg_chunk = [&](const ind_t& b, const ind_t& e) {
      I3 B = L(b), E = L(e);
      arr_t x(U(E - B));
      each(B, E, [&](I3 i) { F2 v = in_hole(i) ? F2{0, 0} : vals.next(); m.set(i, v); put(x, i - B, v); });
      a -> RegisterChunk(x, b, r.chance(0.5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    };
    IteratorUtils::index_loop_over_chunks(U(off), U(off + n), U(ics), reg_chunk);
    if(r.chance(0.3)) a -> Flush();

    I3 cs{r.irange(1, 8), r.irange(1, 8), r.irange(1, 8)};
    auto hints = r.chance(0.5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
    bool partial = r.chance(0.6);
    I3 pb = off, pe = off + n, ob = off;
    if(partial) {
      for(int d = 0; d < 3; d++) { pb[d] = r.irange(off[d], off[d] + n[d] - 1); pe[d] = r.irange(pb[d] + 1, off[d] + n[d]); }
      if(cyl) pb = {0, 0, 0};
      ob = r.chance(0.5) ? pb : I3{r.irange(0, 9), r.irange(0, 9), r.irange(0, 9)};
      if(cyl) ob = pb;
    }
    int bmode = cyl ? 2 : (int)r.range(0, 1);
    c.desc << "n " << n << " off " << off << " from " << ics << " to " << cs << " overlap " << ov << " part " << pb << pe << " out " << ob << " boundary " << bmode << " opt " << (int)hints << " depth " << depth << " hole " << hole;
    c.sig = hash_str(c.desc.str()); c.nontrivial = vol(n) > 1;
    long calls = 0;
    fs::path out = c.sub("out");
    bool shared_tmp = !partial && r.chance(0.2);
    if(shared_tmp) { fs::create_directory(c.sub("tmp")); std::ofstream(c.sub("tmp") / "other.bin") << "other"; c.count("rechunk_in_shared_tmp"); }
    auto full = [&](darr_t&, const sind_t& i, darr_t::view_t v) { calls++; F2 x = boundary_value(L(i)); v = Vector<float, 2>(x.a, x.b); };
    auto local = [&](arr_t& chunk, const sind_t& cb, const sind_t& ce, const sind_t& i, darr_t::view_t v) {
      calls++;
      VH_CHECK(chunk.GetShape() == (ce - cb).template as_type<std::size_t>(), "boundary_args", "boundary rule sees a chunk of shape ", chunk.GetShape(), " but range ", cb, ce);
      for(int d = 0; d < 3; d++) VH_CHECK(i[d] >= cb[d] && i[d] < ce[d], "boundary_args", "boundary rule called for an element outside of its chunk");
      F2 x = boundary_value(L(i)); v = Vector<float, 2>(x.a, x.b); };
    auto go = [&](auto&& ev) {
      if(partial) a -> RebuildChunksPartial(U(pb), U(pe), U(ob), U(cs), out, (std::size_t)ov, ev, hints);
      else a -> RebuildChunks(U(cs), c.sub("tmp"), (std::size_t)ov, ev, hints);
    };
    if(bmode == 0) go(full); else if(bmode == 1) go(local); else go(SpatialSymmetry::Cylindrical<float>::boundary_evaluator);
    c.count("rechunk"); c.count("boundary_calls", calls);
    if(shared_tmp) {
      long left = 0; if(fs::exists(c.sub("tmp"))) for(auto& q : fs::recursive_directory_iterator(c.sub("tmp"))) { (void)q; left++; }
      VH_CHECK(left == 1 && fs::exists(c.sub("tmp") / "other.bin"), "rebuild_other", "rechunking does not leave the other files in the temporary directory alone");
    }
    else VH_CHECK(!fs::exists(c.sub("tmp")), "tmp_left", "rechunking leaves its temporary directory behind");

    if(partial) {      // the source must be unchanged
      each(off, off + n, [&](I3 i) { auto v = (*a)[U(i)]; VH_CHECK((F2{v[0], v[1]}) == m.at(i), "source_changed", "partial rechunking changed the source at ", i); });
    }
    else { a -> Flush(); a.reset(); out = dir; }

    I3 shift = ob - pb;
    // every element through ordinary element access
    {
      darr_t o(out, r.range(0, 4), U(I3{1, 1, 1}), streamer_shape());
      VH_CHECK(L(o.GetShape()) == pe - pb, "shape", "rechunked array has shape ", L(o.GetShape()), ", expected ", pe - pb);
      each(pb, pe, [&](I3 i) { auto v = o[U(i + shift)]; F2 x{v[0], v[1]}; c.outv(x); c.count("elements_compared");
	VH_CHECK(x == m.at(i), "mismatch", "rechunked element ", i, " is ", x, ", expected ", m.at(i)); });
    }
    History::check_files(out, "after rechunking");
    // the complete stored chunks
    Probe p(out, 1);
    long covered = 0;
    for(const auto& meta : p.all()) {
      I3 b = L(meta.start_ind), e = L(meta.end_ind);
      covered += vol(e - b);
      VH_CHECK((long)meta.overlap == ov, "overlap", "chunk is stored with overlap ", meta.overlap, ", requested ", ov);
      for(int d = 0; d < 3; d++) VH_CHECK(e[d] - b[d] <= cs[d] && (b[d] - ob[d]) % cs[d] == 0, "chunk_shape", "rebuilt chunk ", b, e, " does not fit the requested chunk shape ", cs);
      I3 O{ov, ov, ov};
      bool null_meta = meta.chunk_type == ChunkType::all_null;
      arr_t data = p.data(b);
      VH_CHECK(L(data.GetShape()) == (e - b) + O + O, "chunk_data_shape", "stored chunk has shape ", L(data.GetShape()), " for range ", b, e, " and overlap ", ov);
      each(b - O, e + O, [&](I3 i) {
	F2 x = get(data, i - b + O), want; I3 s = i - shift;
	bool inside = true, known = true; for(int d = 0; d < 3; d++) if(s[d] < off[d] || s[d] >= off[d] + n[d]) inside = false;
	if(inside) want = m.at(s);
	else if(bmode < 2) want = boundary_value(s);
	else {
	  // mirrored at r = 0, zero elsewhere outside
	  I3 q = s; q[0] = std::labs(q[0]);
	  bool qin = true; for(int d = 0; d < 3; d++) if(q[d] < 0 || q[d] >= n[d]) qin = false;
	  want = qin ? m.at(q) : F2{0, 0};
	}
	c.outv(x);
	c.count("overlap_elements", inside ? 0 : 1);
	if(known) VH_CHECK(x == want, "overlap_mismatch", (null_meta ? "null-" : ""), "chunk ", b, e, " stores ", x, " at ", i, ", expected ", want);
      });
    }
    VH_CHECK(covered == vol(pe - pb), "coverage", "rebuilt chunks cover ", covered, " elements of ", vol(pe - pb));
  }
  Reg c03("C03", c03_case);

  // ---- C28: invalid requests are refused without damage
  Reg c28("C28", [](Ctx& c) {
    Weights w; w.invalid = 30; w.reopen = 4; w.swap = 1; w.rebuild = 2; w.import = 1; w.move = 1; w.reg = 14;
    History h(c, w);
    if(h.r.chance(0.3)) { h.ser_len = h.r.range(2, 5); h.w.swap = h.w.rebuild = h.w.import = 0; h.a.reset(); fs::remove_all(h.dir); h.open(); }
    h.run(nops(c));
    if(!h.stop) h.finish();
    c.nontrivial = true;
  });

  // ---- C21: repeating operations does not accumulate memory
  Reg c21("C21leak", [](Ctx& c) {
    check_no_growth(c, [](Ctx& k) {
      if(k.idx % 4 == 0) { c03_case(k); return; }
      Weights w; w.reopen = 4; w.swap = 2; w.rebuild = 3; w.import = 2; w.move = 2; History h(k, w); h.run((int)k.rng.range(5, 30)); h.finish(); });
  });
}

VH_MAIN
