// C06 (file format), C10 (in-memory arrays), C19 (downsampling), C23 (exports)
#include "ev.hh"
#include "NDVecArrayOperations.hh"
#include "SignalExport.hh"

using namespace ev;

namespace {

  template <std::size_t D> using Idx = std::array<long, D>;

  template <std::size_t D> std::string str(const Idx<D>& a) { std::ostringstream s; s << "("; for(std::size_t i = 0; i < D; i++) s << (i ? "," : "") << a[i]; s << ")"; return s.str(); }
  template <std::size_t D> Vector<std::size_t, D> V(const Idx<D>& a) { Vector<std::size_t, D> v; for(std::size_t i = 0; i < D; i++) v[i] = (std::size_t)a[i]; return v; }
  template <std::size_t D, class X> Idx<D> I(const Vector<X, D>& a) { Idx<D> v; for(std::size_t i = 0; i < D; i++) v[i] = (long)a[i]; return v; }
  template <std::size_t D> long volD(const Idx<D>& a) { long v = 1; for(long x : a) v *= x; return v; }
  template <std::size_t D> Idx<D> add(Idx<D> a, const Idx<D>& b) { for(std::size_t i = 0; i < D; i++) a[i] += b[i]; return a; }
  template <std::size_t D> Idx<D> sub(Idx<D> a, const Idx<D>& b) { for(std::size_t i = 0; i < D; i++) a[i] -= b[i]; return a; }
  template <std::size_t D> Idx<D> zero() { Idx<D> z; z.fill(0); return z; }
  template <std::size_t D> std::size_t flat(const Idx<D>& i, const Idx<D>& n) { std::size_t f = 0; for(std::size_t d = 0; d < D; d++) f = f * n[d] + i[d]; return f; }

  // the production flags (-ffast-math) exclude infinities, NaN and subnormal numbers; decide from the bits
  bool normal(std::uint32_t u) { std::uint32_t e = (u >> 23) & 0xff; return e != 0 && e != 0xff; }

  float finite(Rng& r) { while(true) { std::uint32_t u = (std::uint32_t)r.next(); float f; std::memcpy(&f, &u, 4); if(normal(u)) return f; } }

  // row-major enumeration, independent of the repository's iterators
  template <std::size_t D, class F> void eachD(const Idx<D>& b, const Idx<D>& e, F&& f) {
    for(std::size_t d = 0; d < D; d++) if(b[d] >= e[d]) return;
    Idx<D> i = b;
    while(true) {
      f(i);
      int d = (int)D - 1;
      for(; d >= 0; d--) { if(++i[d] < e[d]) break; i[d] = b[d]; }
      if(d < 0) return;
    }
  }

  template <std::size_t D> Idx<D> rand_shape(Rng& r, long maxvol) {
    Idx<D> s;
    do { for(auto& x : s) x = r.chance(0.2) ? 1 : (r.chance(0.06) ? r.irange(1, 60) : r.irange(1, D >= 4 ? 5 : 9)); } while(volD<D>(s) > maxvol);
    return s;
  }
  template <std::size_t D> void rand_box(Rng& r, const Idx<D>& n, Idx<D>& b, Idx<D>& e) {
    for(std::size_t d = 0; d < D; d++) {
      if(r.chance(0.3)) { b[d] = 0; e[d] = n[d]; }
      else { b[d] = r.irange(0, n[d] - 1); e[d] = r.irange(b[d] + 1, n[d]); }
    }
  }

  // ------------------------------------------------------------------------------------------------------------
  // C10
#ifdef SUITE_C10

  template <class T, std::size_t D, std::size_t VD> struct Nd {
    using A = NDVecArray<T, D, VD>;
    using E = std::array<T, VD>;
    struct Store { Idx<D> n; std::vector<E> v; };
    struct Obj { std::unique_ptr<A> a; std::shared_ptr<Store> st; Idx<D> off, n; bool owner; };
    Ctx& c; Rng& r; Values vals; std::vector<Obj> objs; std::string kinds;

    explicit Nd(Ctx& c_) : c(c_), r(c_.rng), vals(c_.rng, (int)c_.rng.range(0, 5)) { }

    E rv() { E e; F2 x = vals.next(); if(x.a == 0 && x.b == 0) { e.fill(0); return e; } for(auto& y : e) y = (T)(r.chance(0.2) ? 0 : vals.nz()); return e; }
    E& at(Obj& o, const Idx<D>& i) { return o.st->v[flat<D>(add<D>(o.off, i), o.st->n)]; }
    static E rd(const A& a, const Idx<D>& i) { E e; auto v = a[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) e[k] = v[k]; return e; }
    static void wr(A& a, const Idx<D>& i, const E& e) { Vector<T, VD> x; for(std::size_t k = 0; k < VD; k++) x[k] = e[k]; a[V<D>(i)] = x; }

    void overwrite(Obj& o) {      // write everything by element
      eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) { E e = rv(); at(o, i) = e; wr(*o.a, i, e); });
    }
    void add_owner(std::unique_ptr<A> a, const Idx<D>& n) {
      Obj o; o.a = std::move(a); o.st = std::make_shared<Store>(); o.st->n = n; o.st->v.resize(volD<D>(n)); o.off = zero<D>(); o.n = n; o.owner = true;
      objs.push_back(std::move(o));
    }
    Idx<D> shape() { return rand_shape<D>(r, 220); }

    void verify(Obj& o, const char* when) {
      VH_CHECK(I<D>(o.a->GetShape()) == o.n, "nd-shape", when, ": GetShape gives ", str<D>(I<D>(o.a->GetShape())), " for ", str<D>(o.n));
      VH_CHECK((long)o.a->GetNumberElements() == volD<D>(o.n) && (long)o.a->GetVolume() == volD<D>(o.n) * (long)VD, "nd-volume", when, ": element count or volume wrong");
      const A& ca = *o.a;
      bool allnull = true;
      eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) {
        E m = at(o, i), g = rd(ca, i);
        bool nul = true; for(T x : m) if(x != 0) nul = false;
        allnull = allnull && nul;
        if(!(g == m)) vh::fail("nd-value", cat(when, ": element ", str<D>(i), " of ", o.owner ? "array " : "view ", str<D>(o.n), " component 0 is ", g[0], ", expected ", m[0]));
      });
      c.count("elements_checked", volD<D>(o.n));
      (void)allnull;
    }
    void verify_null(Obj& o) {
      bool allnull = true;
      eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) {
        E m = at(o, i); bool nul = true; for(T x : m) if(x != 0) nul = false;
        allnull = allnull && nul;
        VH_CHECK(o.a->IsNull(V<D>(i)) == nul, "nd-isnull", "element ", str<D>(i));
      });
      VH_CHECK(o.a->IsAllNull() == allnull, "nd-isallnull", "shape ", str<D>(o.n), " owner ", o.owner, " expected ", allnull);
    }
    void verify_loops(Obj& o) {
      std::vector<E> got;
      o.a->loop_over_elements([&](VectorView<T, VD> v) { E e; for(std::size_t k = 0; k < VD; k++) e[k] = v[k]; got.push_back(e); });
      std::size_t p = 0;
      VH_CHECK((long)got.size() == volD<D>(o.n), "nd-loop-count", "loop_over_elements visited ", got.size(), " elements of ", str<D>(o.n));
      eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) { if(!(got[p] == at(o, i))) vh::fail("nd-loop", cat("loop_over_elements: wrong element or order at ", str<D>(i))); p++; });

      Idx<D> b = zero<D>(), e = o.n; bool full = r.chance(0.4);
      if(!full) rand_box<D>(r, o.n, b, e);
      std::vector<std::pair<Idx<D>, E>> gi;
      auto w = [&](const Vector<std::size_t, D>& i, VectorView<T, VD> v) { E x; for(std::size_t k = 0; k < VD; k++) x[k] = v[k]; gi.push_back({I<D>(i), x}); };
      if(full) o.a->index_loop_over_elements(w); else o.a->index_loop_over_elements(V<D>(b), V<D>(e), w);
      VH_CHECK((long)gi.size() == volD<D>(sub<D>(e, b)), "nd-iloop-count", "index loop visited ", gi.size(), " elements of the range ", str<D>(b), str<D>(e));
      p = 0;
      eachD<D>(b, e, [&](const Idx<D>& i) { if(gi[p].first != i || !(gi[p].second == at(o, i))) vh::fail("nd-iloop", cat("index loop over ", str<D>(b), str<D>(e), ": got index ", str<D>(gi[p].first), " expected ", str<D>(i))); p++; });

      // chunks tile the range
      Idx<D> cs; for(std::size_t d = 0; d < D; d++) cs[d] = r.chance(0.15) ? 1000000 : r.irange(1, o.n[d] + 2);
      std::vector<int> seen(volD<D>(o.n), 0);
      Idx<D> lastb; lastb.fill(-1);
      auto on_chunk = [&](const Vector<std::size_t, D>& cb, const Vector<std::size_t, D>& ce) {
        Idx<D> x = I<D>(cb), y = I<D>(ce);
        for(std::size_t d = 0; d < D; d++) VH_CHECK(x[d] >= b[d] && y[d] <= e[d] && y[d] > x[d] && y[d] - x[d] <= cs[d] && (x[d] - b[d]) % cs[d] == 0, "nd-chunkloop", "chunk ", str<D>(x), str<D>(y), " in ", str<D>(b), str<D>(e), " size ", str<D>(cs));
        VH_CHECK(lastb < x, "nd-chunkloop", "chunks not in order");
        lastb = x;
        eachD<D>(x, y, [&](const Idx<D>& i) { seen[flat<D>(i, o.n)]++; });
      };
      IteratorUtils::index_loop_over_chunks(V<D>(b), V<D>(e), V<D>(cs), on_chunk);
      eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) {
        bool in = true; for(std::size_t d = 0; d < D; d++) in = in && i[d] >= b[d] && i[d] < e[d];
        if(seen[flat<D>(i, o.n)] != (in ? 1 : 0)) vh::fail("nd-chunkloop", cat("position ", str<D>(i), " covered ", seen[flat<D>(i, o.n)], " times"));
      });

      // sequential access along the fastest axis
      Idx<D> st; for(std::size_t d = 0; d < D; d++) st[d] = r.irange(0, o.n[d] - 1);
      std::vector<std::size_t> inner; long m = o.n[D - 1] - st[D - 1];
      for(long k = 0; k < std::min<long>(m, 5); k++) inner.push_back(r.range(0, m - 1));
      std::vector<E> seq;
      o.a->apply_sequential(V<D>(st), inner, [&](VectorView<T, VD> v) { E x; for(std::size_t k = 0; k < VD; k++) x[k] = v[k]; seq.push_back(x); });
      VH_CHECK(seq.size() == inner.size(), "nd-seq", "wrong number of calls");
      for(std::size_t k = 0; k < seq.size(); k++) { Idx<D> q = st; q[D - 1] += inner[k]; VH_CHECK(seq[k] == at(o, q), "nd-seq", "wrong element for offset ", inner[k], " from ", str<D>(st)); }

      if constexpr(D == 1) {
        for(long i = 0; i < o.n[0]; i++) { auto v = (*o.a)[(std::size_t)i]; for(std::size_t k = 0; k < VD; k++) VH_CHECK(v[k] == at(o, {i})[k], "nd-scalar-index", "element ", i, " of a ", o.owner ? "array" : "view"); }
      }
      for(int t = 0; t < 4; t++) {
        Idx<D> q; bool in = true;
        for(std::size_t d = 0; d < D; d++) { q[d] = r.irange(0, o.n[d] + 1); in = in && q[d] < o.n[d]; }
        VH_CHECK(o.a->has_index(V<D>(q)) == in && o.a->index_within_bounds(V<D>(q)) == in, "nd-hasindex", str<D>(q), " in ", str<D>(o.n));
      }
    }

    template <std::size_t X, std::size_t Y> void swap_into(Obj& s, Obj& d) {
      s.a->template SwapAxes<X, Y>(*d.a);
      auto st = std::make_shared<Store>(); st->n = s.n; std::swap(st->n[X], st->n[Y]); st->v.resize(volD<D>(st->n));
      eachD<D>(zero<D>(), s.n, [&](const Idx<D>& i) { Idx<D> j = i; std::swap(j[X], j[Y]); st->v[flat<D>(j, st->n)] = at(s, i); });
      d.st = st; d.n = st->n; d.off = zero<D>();
    }

    void step() {
      std::size_t k = r.range(0, 16);
      if(objs.empty()) { Idx<D> n = shape(); add_owner(std::make_unique<A>(V<D>(n)), n); overwrite(objs.back()); }
      if(objs.size() > 7) k = 15;
      std::size_t oi = r.range(0, objs.size() - 1); objs.reserve(16);
      auto& o = objs[oi];
      char tag = (char)('a' + k);
      switch(k) {
      case 0: {                                           // new array
        Idx<D> n = shape();
        if(r.chance(0.5)) { auto a = std::make_unique<A>(V<D>(n)); add_owner(std::move(a), n); overwrite(objs.back()); }
        else { T x = r.chance(0.3) ? (T)0 : (T)vals.nz(); auto a = std::make_unique<A>(V<D>(n), x); add_owner(std::move(a), n); for(auto& e : objs.back().st->v) e.fill(x); }
        break; }
      case 1: case 2: {                                   // view
        Idx<D> b, e; rand_box<D>(r, o.n, b, e);
        Obj v; v.a = std::unique_ptr<A>(new A(o.a->View(V<D>(b), V<D>(e)))); v.st = o.st; v.off = add<D>(o.off, b); v.n = sub<D>(e, b); v.owner = false;
        // (construction from a prvalue keeps the view)
        VH_CHECK(!v.a->owns_data(), "nd-view-owner", "view claims to own its data");
        objs.push_back(std::move(v));
        break; }
      case 3: case 4: {                                   // element writes
        for(int t = 0; t < 6; t++) {
          Idx<D> i; for(std::size_t d = 0; d < D; d++) i[d] = r.irange(0, o.n[d] - 1);
          E e = rv();
          if(r.chance(0.5)) wr(*o.a, i, e); else { auto v = (*o.a)[V<D>(i)]; for(std::size_t q = 0; q < VD; q++) v[q] = e[q]; }
          at(o, i) = e;
        }
        break; }
      case 5: {                                           // range fill
        Idx<D> b, e; rand_box<D>(r, o.n, b, e);
        T x = r.chance(0.3) ? (T)0 : (T)vals.nz();
        o.a->fill(V<D>(b), V<D>(e), x);
        eachD<D>(b, e, [&](const Idx<D>& i) { at(o, i).fill(x); });
        break; }
      case 6: {                                           // assignment of a value
        T x = r.chance(0.4) ? (T)0 : (T)vals.nz();
        *o.a = x;
        eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) { at(o, i).fill(x); });
        break; }
      case 7: case 8: {                                   // range copy
        auto& s = objs[r.range(0, objs.size() - 1)];
        Idx<D> b, e, t;
        for(std::size_t d = 0; d < D; d++) { long len = r.irange(1, std::min(o.n[d], s.n[d])); b[d] = r.irange(0, s.n[d] - len); e[d] = b[d] + len; t[d] = r.irange(0, o.n[d] - len); }
        if(s.st == o.st) {       // source and destination may be in the same memory but must not overlap
          bool disj = false;
          for(std::size_t d = 0; d < D; d++) { long s0 = s.off[d] + b[d], s1 = s.off[d] + e[d], d0 = o.off[d] + t[d], d1 = d0 + e[d] - b[d]; if(s1 <= d0 || d1 <= s0) disj = true; }
          if(!disj) { tag = '-'; break; }
        }
        o.a->fill_from(*s.a, V<D>(b), V<D>(e), V<D>(t));
        eachD<D>(b, e, [&](const Idx<D>& i) { at(o, add<D>(t, sub<D>(i, b))) = at(s, i); });
        break; }
      case 9: {                                           // fill one column
        if(!o.owner) { tag = '-'; break; }
        Idx<D> t; for(std::size_t d = 0; d < D; d++) t[d] = r.irange(0, o.n[d] - 1);
        long len = r.irange(1, o.n[D - 1] - t[D - 1]);
        NDVecArray<T, 1, VD> col((std::size_t)len);
        std::vector<E> cv(len);
        for(long i = 0; i < len; i++) { cv[i] = rv(); auto v = col[(std::size_t)i]; for(std::size_t q = 0; q < VD; q++) v[q] = cv[i][q]; }
        if constexpr(D > 1) o.a->template fill_from<D - 1>(col, V<D>(t)); else o.a->fill_from(col, Vector<std::size_t, 1>((std::size_t)0), Vector<std::size_t, 1>((std::size_t)len), V<D>(t));
        for(long i = 0; i < len; i++) { Idx<D> q = t; q[D - 1] += i; at(o, q) = cv[i]; }
        break; }
      case 10: {                                          // copy constructor: independent copy
        auto cp = std::make_unique<A>(*o.a);
        VH_CHECK(cp->owns_data(), "nd-copy-owner", "a copy must own its data");
        Idx<D> n = o.n; std::vector<E> v; eachD<D>(zero<D>(), n, [&](const Idx<D>& i) { v.push_back(at(o, i)); });
        add_owner(std::move(cp), n); objs.back().st->v = v;
        break; }
      case 11: {                                          // copy assignment
        auto& s = objs[r.range(0, objs.size() - 1)];
        if(!o.owner || o.st.use_count() != 1 || o.st == s.st) { tag = '-'; break; }
        *o.a = *s.a;
        auto st = std::make_shared<Store>(); st->n = s.n; eachD<D>(zero<D>(), s.n, [&](const Idx<D>& i) { st->v.push_back(at(s, i)); });
        o.st = st; o.n = s.n; o.off = zero<D>();
        break; }
      case 12: {                                          // append
        if(!o.owner || o.st.use_count() != 1 || volD<D>(o.n) > 2000) { tag = '-'; break; }
        Idx<D> n = o.n; n[0] = r.irange(1, 4);
        A s0(V<D>(add<D>(n, [&] { Idx<D> p; p.fill(2); return p; }())));
        Idx<D> sn = n; for(auto& x : sn) x += 2;
        std::vector<E> sv(volD<D>(sn)); eachD<D>(zero<D>(), sn, [&](const Idx<D>& i) { E e = rv(); sv[flat<D>(i, sn)] = e; wr(s0, i, e); });
        Idx<D> b; for(auto& x : b) x = r.irange(0, 2);
        bool asview = r.chance(0.5);
        A view = s0.View(V<D>(b), V<D>(add<D>(b, n)));
        A own(view);
        VH_CHECK(A::ShapeAllowsConcatenation(V<D>(o.n), V<D>(n), 0), "nd-concat", "must be allowed");
        if(r.chance(0.5)) o.a->template Append<0>(asview ? view : own); else o.a->Append(asview ? view : own, 0);
        o.st->n[0] += n[0]; o.n[0] += n[0];
        eachD<D>(b, add<D>(b, n), [&](const Idx<D>& i) { o.st->v.push_back(sv[flat<D>(i, sn)]); });
        break; }
      case 13: {                                          // axis swap
        if constexpr(D >= 2) {
          std::size_t di = r.range(0, objs.size() - 1);
          Obj& d = objs[di];
          if(!d.owner || d.st.use_count() != 1 || d.st == o.st) { tag = '-'; break; }
          switch(r.range(0, 3)) {
          case 0: swap_into<0, 1>(o, d); break;
          case 1: swap_into<0, D - 1>(o, d); break;
          case 2: swap_into<D - 2, D - 1>(o, d); break;
          default: swap_into<D - 1, 0>(o, d); break;
          }
        }
        break; }
      case 14: {                                          // resize
        if(!o.owner || o.st.use_count() != 1) { tag = '-'; break; }
        Idx<D> n = shape();
        bool val = r.chance(0.5); T x = r.chance(0.4) ? (T)0 : (T)vals.nz();
        if(val) o.a->resize(V<D>(n), x);
        else { if constexpr(D == 1) { if(r.chance(0.5)) o.a->resize((std::size_t)n[0]); else o.a->resize(V<D>(n)); } else o.a->resize(V<D>(n)); }
        o.st->n = n; o.n = n; o.st->v.resize(volD<D>(n));
        if(val) for(auto& e : o.st->v) e.fill(x); else overwrite(o);
        break; }
      case 15: {                                          // destroy an object; views keep the data alive
        std::size_t i = r.range(0, objs.size() - 1);
        if(objs.size() > 1) objs.erase(objs.begin() + i);
        break; }
      default: {
        if(o.owner && r.chance(0.5)) { o.a->clear(); for(auto& e : o.st->v) e.fill(0); }
        else { verify_null(o); verify_loops(o); tag = 'n'; }
        break; }
      }
      kinds += tag;
      c.count(cat("op_", tag));
    }

    void shapes() {
      for(int t = 0; t < 3; t++) {
        Idx<D> a = shape(), b = a; std::size_t ax = r.range(0, D - 1);
        for(std::size_t d = 0; d < D; d++) if(r.chance(0.3)) b[d] = r.irange(1, 9);
        bool ok = true; for(std::size_t d = 0; d < D; d++) if(d != ax && a[d] != b[d]) ok = false;
        VH_CHECK(A::ShapeAllowsConcatenation(V<D>(a), V<D>(b), ax) == ok, "nd-concat", str<D>(a), " ", str<D>(b), " axis ", ax);
      }
    }

    void run() {
      c.desc << "NDVecArray dims " << D << " vec_dims " << VD << (sizeof(T) == 8 ? " double " : " ");
      shapes();
      int n = (int)r.range(8, c.thorough ? 60 : 30);
      for(int i = 0; i < n; i++) {
        step();
        if(i % 3 == 0) for(auto& o : objs) verify(o, "after an operation");
      }
      for(auto& o : objs) { verify(o, "at the end"); verify_null(o); verify_loops(o); }
      c.desc << kinds;
      c.nontrivial = kinds.find('b') != std::string::npos || kinds.find('c') != std::string::npos;
      for(auto& o : objs) eachD<D>(zero<D>(), o.n, [&](const Idx<D>& i) { E e = rd(*o.a, i); c.out(e.data(), sizeof(e)); });
    }
  };

  // arrays with more than 2^32 elements, of which only a few are ever touched
  template <std::size_t D, std::size_t VD> void huge_array(Ctx& c) {
    using E1 = signed char; using A = NDVecArray<E1, D, VD>;   // the smallest element type: 5 GB rather than 20
    Rng& r = c.rng;
    Idx<D> n; n.fill(1);
    n[0] = r.irange(3, 9); long rest = (5L << 30) / (n[0] - 1) / (long)VD;
    if(D == 1) n[0] = (5L << 30) / (long)VD;
    else { std::size_t d = r.range(1, D - 1); n[d] = rest; if(D > 2) { std::size_t e = d == 1 ? 2 : 1; n[e] = 1 << 10; n[d] >>= 10; } }
    A a{V<D>(n)};
    VH_CHECK((long)a.GetNumberElements() == volD<D>(n) && (long)a.GetVolume() == volD<D>(n) * (long)VD, "nd-volume", "array of shape ", str<D>(n), " reports ", a.GetNumberElements(), " elements");
    std::map<Idx<D>, std::array<E1, VD>> ref;
    auto wr = [&](A& x, const Idx<D>& i, const std::array<E1, VD>& e) { auto v = x[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) v[k] = e[k]; };
    auto any = [&] { Idx<D> i; for(std::size_t d = 0; d < D; d++) i[d] = r.chance(0.3) ? n[d] - 1 : r.irange(0, n[d] - 1); return i; };
    auto val = [&] { std::array<E1, VD> e; for(E1& x : e) x = (E1)r.irange(-100, 100); return e; };
    for(int q = 0; q < 12; q++) { Idx<D> i = any(); auto e = val(); wr(a, i, e); ref[i] = e; }
    for(int q = 0; q < 6; q++) {       // small views far from the beginning: write through them, fill in them, copy out of them
      Idx<D> b = any(), e; for(std::size_t d = 0; d < D; d++) e[d] = std::min(n[d], b[d] + r.irange(1, 3));
      Idx<D> m = sub<D>(e, b);
      A view = a.View(V<D>(b), V<D>(e));
      eachD<D>(zero<D>(), m, [&](const Idx<D>& i) { auto x = val(); wr(view, i, x); ref[add<D>(b, i)] = x; });
      if(r.chance(0.5)) { E1 x = (E1)r.irange(-100, 100); Idx<D> fe = m; a.fill(V<D>(b), V<D>(add<D>(b, fe)), x); eachD<D>(b, e, [&](const Idx<D>& i) { ref[i].fill(x); }); }
      A copy(view); A out{V<D>(m)}; out.fill_from(a, V<D>(b), V<D>(e), V<D>(zero<D>()));
      eachD<D>(zero<D>(), m, [&](const Idx<D>& i) { auto& want = ref[add<D>(b, i)]; auto x = copy[V<D>(i)], y = out[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) VH_CHECK(x[k] == want[k] && y[k] == want[k], "nd-value", "copy of a view at ", str<D>(b), " in an array of shape ", str<D>(n), " differs at ", str<D>(i)); });
    }
    for(auto& [i, e] : ref) { auto x = a[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) VH_CHECK(x[k] == e[k], "nd-value", "element ", str<D>(i), " of an array of shape ", str<D>(n), " is ", (int)x[k], ", expected ", (int)e[k]); }
    c.desc << "huge " << str<D>(n) << " x " << VD; c.count("arrays_beyond_2^32_elements"); c.nontrivial = true;
  }

  vh::Reg r10("C10", [](Ctx& c) {
#ifndef __SANITIZE_ADDRESS__
    if(c.idx % 5000 == 3) { try { switch((c.idx / 5000) % 4) { case 0: huge_array<4, 2>(c); break; case 1: huge_array<1, 1>(c); break; case 2: huge_array<2, 3>(c); break; default: huge_array<3, 2>(c); } } catch(const std::bad_alloc&) { c.count("no_memory_for_huge_array"); c.desc << "no memory"; } return; }
#endif
    switch(c.rng.range(0, 7)) {
    case 0: Nd<float, 1, 1>(c).run(); break;
    case 1: Nd<float, 1, 2>(c).run(); break;
    case 2: Nd<float, 2, 1>(c).run(); break;
    case 3: Nd<float, 2, 3>(c).run(); break;
    case 4: Nd<float, 3, 1>(c).run(); break;
    case 5: Nd<double, 3, 2>(c).run(); break;
    case 6: Nd<float, 4, 2>(c).run(); break;
    default: Nd<float, 3, 2>(c).run(); break;
    }
  });
#endif  // C10

  // ------------------------------------------------------------------------------------------------------------
  // C06
#if defined(SUITE_C06) || defined(SUITE_C28)

  template <std::size_t D, std::size_t VD> struct Fmt {
    using A = NDVecArray<float, D, VD>;
    using S = stor::NDVecArrayStreamer<NDVecArray, float, D, VD>;
    using E = std::array<float, VD>;
    Ctx& c; Rng& r; Values vals;
    explicit Fmt(Ctx& c_) : c(c_), r(c_.rng), vals(c_.rng) { }

    E rv() { E e; F2 x = vals.next(); if(x.a == 0 && x.b == 0) { e.fill(0); return e; } bool nz = false; for(auto& y : e) { y = r.chance(0.25) ? 0.0f : special(); if(y != 0) nz = true; } if(!nz) e[r.range(0, VD - 1)] = vals.nzz(); return e; }
    float special() {
      switch(r.range(0, 9)) {
      case 0: return std::numeric_limits<float>::min();
      case 1: return std::numeric_limits<float>::max();
      case 2: return -std::numeric_limits<float>::min();
      case 3: { std::uint32_t u = (std::uint32_t)r.next(); float f; std::memcpy(&f, &u, 4); return normal(u) ? f : 1.5f; }
      case 4: { std::uint32_t u = htonl((std::uint32_t)r.range(1, 60)); float f; std::memcpy(&f, &u, 4); return normal(u) ? f : 3.0f; }        // bytes look like a small counter
      default: return vals.nzz();
      }
    }
    std::vector<E> rand_vals(const Idx<D>& n) { std::vector<E> v(volD<D>(n)); for(auto& e : v) e = rv(); return v; }
    // array or view holding the values
    std::unique_ptr<A> holder;
    A make(const Idx<D>& n, const std::vector<E>& v, bool view) {
      auto put = [&](A& a) { eachD<D>(zero<D>(), n, [&](const Idx<D>& i) { auto x = a[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) x[k] = v[flat<D>(i, n)][k]; }); };
      if(view) {
        Idx<D> big = n, off; for(std::size_t d = 0; d < D; d++) { off[d] = r.irange(0, 2); big[d] += off[d] + r.irange(0, 2); }
        holder = std::make_unique<A>(V<D>(big), 77.0f);
        A w = holder->View(V<D>(off), V<D>(add<D>(off, n)));
        put(w);
        return w.View(V<D>(zero<D>()), V<D>(n));
      }
      holder = std::make_unique<A>(V<D>(n)); put(*holder);
      return holder->View(V<D>(zero<D>()), V<D>(n));
    }
    void check(const A& a, const Idx<D>& n, const std::vector<E>& v, const char* what) {
      VH_CHECK(I<D>(a.GetShape()) == n, "fmt-shape", what, ": got ", str<D>(I<D>(a.GetShape())), " expected ", str<D>(n));
      eachD<D>(zero<D>(), n, [&](const Idx<D>& i) {
        auto x = a[V<D>(i)];
        for(std::size_t k = 0; k < VD; k++) { float g = x[k], m = v[flat<D>(i, n)][k]; if(std::memcmp(&g, &m, 4)) vh::fail("fmt-value", cat(what, ": element ", str<D>(i), " component ", k, " of ", str<D>(n), " is ", g, " expected ", m)); }
      });
      c.count("elements_checked", volD<D>(n));
      eachD<D>(zero<D>(), n, [&](const Idx<D>& i) { auto x = a[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) { float g = x[k]; c.outv(g); } });
    }
    Idx<D> rand_ser(const Idx<D>& n) {
      Idx<D> s; bool any = false;
      for(std::size_t d = 0; d < D; d++) {
        int q = (int)r.range(0, 4);
        if(q == 0) s[d] = -1;
        else { s[d] = q == 1 ? 1 : q == 2 ? n[d] : r.irange(1, n[d] + 3); any = true; }
      }
      if(!any) s[0] = r.irange(1, n[0]);
      return s;
    }
    static Vector<std::size_t, D> VS(const Idx<D>& a) { Vector<std::size_t, D> v; for(std::size_t i = 0; i < D; i++) v[i] = a[i] < 0 ? stor::INFTY : (std::size_t)a[i]; return v; }
    static long nchunks(const Idx<D>& n, const Idx<D>& s) { long k = 1; for(std::size_t d = 0; d < D; d++) { long q = s[d] < 0 ? n[d] : s[d]; k *= (n[d] + q - 1) / q; } return k; }
    stor::StreamerMode mode() { return r.chance(0.5) ? stor::StreamerMode::dense : stor::StreamerMode::null_suppressed; }
    std::string slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }

    void roundtrip() {
      S str1(r.chance(0.5) ? 10000 : r.range(0, 5)), str2;
      fs::path p = c.sub("f.bin");
      int k = (int)r.range(1, 4);
      struct Rec { Idx<D> n; std::vector<E> v; };
      std::vector<Rec> recs;
      std::uintmax_t bound = 0;
      {
        std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
        for(int i = 0; i < k; i++) {
          vals = Values(r);
          Rec q; q.n = rand_shape<D>(r, r.chance(0.1) ? 20000 : 300); q.v = rand_vals(q.n);
          Idx<D> s = rand_ser(q.n); auto m = mode();
          A a = make(q.n, q.v, r.chance(0.5));
          str1.serialize(f, a, VS(s), m);
          long N = volD<D>(q.n), nc = nchunks(q.n, s);
          bound += 8 * (2 * D + 1) + nc * 16 + 4 * (N * VD + N / 2 + nc);
          c.count("arrays"); c.count("serialization_chunks", nc);
          c.desc << str<D>(q.n) << "/" << str<D>(s) << (m == stor::StreamerMode::dense ? "d" : "n") << vals.profile << " ";
          recs.push_back(std::move(q));
        }
      }
      VH_CHECK(fs::file_size(p) <= bound, "fmt-size", "file of ", fs::file_size(p), " bytes exceeds the bound ", bound);
      std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary);
      std::unique_ptr<A> reuse = std::make_unique<A>(V<D>(rand_shape<D>(r, 300)), 5.0f);
      for(auto& q : recs) {
        if(r.chance(0.3)) reuse = std::make_unique<A>(V<D>(zero<D>()));
        (r.chance(0.5) ? str1 : str2).deserialize(f, *reuse);
        VH_CHECK(f.good(), "fmt-stream", "stream not good after reading");
        check(*reuse, q.n, q.v, "round trip");
      }
      c.nontrivial = true;
    }

    // long streaks of nulls in a single serialisation chunk
    void long_streaks(bool huge) {
      S st; fs::path p = c.sub("l.bin");
      const long want = huge ? (1L << 24) + r.irange(1, 5000) : 65536 + r.irange(-3, 70000);
      Idx<D> n; for(auto& x : n) x = 1;
      std::size_t d = r.range(0, D - 1); n[d] = want;
      if(D > 1 && r.chance(0.5)) { std::size_t q = (d + 1) % D; n[q] = r.irange(2, 9); n[d] = want / n[q] + 1; }
      std::vector<E> v(volD<D>(n)); for(auto& e : v) e.fill(0);
      for(int q = (int)r.range(0, 3); q > 0; q--) v[r.range(0, 1) ? r.range(0, 99) : v.size() - 1 - r.range(0, 99)] = rv();
      { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
        A a = make(n, v, false); Idx<D> s = n; if(r.chance(0.5)) s[(d + 1) % D] = -1; if(D == 1) s = n; st.serialize(f, a, VS(s), huge ? stor::StreamerMode::null_suppressed : mode()); }
      std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary);
      A t(V<D>(zero<D>())); st.deserialize(f, t);
      check(t, n, v, "long streak of nulls");
      c.desc << "streak " << str<D>(n); c.count("long_streaks"); c.nontrivial = true;
    }

    void append() {
      S st;
      fs::path p = c.sub("a.bin");
      Idx<D> n = rand_shape<D>(r, 300);
      Idx<D> s = rand_ser(n);
      // usually along the slowest axis, but the format also allows others if the array is a single serialisation chunk along all slower ones
      const std::size_t main_ax = r.chance(0.7) ? 0 : r.range(0, D - 1);
      if(r.chance(0.7)) { s[main_ax] = r.irange(1, 3); for(std::size_t d = 0; d < D; d++) if(d != main_ax && r.chance(0.8)) s[d] = -1; }
      if(s[main_ax] > 0 && r.chance(0.8)) n[main_ax] = s[main_ax] * r.irange(1, 3);
      std::vector<E> v = rand_vals(n);
      // the array may follow other content
      std::string prefix; std::uintmax_t pos = 0;
      const int before_it = r.chance(0.5) ? 0 : (int)r.range(1, 2);
      bool even = true;          // all serialisation chunks of the array as first stored have the same shape
      for(std::size_t d = 0; d < D; d++) if(s[d] > 0 && s[d] < n[d] && n[d] % s[d]) even = false;
      { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
        if(before_it == 1) { prefix.resize(r.range(1, 100)); for(auto& ch : prefix) ch = (char)r.next(); f.write(prefix.data(), (std::streamsize)prefix.size()); }
        else if(before_it == 2) { Idx<D> n0 = rand_shape<D>(r, 50); A a = make(n0, rand_vals(n0), false); st.serialize(f, a, VS(rand_ser(n0)), mode()); f.flush(); prefix = slurp(p); }
        pos = (std::uintmax_t)f.tellp();
        A a = make(n, v, r.chance(0.5)); st.serialize(f, a, VS(s), mode()); }
      auto reopen = [&] { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary); f.seekg((std::streamoff)pos); return f; };
      bool final = false, aligned = true;
      auto readback = [&](const char* when) {
        std::fstream f = reopen();
        A t(V<D>(zero<D>())); st.deserialize(f, t);
        VH_CHECK(f.good(), "fmt-stream", "stream not good ", when);
        f.peek(); VH_CHECK(f.eof(), "fmt-trailing", "data left over after reading the array ", when);
        check(t, n, v, when);
        VH_CHECK(slurp(p).compare(0, prefix.size(), prefix) == 0, "fmt-prefix", "content in front of the array changed ", when);
      };
      int k = (int)r.range(1, 5), did = 0, refused = 0;
      c.desc << "append " << str<D>(n) << "/" << str<D>(s) << " ";
      for(int i = 0; i < k; i++) {
        if(!final && r.chance(0.15)) { std::fstream f = reopen(); std::string before = slurp(p); st.mark_as_final(f); final = true; c.desc << "F"; f.close(); VH_CHECK(before.size() == fs::file_size(p), "fmt-final-size", "marking as final changed the file size"); readback("after marking as final"); continue; }
        const std::size_t ax = r.chance(0.85) ? main_ax : r.range(0, D - 1);
        Idx<D> m = n; m[ax] = s[ax] > 0 && r.chance(0.7) ? s[ax] * r.irange(1, 2) : r.irange(1, 4);
        bool wrong = false;
        if(D > 1 && r.chance(0.12)) { m[(ax + r.range(1, D - 1)) % D] += r.irange(1, 2); wrong = true; }
        bool equal = true;       // all serialisation chunks fit along the other axes
        for(std::size_t d = 0; d < D; d++) if(d != ax && s[d] > 0 && s[d] < n[d] && n[d] % s[d]) equal = false;
        bool split = false;      // several serialisation chunks along slower axes
        for(std::size_t d = 0; d < ax; d++) if(s[d] > 0 && s[d] < n[d]) split = true;
        bool partial = s[ax] < 0 || n[ax] % s[ax] != 0;
        std::vector<E> w = rand_vals(m);
        A a = make(m, w, r.chance(0.5));
        std::string before = slurp(p);
        bool thrown = false; std::string what;
        { std::fstream f = reopen();
          try { st.append_slice(f, a, ax, mode()); } catch(const std::exception& e) { thrown = true; what = e.what(); } }
        if(final || wrong || partial || !even) VH_CHECK(thrown, "fmt-append-accepted", "append accepted although ", final ? "final" : wrong ? "the slice has the wrong shape" : "a chunk is partial", ": array ", str<D>(n), " slice ", str<D>(m), " chunk ", str<D>(s));
        else if(equal && aligned && !split) VH_CHECK(!thrown, "fmt-append-refused", "valid append refused (", what, "): array ", str<D>(n), " slice ", str<D>(m), " chunk ", str<D>(s));
        if(thrown) { VH_CHECK(slurp(p) == before, "fmt-append-damage", "refused append changed the file"); refused++; c.desc << "x"; }
        else {
          if(s[ax] < 0 || m[ax] % s[ax]) aligned = false;
          Idx<D> nn = n; nn[ax] += m[ax];
          std::vector<E> vv(volD<D>(nn));
          eachD<D>(zero<D>(), nn, [&](const Idx<D>& q) { Idx<D> o = q; o[ax] -= n[ax]; vv[flat<D>(q, nn)] = o[ax] < 0 ? v[flat<D>(q, n)] : w[flat<D>(o, m)]; });
          n = nn; v = std::move(vv); did++; c.desc << "+" << ax << ":" << m[ax]; if(ax) c.count("appends_along_other_axes");
        }
        readback(thrown ? "after a refused append" : "after an append");
      }
      c.count("appends", did); c.count("refused_appends", refused);
      c.nontrivial = did + refused > 0;
    }
  };

  // ---- C28: invalid requests to the streamer are refused and leave the file and the stored array alone
  template <std::size_t D, std::size_t VD> void invalid_file_requests(Ctx& c) {
    Rng& r = c.rng; Fmt<D, VD> F(c); using A = NDVecArray<float, D, VD>;
    typename Fmt<D, VD>::S st;
    fs::path p = c.sub("b.bin");
    Idx<D> n = rand_shape<D>(r, 200), s = F.rand_ser(n);
    auto v = F.rand_vals(n);
    { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc); A a = F.make(n, v, false); st.serialize(f, a, F.VS(s), F.mode()); }
    c.desc << str<D>(n) << "/" << str<D>(s);
    for(int k = (int)r.range(1, 5); k > 0; k--) {
      std::string before = F.slurp(p), what; bool thrown = false;
      int kind = (int)r.range(0, 4);
      auto attempt = [&](auto&& fn) { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary); try { fn(f); } catch(const std::exception& e) { thrown = true; what = e.what(); } };
      if(kind == 0) {           // wrong shape
        if(D == 1) continue;
        Idx<D> m = n; std::size_t d = r.range(1, D - 1); m[d] += r.chance(0.5) && m[d] > 1 ? -1 : 1;
        A a(V<D>(m), 1.5f); attempt([&](std::fstream& f) { st.append_slice(f, a, 0, F.mode()); });
      }
      else if(kind == 1) {      // unknown storage mode for an append
        Idx<D> m = n; m[0] = std::max<long>(1, s[0]);
        A a(V<D>(m), 1.5f); attempt([&](std::fstream& f) { st.append_slice(f, a, 0, stor::StreamerMode::automatic); });
      }
      else if(kind == 2) {      // unknown storage mode, new file
        fs::path q = c.sub("c.bin"); A a(V<D>(n), 1.5f); std::fstream f(q, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
        try { st.serialize(f, a, F.VS(s), stor::StreamerMode::automatic); } catch(const std::exception& e) { thrown = true; what = e.what(); }
        f.flush(); VH_CHECK(fs::file_size(q) == 0, "partial_write", "refused request for an unknown storage mode has written ", fs::file_size(q), " bytes");
      }
      else if(kind == 3) {      // malformed serialisation chunks: nothing specified, or without extent
        Idx<D> bad = s; if(r.chance(0.5)) for(auto& x : bad) x = -1; else bad[r.range(0, D - 1)] = 0;
        fs::path q = c.sub("c.bin"); A a(V<D>(n), 1.5f); std::fstream f(q, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
        c.desc << " " << str<D>(bad);
        try { st.serialize(f, a, F.VS(bad), F.mode()); } catch(const std::exception& e) { thrown = true; what = e.what(); }
      }
      else {                    // already final
        { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary); st.mark_as_final(f); }
        before = F.slurp(p);
        Idx<D> m = n; if(s[0] > 0) m[0] = s[0];
        A a(V<D>(m), 1.5f); attempt([&](std::fstream& f) { st.append_slice(f, a, 0, F.mode()); });
      }
      static const char* names[] = {"appending a slice of incompatible shape", "appending with an unknown storage mode", "storing with an unknown storage mode", "a malformed serialisation chunk", "appending to finalised data"};
      c.count(std::string("refused: ") + names[kind]); c.desc << " " << kind;
      VH_CHECK(thrown, "accepted", names[kind], " is not refused");
      VH_CHECK(F.slurp(p) == before, "damage", names[kind], " was refused (", what, ") but changed the stored file");
      std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary); A t(V<D>(zero<D>())); st.deserialize(f, t); F.check(t, n, v, "after a refused request");
    }
    c.nontrivial = true;
  }
#ifdef SUITE_C28
  Reg rc28("C28", [](Ctx& c) {
    switch(c.rng.range(0, 4)) {
    case 0: invalid_file_requests<1, 2>(c); break; case 1: invalid_file_requests<2, 1>(c); break; case 2: invalid_file_requests<3, 1>(c); break;
    default: invalid_file_requests<3, 2>(c);
    }
  });
#endif

  template <class T> void trait(const T& v, const char* key) {
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    std::uint32_t guard = 0xC0FFEE11u;
    stor::Traits<T>::serialize(s, v); stor::Traits<std::uint32_t>::serialize(s, guard);
    T w = stor::Traits<T>::deserialize(s);
    std::uint32_t g = stor::Traits<std::uint32_t>::deserialize(s);
    VH_CHECK(w == v, key, "value changed in the round trip");
    VH_CHECK(g == guard, key, "the reader consumed a different number of bytes than were written");
  }
  void traits(Ctx& c) {
    Rng& r = c.rng;
    std::size_t n = r.pick(std::vector<std::size_t>{0, 1, 2, 17, 9999, 10000, 10001, 20000, 20001});
    if(r.chance(0.7)) n = r.range(0, 40);
    std::vector<float> vf(n); for(auto& x : vf) x = finite(r);
    trait(vf, "traits-vector-float");
    std::vector<std::uint64_t> vu; for(int i = 0; i < 5; i++) vu.push_back(r.next() >> r.range(0, 63));
    trait(vu, "traits-vector-u64");
    for(auto x : vu) { trait<std::uint64_t>(x, "traits-u64"); trait<std::uint32_t>((std::uint32_t)x, "traits-u32"); }
    std::string s; std::size_t len = r.range(0, 60); for(std::size_t i = 0; i < len; i++) s += (char)r.next();
    trait(s, "traits-string");
    std::vector<std::string> vs{s, "", s + s}; trait(vs, "traits-vector-string");
    std::map<std::string, float> m; for(int i = 0; i < (int)r.range(0, 6); i++) m[s + std::to_string(i)] = finite(r);
    trait(m, "traits-map");
    std::array<double, 4> d; for(auto& x : d) x = (double)finite(r) * r.real(); trait(d, "traits-array-double");
    Vector<std::size_t, 3> iv((std::size_t)r.next(), (std::size_t)r.range(0, 9), stor::INFTY);
    { std::stringstream q(std::ios::in | std::ios::out | std::ios::binary); stor::Traits<Vector<std::size_t, 3>>::serialize(q, iv); auto w = stor::Traits<Vector<std::size_t, 3>>::deserialize(q); for(int k = 0; k < 3; k++) VH_CHECK(w[k] == iv[k], "traits-Vector", "component ", k); }
    c.desc << "traits n=" << n; c.count("trait_round_trips", 12); c.nontrivial = true;
  }

  template <std::size_t D, std::size_t VD> void fmt(Ctx& c) { Fmt<D, VD> f(c); c.desc << "D" << D << "V" << VD << " "; if(c.idx % 2000 == 9) f.long_streaks(false); else if(c.rng.chance(0.5)) f.roundtrip(); else f.append(); }
  vh::Reg r06("C06", [](Ctx& c) {
    if(c.idx == 7) { Fmt<3, 1> f(c); f.long_streaks(true); return; }
    switch(c.rng.range(0, 9)) {
    case 0: traits(c); break;
    case 1: fmt<1, 1>(c); break;
    case 2: fmt<1, 3>(c); break;
    case 3: fmt<2, 1>(c); break;
    case 4: fmt<2, 2>(c); break;
    case 5: fmt<3, 1>(c); break;
    case 6: fmt<4, 2>(c); break;
    default: fmt<3, 2>(c); break;
    }
  });
#endif  // C06

  // ------------------------------------------------------------------------------------------------------------
  // C19
#ifdef SUITE_C19

  template <std::size_t D, std::size_t VD> void down(Ctx& c) {
    using A = NDVecArray<float, D, VD>;
    Rng& r = c.rng;
    Idx<D> n = rand_shape<D>(r, 2500), f, g0;
    for(std::size_t d = 0; d < D; d++) { f[d] = r.chance(0.25) ? 1 : r.irange(1, r.chance(0.2) ? 2 * n[d] + 1 : 5); g0[d] = r.chance(0.3) ? 0 : r.chance(0.08) ? (r.chance(0.5) ? r.irange(2000000000L, 1L << 42) : (r.irange(1, 8) << 32) - r.irange(0, 40)) : r.irange(0, 23); }
    A full(V<D>(n));
    std::vector<std::array<float, VD>> v(volD<D>(n));
    eachD<D>(zero<D>(), n, [&](const Idx<D>& i) { auto& e = v[flat<D>(i, n)]; auto x = full[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) x[k] = e[k] = (float)r.real(-10, 10); });
    // cuts per axis
    std::array<std::vector<long>, D> cuts;
    for(std::size_t d = 0; d < D; d++) { cuts[d].push_back(0); double p = r.pick(std::vector<double>{0.0, 0.1, 0.4, 1.0}); for(long i = 1; i < n[d]; i++) if(r.chance(p)) cuts[d].push_back(i); cuts[d].push_back(n[d]); }
    Idx<D> nb; for(std::size_t d = 0; d < D; d++) nb[d] = (long)cuts[d].size() - 1;
    std::map<Idx<D>, std::array<float, VD>> out;
    A target(V<D>(rand_shape<D>(r, 50)), 3.0f);
    long empty = 0;
    c.desc << "downsample " << str<D>(n) << " at " << str<D>(g0) << " by " << str<D>(f) << " blocks " << str<D>(nb);
    eachD<D>(zero<D>(), nb, [&](const Idx<D>& bi) {
      Idx<D> b, e; for(std::size_t d = 0; d < D; d++) { b[d] = cuts[d][bi[d]]; e[d] = cuts[d][bi[d] + 1]; }
      A view = full.View(V<D>(b), V<D>(e));
      A own(view);
      Idx<D> start = add<D>(g0, b);
      Vector<std::size_t, D> dstart;
      Downsampling::downsample(r.chance(0.5) ? view : own, V<D>(start), V<D>(f), target, dstart);
      // kept indices of this block along each axis
      Idx<D> first, cnt;
      for(std::size_t d = 0; d < D; d++) { first[d] = -1; cnt[d] = 0; for(long g = start[d]; g < start[d] + e[d] - b[d]; g++) if(g % f[d] == 0) { if(first[d] < 0) first[d] = g / f[d]; cnt[d]++; } }
      VH_CHECK(volD<D>(I<D>(target.GetShape())) == volD<D>(cnt), "down-count", "block at ", str<D>(start), " shape ", str<D>(sub<D>(e, b)), " factor ", str<D>(f), " gives shape ", str<D>(I<D>(target.GetShape())), " expected ", str<D>(cnt));
      auto gs = Downsampling::get_downsampled_shape(V<D>(start), V<D>(sub<D>(e, b)), V<D>(f));
      VH_CHECK(I<D>(gs) == I<D>(target.GetShape()), "down-shape", "get_downsampled_shape gives ", str<D>(I<D>(gs)), " but downsample ", str<D>(I<D>(target.GetShape())));
      if(volD<D>(cnt) == 0) { empty++; return; }
      VH_CHECK(I<D>(target.GetShape()) == cnt && I<D>(dstart) == first, "down-range", "block at ", str<D>(start), ": start ", str<D>(I<D>(dstart)), " shape ", str<D>(I<D>(target.GetShape())), " expected ", str<D>(first), str<D>(cnt));
      eachD<D>(zero<D>(), cnt, [&](const Idx<D>& i) {
        std::array<float, VD> x; auto t = target[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) x[k] = t[k];
        VH_CHECK(out.insert({add<D>(first, i), x}).second, "down-duplicate", "index ", str<D>(add<D>(first, i)), " produced twice");
      });
    });
    long want = 0;
    eachD<D>(zero<D>(), n, [&](const Idx<D>& i) {
      Idx<D> q; for(std::size_t d = 0; d < D; d++) { long g = g0[d] + i[d]; if(g % f[d]) return; q[d] = g / f[d]; }
      want++;
      auto it = out.find(q);
      VH_CHECK(it != out.end(), "down-missing", "kept element ", str<D>(i), " not in the output");
      VH_CHECK(it->second == v[flat<D>(i, n)], "down-value", "element ", str<D>(i));
    });
    VH_CHECK(want == (long)out.size(), "down-extra", "output has ", out.size(), " elements, expected ", want);
    c.count("blocks", volD<D>(nb)); c.count("empty_blocks", empty); c.count("elements", want);
    c.nontrivial = volD<D>(nb) > 1;
  }
  vh::Reg r19("C19", [](Ctx& c) {
    switch(c.rng.range(0, 3)) { case 0: down<1, 2>(c); break; case 1: down<2, 1>(c); break; case 2: down<4, 1>(c); break; default: down<3, 2>(c); break; }
  });
#endif  // C19

  // ------------------------------------------------------------------------------------------------------------
  // C23
#ifdef SUITE_C23

  void signal_export(Ctx& c) {
    Rng& r = c.rng;
    std::size_t n = r.chance(0.05) ? 0 : r.chance(0.1) ? r.range(1000, 5000) : r.range(1, 60);
    bool def = r.chance(0.4);
    int tp = def ? 3 : (int)r.range(0, 9), vp = def ? 15 : (int)r.range(0, 17);
    std::vector<scalar_t> t(n), v(n);
    float t0 = (float)r.real(-1000, 1000), dt = (float)r.real(0.001, 3);
    for(std::size_t i = 0; i < n; i++) {
      t[i] = r.chance(0.9) ? t0 + i * dt : (float)r.real(-1e6, 1e6);
      switch(r.range(0, 5)) { case 0: v[i] = 0; break; case 1: v[i] = finite(r); break; case 2: v[i] = (float)r.real(-1e-12, 1e-12); break; case 3: v[i] = r.chance(0.5) ? 9.9999999f : -0.99999994f; break; default: v[i] = (float)r.real(-1, 1); }
    }
    fs::path p = c.sub("signal.csv");
    if(r.chance(0.4)) { std::ofstream o(p); for(int i = 0; i < 6000; i++) o << "stale, line\n"; }
    if(def) ExportSignal(t, v, p.string()); else ExportSignal(t, v, p.string(), tp, vp);
    std::ifstream f(p);
    VH_CHECK(f.good(), "export-missing", "no file written");
    std::string line; std::size_t i = 0;
    while(std::getline(f, line)) {
      VH_CHECK(i < n, "export-lines", "more lines than the ", n, " samples");
      const char* s = line.c_str(); char* e;
      double pt = std::strtod(s, &e);
      VH_CHECK(e != s && *e == ',', "export-format", "line ", i, ": ", line);
      s = e + 1; double pv = std::strtod(s, &e);
      while(*e == ' ' || *e == '\r') e++;
      VH_CHECK(e != s && *e == 0, "export-format", "line ", i, ": ", line);
      VH_CHECK(std::fabs(pt - (double)t[i]) <= 0.5000001 * std::pow(10.0, -tp) + 1e-12 * std::fabs((double)t[i]), "export-time", "line ", i, ": ", line, " for time ", t[i]);
      double av = std::fabs((double)v[i]); double tol = av == 0 ? 0 : 0.5000001 * std::pow(10.0, std::floor(std::log10(av)) - vp) + 2e-16 * av;
      VH_CHECK(std::fabs(pv - (double)v[i]) <= tol, "export-value", "line ", i, ": ", line, " for value ", v[i]);
      i++;
    }
    VH_CHECK(i == n, "export-lines", "file has ", i, " lines for ", n, " samples");
    c.desc << "signal n=" << n << " prec " << tp << "," << vp; c.count("lines", n); c.nontrivial = n > 0;
  }

  template <std::size_t D, std::size_t VD> void numpy_export(Ctx& c) {
    using A = NDVecArray<float, D, VD>;
    Rng& r = c.rng;
    Idx<D> n; n.fill(1);
    if(D > 4) { for(int k = 0; k < 4; k++) n[r.range(0, D - 1)] = r.irange(1, 6); }     // many axes: long headers
    else n = rand_shape<D>(r, r.chance(0.1) ? 30000 : 400);
    if(D <= 4 && r.chance(0.1)) n[0] = r.irange(1000, 12000) / volD<D>([&] { auto m = n; m[0] = 1; return m; }()) + 1;
    A a(V<D>(D > 4 ? n : rand_shape<D>(r, 500)), 9.0f);
    a.resize(V<D>(n));
    std::vector<float> v;
    eachD<D>(zero<D>(), n, [&](const Idx<D>& i) { auto x = a[V<D>(i)]; for(std::size_t k = 0; k < VD; k++) { x[k] = finite(r); v.push_back(x[k]); } });
    fs::path p = c.sub("a.npy");
    { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc); stor::Traits<A>::serialize_to_numpy(f, a); }
    std::ifstream f(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    VH_CHECK(s.size() > 10 && s.substr(0, 6) == "\x93NUMPY" && s[6] == 1 && s[7] == 0, "npy-magic", "bad magic");
    std::size_t hl = (unsigned char)s[8] + 256 * (unsigned char)s[9];
    VH_CHECK((10 + hl) % 64 == 0 && 10 + hl <= s.size(), "npy-align", "header length ", hl);
    std::string h = s.substr(10, hl);
    VH_CHECK(h.back() == '\n', "npy-newline", "header does not end with a newline");
    auto val = [&](const std::string& k) { std::size_t q = h.find("'" + k + "'"); VH_CHECK(q != std::string::npos, "npy-key", "no ", k, " in ", h); q = h.find(':', q); q = h.find_first_not_of(' ', q + 1); return h.substr(q); };
    VH_CHECK(val("descr").substr(0, 5) == "'>f4'", "npy-descr", h);
    VH_CHECK(val("fortran_order").substr(0, 5) == "False", "npy-order", h);
    std::string sh = val("shape"); VH_CHECK(sh[0] == '(', "npy-shape", h);
    std::vector<long> dims; const char* q = sh.c_str() + 1;
    while(*q && *q != ')') { char* e; long x = std::strtol(q, &e, 10); if(e == q) { q++; continue; } dims.push_back(x); q = e; }
    std::vector<long> want(n.begin(), n.end()); want.push_back(VD);
    VH_CHECK(dims == want, "npy-shape", "header shape ", sh.substr(0, 40), " for ", str<D>(n));
    VH_CHECK(s.size() == 10 + hl + 4 * v.size(), "npy-size", "file has ", s.size(), " bytes, expected ", 10 + hl + 4 * v.size());
    for(std::size_t i = 0; i < v.size(); i++) { std::uint32_t u; std::memcpy(&u, s.data() + 10 + hl + 4 * i, 4); u = ntohl(u); if(std::memcmp(&u, &v[i], 4)) vh::fail("npy-value", cat("flat element ", i)); }
    c.desc << "npy " << str<D>(n) << " x " << VD; c.count("npy_values", v.size()); c.nontrivial = true;
  }
  vh::Reg r23("C23", [](Ctx& c) {
    if(c.rng.chance(0.03)) { if(c.rng.chance(0.5)) numpy_export<14, 2>(c); else numpy_export<72, 1>(c); return; }
    switch(c.rng.range(0, 6)) {
    case 0: numpy_export<1, 1>(c); break;
    case 1: numpy_export<2, 3>(c); break;
    case 2: numpy_export<3, 2>(c); break;
    case 3: numpy_export<4, 1>(c); break;
    default: signal_export(c);
    }
  });
#endif  // C23

}
VH_MAIN
