// Shared helpers on top of the Eisvogel headers: value profiles, dense reference arrays, conversions.
#pragma once

#include "vh.hh"

#include <arpa/inet.h>
#include <cassert>
#include <cstring>
#include <numeric>
#include <memory>
#include <span>
#include <thread>

#include "Common.hh"
#include "Vector.hh"
#include "IteratorUtils.hh"
#include "NDVecArray.hh"
#include "NDVecArrayStreamer.hh"
#include "DistributedNDVecArray.hh"

namespace ev {

  using namespace vh;

  using arr_t = NDVecArray<float, 3, 2>;
  using darr_t = DistributedNDVecArray<NDVecArray, float, 3, 2>;
  using lib_t = ChunkLibrary<NDVecArray, float, 3, 2>;
  using ind_t = Vector<std::size_t, 3>;
  using sind_t = Vector<int, 3>;

  struct I3 {
    long v[3];
    long& operator[](int i) { return v[i]; }
    long operator[](int i) const { return v[i]; }
    bool operator==(const I3& o) const { return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
    bool operator<(const I3& o) const { return std::lexicographical_compare(v, v + 3, o.v, o.v + 3); }
  };
  inline I3 operator+(I3 a, I3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
  inline I3 operator-(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
  inline std::ostream& operator<<(std::ostream& s, const I3& i) { return s << "(" << i[0] << "," << i[1] << "," << i[2] << ")"; }
  inline long vol(I3 a) { return a[0] * a[1] * a[2]; }
  inline ind_t U(I3 a) { return ind_t((std::size_t)a[0], (std::size_t)a[1], (std::size_t)a[2]); }
  inline I3 L(const ind_t& a) { return {(long)a[0], (long)a[1], (long)a[2]}; }
  inline I3 L(const sind_t& a) { return {(long)a[0], (long)a[1], (long)a[2]}; }

  template <class F> void each(I3 b, I3 e, F&& f) {
    for(long i = b[0]; i < e[0]; i++) for(long j = b[1]; j < e[1]; j++) for(long k = b[2]; k < e[2]; k++) f(I3{i, j, k});
  }

  struct F2 { float a, b; bool operator==(const F2& o) const { return a == o.a && b == o.b; } };
  inline std::ostream& operator<<(std::ostream& s, const F2& x) { return s << "[" << x.a << "," << x.b << "]"; }

  // dense reference array with coverage mask
  struct Dense {
    I3 n{0, 0, 0};
    std::vector<F2> v; std::vector<char> c;
    Dense() { }
    explicit Dense(I3 n_) : n(n_), v(vol(n_), F2{0, 0}), c(vol(n_), 0) { }
    std::size_t f(I3 i) const { return (std::size_t)((i[0] * n[1] + i[1]) * n[2] + i[2]); }
    bool in(I3 i) const { for(int d = 0; d < 3; d++) if(i[d] < 0 || i[d] >= n[d]) return false; return true; }
    F2& at(I3 i) { return v[f(i)]; }
    const F2& at(I3 i) const { return v[f(i)]; }
    bool cov(I3 i) const { return in(i) && c[f(i)]; }
    void set(I3 i, F2 x) { v[f(i)] = x; c[f(i)] = 1; }
    Dense swapped(int a, int b) const {
      I3 m = n; std::swap(m[a], m[b]);
      Dense o(m);
      each({0, 0, 0}, n, [&](I3 i) { if(!c[f(i)]) return; I3 j = i; std::swap(j[a], j[b]); o.set(j, at(i)); });
      return o;
    }
    // bounding box and volume of the covered part
    bool bbox(I3& b, I3& e, long& count) const {
      b = n; e = {0, 0, 0}; count = 0;
      each({0, 0, 0}, n, [&](I3 i) { if(!c[f(i)]) return; count++; for(int d = 0; d < 3; d++) { b[d] = std::min(b[d], i[d]); e[d] = std::max(e[d], i[d] + 1); } });
      return count > 0;
    }
  };

  // value profiles: what fraction of elements is null, and how nulls cluster
  struct Values {
    int profile; Rng* r; long run = 0; bool run_null = false;
    explicit Values(Rng& rng, int p = -1) : profile(p < 0 ? (int)rng.range(0, 5) : p), r(&rng) { }
    float nz() {
      switch(r->range(0, 7)) {
      case 0: return (float)r->irange(-5, 5);
      case 1: return (float)((r->chance(0.5) ? 1 : -1) * std::ldexp(1.0 + r->real(), (int)r->irange(-120, 120)));
      case 2: return (float)std::ldexp(1.0, (int)r->irange(-20, 20));
      default: return (float)r->real(-10, 10);
      }
    }
    float nzz() { float x = nz(); return x == 0 ? 1.0f : x; }
    F2 next() {
      switch(profile) {
      case 0: return {nzz(), nzz()};                                   // dense
      case 1: if(r->chance(0.8)) return {0, 0}; break;                 // sparse, isolated
      case 2: return {0, 0};                                           // all null
      case 3:                                                          // runs
        if(run == 0) { run = r->irange(1, 40); run_null = !run_null; }
        run--; if(run_null) return {0, 0}; break;
      case 4: if(r->chance(0.98)) return {0, 0}; break;                // nearly empty
      default: if(r->chance(0.1)) return {0, 0}; break;
      }
      // one of the two components may vanish: this is not a null element
      switch(r->range(0, 5)) { case 0: return {nzz(), 0}; case 1: return {0, nzz()}; default: return {nzz(), nzz()}; }
    }
  };

  inline F2 get(const arr_t& a, I3 i) { auto v = a[U(i)]; return {v[0], v[1]}; }
  inline void put(arr_t& a, I3 i, F2 x) { auto v = a[U(i)]; v[0] = x.a; v[1] = x.b; }

  inline arr_t make_arr(I3 shape, const std::function<F2(I3)>& gen) {
    arr_t a(U(shape));
    each({0, 0, 0}, shape, [&](I3 i) { put(a, i, gen(i)); });
    return a;
  }

  inline ind_t streamer_shape() { return ind_t((std::size_t)1, (std::size_t)stor::INFTY, (std::size_t)stor::INFTY); }

  // Access to complete stored chunks, including the overlap region (which element access never exposes).
  struct Probe : lib_t {
    Probe(const fs::path& p, std::size_t depth = 1) : lib_t(p, depth, ind_t((std::size_t)1), streamer_shape()) { }
    bool has(I3 i) { return m_index.GetChunk(U(i)) != nullptr; }
    const ChunkMetadata<3>& meta(I3 i) { return *m_index.GetChunk(U(i)); }
    // copy of the stored data (with overlap); empty for all-null chunks
    arr_t data(I3 i) { return m_cache.RetrieveChunk(*m_index.GetChunk(U(i))); }
    std::vector<ChunkMetadata<3>> all() {
      std::vector<ChunkMetadata<3>> out;
      I3 b = L(m_index.get_start_ind()), e = L(m_index.get_end_ind());
      if(vol(e - b) == 0) return out;
      for(const ChunkMetadata<3>& m : m_index.GetChunks(U(b), U(e))) out.push_back(m);
      return out;
    }
  };
}
