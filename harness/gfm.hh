// Reference model of a sampled Green's function: separable kernel interpolation of the sampled data, mirrored at the axis and
// zero elsewhere outside, evaluated in double precision; plus helpers that build the same Green's function with the library.
#pragma once

#include "ev.hh"
#include "Symmetry.hh"
#include "Current.hh"
#include "Interpolation.hh"
#include "GreensFunction.hh"
#include "SignalCalculator.hh"

namespace ev {

  namespace K = Interpolation::Kernel;

  template <class KernelT> struct RefKernel;
  template <> struct RefKernel<K::Linear> {
    static constexpr int first = 0, n = 2;
    static void weights(double f, double* w) { w[0] = 1 - f; w[1] = f; }
  };
  template <> struct RefKernel<K::Keys> {      // cubic convolution, a = -1/2
    static constexpr int first = -1, n = 4;
    static double u(double s) { s = std::fabs(s); if(s < 1) return (1.5 * s - 2.5) * s * s + 1; if(s < 2) return ((-0.5 * s + 2.5) * s - 4) * s + 2; return 0; }
    static void weights(double f, double* w) { for(int k = 0; k < 4; k++) w[k] = u(f - (k - 1)); }
  };

  struct D2 { double a = 0, b = 0; };

  struct GFModel {
    I3 n{1, 1, 1};
    float st[3], dt[3];
    Dense d;
    double maxabs = 0;

    D2 ext(long i, long j, long k) const {
      if(i < 0) i = -i;
      if(i >= n[0] || j < 0 || j >= n[1] || k < 0 || k >= n[2]) return {};
      const F2& x = d.v[(std::size_t)((i * n[1] + j) * n[2] + k)];
      return {x.a, x.b};
    }
    double idx(int a, double x) const { return (x - (double)st[a]) / (double)dt[a]; }

    // column along t at position (r, z) given as floating-point indices
    template <class KernelT> std::vector<D2> column(double fr, double fz) const {
      using R = RefKernel<KernelT>;
      double wr[4], wz[4]; long ir = (long)std::floor(fr), iz = (long)std::floor(fz);
      R::weights(fr - ir, wr); R::weights(fz - iz, wz);
      std::vector<D2> c((std::size_t)n[2]);
      for(int p = 0; p < R::n; p++) for(int q = 0; q < R::n; q++) {
	double w = wr[p] * wz[q]; if(w == 0) continue;
	for(long k = 0; k < n[2]; k++) { D2 x = ext(ir + R::first + p, iz + R::first + q, k); c[(std::size_t)k].a += w * x.a; c[(std::size_t)k].b += w * x.b; }
      }
      return c;
    }
    template <class KernelT> D2 along(const std::vector<D2>& c, double ft) const {
      using R = RefKernel<KernelT>;
      double w[4]; long it = (long)std::floor(ft); R::weights(ft - it, w);
      D2 o;
      for(int p = 0; p < R::n; p++) { long k = it + R::first + p; if(k < 0 || k >= n[2]) continue; o.a += w[p] * c[(std::size_t)k].a; o.b += w[p] * c[(std::size_t)k].b; }
      return o;
    }
    template <class KernelT> D2 eval(double fr, double fz, double ft) const { return along<KernelT>(column<KernelT>(fr, fz), ft); }

    // bound on the index error the single-precision evaluation may make along one axis
    double eidx(int a, double x) const { return 4e-7 * (1 + (std::fabs(x) + std::fabs((double)st[a])) / std::fabs((double)dt[a])); }
  };

  struct GFShape { bool dyadic = true; bool causal = false; bool r0 = true; I3 nmin{3, 2, 2}, nmax{12, 12, 40}; };

  inline float dyadic_step(Rng& r) { static const float s[] = {0.25f, 0.5f, 1.0f, 1.0f, 2.0f, 4.0f}; return s[r.range(0, 5)]; }

  // random data; `cs` is the chunk shape, used to place null regions
  inline GFModel make_model(Rng& r, const GFShape& s, I3 cs) {
    GFModel m;
    for(int d = 0; d < 3; d++) m.n[d] = r.irange(s.nmin[d], s.nmax[d]);
    for(int d = 0; d < 3; d++) {
      m.dt[d] = s.dyadic ? dyadic_step(r) : (float)r.real(0.1, 3);
      m.st[d] = 0;
    }
    if(r.chance(0.7)) m.st[1] = s.dyadic ? (float)r.irange(-20, 5) * m.dt[1] : (float)r.real(-40, 20);
    if(!s.r0 && r.chance(0.3)) m.st[0] = s.dyadic ? (float)r.irange(1, 5) * m.dt[0] : (float)r.real(0.1, 5);
    m.d = Dense(m.n);
    int prof = (int)r.range(0, 4);
    double ph[6]; for(double& p : ph) p = r.real(0, 6.3);
    long bi = r.irange(0, 2), bk = r.irange(0, 2);
    const float unit = r.chance(0.75) ? 1.0f : std::ldexp(1.0f, (int)r.irange(-50, 30));      // the field may come in any unit
    each({0, 0, 0}, m.n, [&](I3 i) {
      F2 x{(float)r.real(-1, 1), (float)r.real(-1, 1)};
      if(prof == 1) x = {(float)std::sin(0.5 * i[0] + 0.3 * i[1] + 0.4 * i[2] + ph[0]), (float)std::cos(0.4 * i[0] - 0.2 * i[1] + 0.6 * i[2] + ph[1])};
      if(prof == 2 && ((i[0] / cs[0] + i[1] / cs[1] + i[2] / cs[2]) % 3 == bi || (i[2] / cs[2]) % 3 == bk)) x = {0, 0};     // null regions that coincide with chunks
      if(prof == 3 && !r.chance(0.05)) x = {0, 0};
      if(s.causal && i[2] == 0) x = {0, 0};
      x.a *= unit; x.b *= unit;
      m.d.set(i, x);
      m.maxabs = std::max({m.maxabs, (double)std::fabs(x.a), (double)std::fabs(x.b)});
    });
    return m;
  }

  inline RZTCoordVector V3(const float* x) { return RZTCoordVector{x[0], x[1], x[2]}; }

  // stores the model with the library under `path`, in chunks of shape `cs`
  inline void build_gf(Ctx& c, const GFModel& m, const fs::path& path, I3 cs, long ov, bool opt, int endconv = 0) {
    Rng& r = c.rng;
    darr_t a(path, r.range(0, 4), U(I3{2, 2, 2}), streamer_shape());
    I3 ics{r.irange(1, 9), r.irange(1, 9), r.irange(4, 20)};
    auto store = [&](const ind_t& b, const ind_t& e) {
      I3 B = L(b), E = L(e); arr_t x(U(E - B));
      each(B, E, [&](I3 i) { put(x, i - B, m.d.at(i)); });
      a.RegisterChunk(x, b);
    };
    IteratorUtils::index_loop_over_chunks(U(I3{0, 0, 0}), U(m.n), U(ics), store);
    a.RebuildChunks(U(cs), fs::path(path.string() + ".tmp"), (std::size_t)ov, SpatialSymmetry::Cylindrical<float>::boundary_evaluator, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    float en[3]; for(int d = 0; d < 3; d++) en[d] = m.st[d] + (float)(m.n[d] - endconv) * m.dt[d];
    CylindricalGreensFunction(V3(m.st), V3(en), V3(m.dt), std::move(a));
  }

  template <class KernelT, typename R> void inner(CylindricalGreensFunction& gf, float r, float z, float t, float samp, std::size_t n, float s0, float s1, typename std::vector<R>::iterator out,
						  float w = 1, Green::OutOfBoundsBehavior mode = Green::OutOfBoundsBehavior::RaiseError) {
    RZCoordVector pos{r, z}; RZFieldVector src{s0, s1};
    gf.accumulate_inner_product<KernelT, R>(pos, t, samp, n, src, out, w, mode);
  }

  struct Seg {
    float p0[3], p1[3]; float t0, t1, q;
    LineCurrentSegment seg() const { return LineCurrentSegment(XYZCoordVector{p0[0], p0[1], p0[2]}, XYZCoordVector{p1[0], p1[1], p1[2]}, t0, t1, q); }
  };
  inline std::ostream& operator<<(std::ostream& s, const Seg& g) {
    return s << "(" << g.p0[0] << "," << g.p0[1] << "," << g.p0[2] << ")@" << g.t0 << "->(" << g.p1[0] << "," << g.p1[1] << "," << g.p1[2] << ")@" << g.t1 << " q=" << g.q;
  }

  struct Expect { std::vector<double> v, tol; std::vector<char> dom; };   // dom: 1 if some contribution to the sample is outside of the domain, 2 if too close to tell

  // trapezoidal line integral along the segment, in double precision.  Contributions from outside of the domain are dropped.
  template <class KernelT>
  Expect reference_signal(const GFModel& m, const Seg& g, float t_sig, float t_samp, std::size_t ns, double weight = 1) {
    Expect o; o.v.assign(ns, 0); o.tol.assign(ns, 0); o.dom.assign(ns, 0);
    float Tf = g.t1 - g.t0;
    long N = (long)std::ceil(Tf);
    double T = (double)g.t1 - (double)g.t0, h = T / N;
    double vel[3]; for(int d = 0; d < 3; d++) vel[d] = ((double)g.p1[d] - (double)g.p0[d]) / T;
    for(long i = 0; i <= N; i++) {
      double p[3], tp = (double)g.t0 + i * h, perr = 0, zerr = 0;
      for(int d = 0; d < 3; d++) { p[d] = (double)g.p0[d] + i * h * vel[d]; double& e = d < 2 ? perr : zerr; e = std::max(e, 4e-7 * (std::fabs((double)g.p0[d]) + std::fabs(i * h * vel[d]))); }
      double r = std::hypot(p[0], p[1]);
      double sr = r > 0 ? (vel[0] * p[0] + vel[1] * p[1]) / r * (double)g.q : 0, sz = vel[2] * (double)g.q;
      double sxy = std::hypot(vel[0], vel[1]) * std::fabs((double)g.q);
      double dir_err = r > 0 ? std::min(2.0, 5 * perr / r) : (perr > 0 ? 2.0 : 0.0);
      double w = (i == 0 || i == N ? 0.5 : 1.0) * h * weight * -1;
      double fr = m.idx(0, r), fz = m.idx(1, p[2]);
      double er = m.eidx(0, r) + perr / m.dt[0], ez = m.eidx(1, p[2]) + zerr / m.dt[1];
      bool out_rz = fr < 0 || fz < 0 || fr >= m.n[0] || fz >= m.n[1];
      bool near_rz = std::fabs(fr) < er && (double)m.st[0] != 0;
      near_rz = near_rz || std::fabs(fz) < ez || std::fabs(fr - m.n[0]) < er + 1e-4 || std::fabs(fz - m.n[1]) < ez + 1e-4;
      std::vector<D2> col; if(!out_rz) col = m.column<KernelT>(fr, fz);
      double terr = 4e-7 * (std::fabs((double)g.t0) + std::fabs(tp) + std::fabs((double)t_sig));
      for(std::size_t k = 0; k < ns; k++) {
	double ts = (double)t_sig + k * (double)t_samp, tau = ts - tp;
	double te = terr + 4e-7 * (std::fabs(ts) + k * std::fabs((double)t_samp));
	if(tau < -te) continue;
	bool edge = std::fabs(tau) <= te;
	double ft = m.idx(2, tau), et = m.eidx(2, tau) + te / m.dt[2];
	bool out_t = ft < 0 || ft >= m.n[2];
	bool near_t = (std::fabs(ft) < et && (double)m.st[2] != 0) || std::fabs(ft - m.n[2]) < et + 1e-4;
	if(edge && out_t && ft < 0 && (double)m.st[2] == 0) { ft = 0; out_t = false; }
	if(out_rz || out_t) o.dom[k] |= 1;
	if(near_rz || near_t) o.dom[k] |= 2;
	double amp = std::fabs(w) * m.maxabs;
	o.tol[k] += amp * ((std::fabs(sr) + std::fabs(sz) + sxy * dir_err) * (1.5e-5 + 4 * (er + ez + et)) + 2 * sxy * dir_err);     // interpolated values may exceed the sampled ones
	if(near_rz || near_t || edge) o.tol[k] += 4 * amp * (sxy + std::fabs(sz));
	if(out_rz || out_t) continue;
	D2 G = m.along<KernelT>(col, ft);
	double term = w * (G.a * sr + G.b * sz);
	o.v[k] += term;
      }
    }
    return o;
  }

  // a random segment inside the domain of the model
  inline Seg random_segment(Rng& r, const GFModel& m, double T, double t_start, double margin = 0) {
    Seg g;
    double rmin = (double)m.st[0], rmax = (double)m.st[0] + (m.n[0] - 1 - margin) * (double)m.dt[0];
    (void)rmin;
    auto pt = [&](float* p) {
      double rho = r.chance(0.1) ? 0 : rmax * std::sqrt(r.real()) * 0.999, phi = r.real(0, 6.2831853);
      if(r.chance(0.15)) phi = 0.5 * M_PI * (double)r.irange(0, 3);
      p[0] = (float)(rho * std::cos(phi)); p[1] = (float)(rho * std::sin(phi));
      p[2] = (float)((double)m.st[1] + (m.n[1] - 1 - 2 * margin) * (double)m.dt[1] * r.real(0.001, 0.999) + margin * (double)m.dt[1]);
    };
    pt(g.p0); pt(g.p1);
    int kind = (int)r.range(0, 6);
    if(kind == 0) { g.p1[0] = g.p0[0]; g.p1[1] = g.p0[1]; }          // vertical
    if(kind == 1) g.p1[2] = g.p0[2];                                 // horizontal
    if(kind == 2) { g.p1[0] = -g.p0[0]; g.p1[1] = -g.p0[1]; }        // through the axis
    if(r.chance(0.08)) { float f = (float)std::pow(10.0, -r.real(1, 6)); for(int d = 0; d < 2; d++) { g.p0[d] *= f; g.p1[d] *= f; } if(r.chance(0.6)) g.p1[2] = g.p0[2]; }      // close to the axis
    g.t0 = (float)t_start; g.t1 = (float)(t_start + T);
    g.q = (float)(r.chance(0.5) ? 1.0 : r.real(-3, 3));
    return g;
  }

  using chunk_t = CylindricalGreensFunction::chunk_t;

  inline I3 random_cs(Rng& r, const I3& hi) { return {r.irange(1, hi[0]), r.irange(1, hi[1]), r.chance(0.3) ? r.irange(1, 4) : r.irange(2, hi[2])}; }

  template <class T> void cmp(Ctx& c, const std::vector<T>& got, const Expect& e, double scale_tol, const char* key, const std::string& what) {
    for(std::size_t k = 0; k < e.v.size(); k++) {
      if(e.dom[k] & 2) { c.count("borderline_samples"); continue; }
      double tol = e.tol[k] + 2e-6 * std::fabs(e.v[k]) + scale_tol;
      VH_CHECK(std::fabs((double)got[k] - e.v[k]) <= tol, key, what, ": sample ", k, " is ", (double)got[k], ", expected ", e.v[k], " +- ", tol);
      c.count("samples_compared");
    }
  }

  // time step of the sampled data such that a window of the given length fits
  inline void fit_time(GFModel& m, double need, bool dyadic) {
    double s = need / (double)(m.n[2] - 1) * 1.001;
    if(dyadic) { double d = 0.0625; while(d < s) d *= 2; m.dt[2] = (float)d; }
    else m.dt[2] = (float)s;
  }

  struct SigSetup { GFModel m; Seg g; float t_sig, t_samp; std::size_t ns; I3 cs; bool dyadic; };

  // a segment, an output window and a Green's function that covers them
  inline SigSetup sig_setup(Ctx& c, bool causal, bool allow_long, double margin = 0) {
    Rng& r = c.rng; SigSetup s;
    s.dyadic = r.chance(0.5);
    GFShape sh; sh.dyadic = s.dyadic; sh.causal = causal; sh.nmin = {3, 3, 8}; sh.nmax = {9, 9, 40};
    s.cs = random_cs(r, {8, 8, 20});
    s.m = make_model(r, sh, s.cs);
    double T;
    static const long special[] = {1, 2, 3, 50, 98, 99, 100, 101, 199, 200, 201, 299, 300};
    switch(r.range(0, allow_long ? 5 : 2)) {
    case 0: T = s.dyadic ? 0.125 * (double)r.irange(1, 8) : r.real(0.02, 0.98); break;
    case 1: T = s.dyadic ? (double)r.irange(1, 12) : r.real(1, 12); break;
    case 2: T = s.dyadic ? 0.5 * (double)r.irange(1, 60) : r.real(1, 30); break;
    case 3: T = (double)special[r.range(0, 12)]; break;
    case 4: T = (double)special[r.range(0, 12)] - (s.dyadic ? 0.25 : r.real(0.01, 0.9)); break;
    default: T = r.real(90, 210);
    }
    bool very_long = allow_long && r.chance(0.04);
    if(very_long) T = s.dyadic ? 0.5 * (double)r.irange(2000, 5000) : r.real(1000, 2500);
    if(!s.dyadic) { double f = T - std::floor(T); if(f < 0.01) T += 0.02; if(f > 0.99) T -= 0.02; }
    double ts = s.dyadic ? 0.25 * (double)r.irange(-400, 400) : r.real(-100, 100);
    s.g = random_segment(r, s.m, T, ts, margin);
    static const std::size_t nss[] = {1, 2, 99, 100, 101, 199, 200, 201};
    s.ns = r.chance(allow_long ? 0.3 : 0.05) ? nss[r.range(0, 7)] : r.range(1, 40);
    if(very_long) s.ns = r.range(1, 12);
    // the window may start before, during or after the segment
    double wlen;
    switch(r.range(0, 3)) { case 0: wlen = T * r.real(0.2, 1); break; case 1: wlen = T + r.real(0, 20); break; case 2: wlen = r.real(0.5, 5); break; default: wlen = T + r.real(0, 100); }
    double sp = wlen / (double)s.ns;
    if(s.dyadic) { double d = 1.0 / 64; while(d < sp) d *= 2; sp = d; }
    s.t_samp = (float)sp;
    double off;
    switch(r.range(0, 4)) { case 0: off = 0; break; case 1: off = -r.real(0, 1.5 * wlen); break; case 2: off = r.real(0, T); break; case 3: off = T + r.real(0, 5); break; default: off = -sp * (double)r.irange(0, 3); }
    if(s.dyadic) off = 0.25 * std::floor(off * 4);
    s.t_sig = (float)(ts + off);
    double last = (double)s.t_sig + (double)(s.ns - 1) * (double)s.t_samp - (double)s.g.t0;
    fit_time(s.m, std::max(last + 1e-3, 1.0), s.dyadic);
    c.desc << "n " << s.m.n << " cs " << s.cs << " T " << T << " ns " << s.ns << " samp " << s.t_samp << " off " << off << (s.dyadic ? " dyadic" : "");
    return s;
  }

  template <class KernelT, typename R> std::vector<R> signal(CylindricalGreensFunction& gf, const SigSetup& s, const Seg& g, float t_sig, std::size_t ns, float weight = 1, std::vector<R> init = {}) {
    std::vector<R> v = init; v.resize(ns, 0);
    gf.apply_accumulate<KernelT, R>(g.seg(), t_sig, s.t_samp, ns, v, Green::OutOfBoundsBehavior::RaiseError, weight);
    return v;
  }
}
