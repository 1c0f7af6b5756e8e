// Green's functions: interpolation, evaluation, signals and exports against the reference model in gfm.hh, and relations
// that have to hold between several evaluations.
#define VH_FILL_NEW
#include "gfm.hh"

using namespace ev;

namespace {

  // ---------------------------------------------------------------- C11

  template <class KernelT> void c11_kernel(Ctx& c) {
    Rng& r = c.rng;
    using R = RefKernel<KernelT>;
    constexpr int sup = (int)KernelT::support;
    for(int q = 0; q < 40; q++) {
      float f = q == 0 ? 0.0f : q == 1 ? std::nextafter(1.0f, 0.0f) : q == 2 ? 0.5f : (float)r.real(0, 0.9999999);
      float w[2 * KernelT::support]; double x[4], sum = 0, mom = 0, mom2 = 0;
      KernelT::kern(f, w); R::weights(f, x);
      for(int i = 0; i < 2 * sup; i++) {
	VH_CHECK(std::fabs(w[i] - x[i]) < 4e-6, "kernel", "weight ", i, " at ", f, " is ", w[i], ", expected ", x[i]);
	sum += w[i]; double s = i + R::first; mom += w[i] * s; mom2 += w[i] * s * s;
      }
      VH_CHECK(std::fabs(sum - 1) < 4e-6, "kernel_sum", "weights at ", f, " sum to ", sum);
      VH_CHECK(std::fabs(mom - f) < 8e-6, "kernel_linear", "first moment at ", f, " is ", mom);
      if(sup == 2) VH_CHECK(std::fabs(mom2 - (double)f * f) < 2e-5, "kernel_quadratic", "second moment at ", f, " is ", mom2);
      c.count("kernel_evaluations");
    }
  }

  template <class KernelT> void c11_case(Ctx& c) {
    Rng& r = c.rng;
    constexpr long sup = (long)KernelT::support;
    c11_kernel<KernelT>(c);
    I3 n{r.irange(2 * sup, 10), r.irange(2 * sup, 10), r.irange(2 * sup, 30)};
    int data = (int)r.range(0, 2);
    double co[2][3][3]; for(auto& a : co) for(auto& b : a) for(double& x : b) x = r.real(-1, 1);
    auto poly = [&](int cv, double a, double b, double t) {     // product of polynomials of the order the kernel reproduces
      double v[3] = {a / n[0], b / n[1], t / n[2]}, p = 1;
      for(int d = 0; d < 3; d++) p *= co[cv][d][0] + co[cv][d][1] * v[d] + (sup == 2 ? co[cv][d][2] * v[d] * v[d] : 0);
      return p;
    };
    GFModel m; m.n = n; m.d = Dense(n); for(int d = 0; d < 3; d++) { m.st[d] = 0; m.dt[d] = 1; }
    arr_t a(U(n));
    each({0, 0, 0}, n, [&](I3 i) {
      F2 x = data == 0 ? F2{(float)poly(0, i[0], i[1], i[2]), (float)poly(1, i[0], i[1], i[2])} : F2{(float)r.real(-1, 1), (float)r.real(-1, 1)};
      if(data == 2 && r.chance(0.6)) x = {0, 0};
      m.d.set(i, x); put(a, i, x); m.maxabs = std::max({m.maxabs, (double)std::fabs(x.a), (double)std::fabs(x.b)});
    });
    NDVecArray<float, 1, 2> out(Vector<std::size_t, 1>{r.range(0, 9)}), one(Vector<std::size_t, 1>{(std::size_t)1});
    for(int q = 0; q < 6; q++) {
      // positions for which the kernel support lies inside of the array
      auto pos = [&](int d) -> float {
	long lo = sup - 1, hi = n[d] - sup;
	float x = r.chance(0.4) ? (float)r.irange(lo, hi) : (float)r.real((double)lo, (double)hi);
	return x;
      };
      float p0 = pos(0), p1 = pos(1), t = pos(2);
      long hi = n[2] - sup;
      float dl = r.chance(0.3) ? 0.25f * (float)r.irange(1, 12) : (float)r.real(0.01, 3);
      std::size_t ns = 1 + (std::size_t)std::floor(((double)hi - t) / dl * 0.99999);
      ns = std::min<std::size_t>(ns, 80);
      if(ns > 1 && r.chance(0.3)) ns = r.range(1, ns);
      out.clear(); out.resize(Vector<std::size_t, 1>{ns}); out.clear();
      Interpolation::interpolate<KernelT>(a, out, Vector<float, 2>(p0, p1), t, dl, ns);
      VH_CHECK(out.GetShape()[0] == ns, "shape", "interpolation of ", ns, " samples returns ", out.GetShape()[0]);
      double e = 3e-6 * (1 + std::max({(double)n[0], (double)n[1], (double)n[2]})) * std::max(m.maxabs, 1e-3) + 3e-6 * m.maxabs;
      for(std::size_t k = 0; k < ns; k++) {
	double ft = (double)t + k * (double)dl;
	D2 x = m.eval<KernelT>(p0, p1, ft);
	auto o = out[k];
	VH_CHECK(std::fabs(o[0] - x.a) <= e && std::fabs(o[1] - x.b) <= e, "interpolation", "value at (", p0, ",", p1, ",", ft, ") is ", o[0], " ", o[1], ", expected ", x.a, " ", x.b);
	if(data == 0) VH_CHECK(std::fabs(o[0] - poly(0, p0, p1, ft)) <= 2 * e && std::fabs(o[1] - poly(1, p0, p1, ft)) <= 2 * e, "polynomial", "polynomial is not reproduced at (", p0, ",", p1, ",", ft, ")");
	c.count("samples_compared");
	one.clear();
	float ff = t + (float)k * dl;
	if(ff <= (float)hi) {
	  Interpolation::interpolate<KernelT>(a, one, Vector<float, 2>(p0, p1), ff, 1.0f, 1);
	  auto s = one[0];
	  VH_CHECK(std::fabs(o[0] - s[0]) <= e && std::fabs(o[1] - s[1]) <= e, "column", "sample ", k, " of a column differs from the sample evaluated alone");
	}
      }
      // grid positions reproduce the samples
      I3 g{r.irange(sup - 1, n[0] - sup), r.irange(sup - 1, n[1] - sup), r.irange(sup - 1, n[2] - sup)};
      one.clear(); Interpolation::interpolate<KernelT>(a, one, Vector<float, 2>((float)g[0], (float)g[1]), (float)g[2], 1.0f, 1);
      F2 want = m.d.at(g); auto s = one[0];
      VH_CHECK(std::fabs(s[0] - want.a) <= 3e-6 * m.maxabs && std::fabs(s[1] - want.b) <= 3e-6 * m.maxabs, "grid_point", "value at grid point ", g, " is ", s[0], " ", s[1], ", expected ", want);
      // only samples in the kernel support matter
      arr_t b(U(n));
      long ip = (long)std::floor(p0), iq = (long)std::floor(p1), it = (long)std::floor(t), ie = (long)std::floor((double)t + (ns - 1) * (double)dl + 1e-3);
      each({0, 0, 0}, n, [&](I3 i) {
	bool in = i[0] >= ip - sup + 1 && i[0] <= ip + sup && i[1] >= iq - sup + 1 && i[1] <= iq + sup && i[2] >= it - sup && i[2] <= ie + sup;
	put(b, i, in ? m.d.at(i) : F2{1e20f, -1e20f});
      });
      NDVecArray<float, 1, 2> o2(Vector<std::size_t, 1>{ns}); o2.clear();
      Interpolation::interpolate<KernelT>(b, o2, Vector<float, 2>(p0, p1), t, dl, ns);
      for(std::size_t k = 0; k < ns; k++) VH_CHECK(std::fabs(o2[k][0] - out[k][0]) <= e && std::fabs(o2[k][1] - out[k][1]) <= e, "support", "interpolation depends on samples outside of the kernel support");
      c.out(&o2[0][0], sizeof(float));
    }
    c.desc << "shape " << n << " support " << sup << " data " << data; c.nontrivial = true;
    c.sig = mix(hash_str(c.desc.str()));
  }

  // a Green's function read back reports the domain it was stored with
  void check_coords(Ctx& c, const GFModel& m, CylindricalGreensFunction& gf, int endconv = 0) {
    for(std::size_t d = 0; d < 3; d++) {
      float en = m.st[d] + (float)(m.n[d] - endconv) * m.dt[d];
      VH_CHECK(gf.start_coords()[d] == m.st[d] && gf.end_coords()[d] == en, "domain", "domain along axis ", d, " is ", gf.start_coords()[d], " to ", gf.end_coords()[d], ", stored as ", m.st[d], " to ", en);
    }
    c.count("domains_read_back");
  }

  // ---------------------------------------------------------------- C12

  template <class KernelT> void inner_request(Ctx& c, const GFModel& m, CylindricalGreensFunction& gf, I3 cs, const char* key, bool dyadic) {
    Rng& r = c.rng;
    float x[3];
    for(int d = 0; d < 3; d++) {
      double f; long hi = m.n[d] - 1;
      switch(r.range(0, 4)) {
      case 0: f = (double)r.irange(0, hi); break;
      case 1: f = (double)std::min<long>(hi, cs[d] * r.irange(0, hi / cs[d])); break;
      case 2: { double s = 0.125 * (double)r.irange(1, 7); f = std::min<double>((double)hi, (double)r.irange(0, hi) + s); break; }
      default: f = r.real(0, (double)hi); break;
      }
      if(r.chance(0.06) && d < 2) f = (double)hi + r.real(0.01, 0.99);     // between the last sample and the end of the domain
      x[d] = (float)((double)m.st[d] + f * (double)m.dt[d]);
      double g = m.idx(d, x[d]);
      if(g < 0 || g >= (double)m.n[d] - 1e-3) x[d] = m.st[d];
    }
    double left = (double)m.n[2] - 1 - m.idx(2, x[2]);
    double dl;
    switch(r.range(0, 5)) {
    case 0: dl = 1; break;
    case 1: dl = 0.5; break;
    case 2: dl = (double)cs[2]; break;
    case 3: dl = (double)cs[2] * r.real(1, 2.5); break;
    case 4: dl = 0.25 * (double)r.irange(1, 20); break;
    default: dl = r.real(0.03, 4); break;
    }
    float samp = (float)(dl * (double)m.dt[2]);
    double ds = (double)samp / (double)m.dt[2];
    std::size_t ns = 1;
    if(left > 0) ns += (std::size_t)std::floor(left / ds * (1 - 1e-6));
    if(dyadic && left > 0 && r.chance(0.5)) ns = 1 + (std::size_t)std::floor(left / ds);       // may end exactly on the last sample
    ns = std::min<std::size_t>(ns, 300);
    if(ns > 1 && r.chance(0.3)) ns = r.range(1, ns);
    float s0 = (float)r.real(-2, 2), s1 = (float)r.real(-2, 2), w = r.chance(0.5) ? 1.0f : (float)r.real(-2, 2);
    if(r.chance(0.1)) s0 = 0; if(r.chance(0.1)) s1 = 0;
    std::vector<float> res(ns + 2); for(float& v : res) v = (float)r.real(-1, 1);
    std::vector<float> init = res;
    inner<KernelT, float>(gf, x[0], x[1], x[2], samp, ns, s0, s1, res.begin() + 1, w);
    std::vector<D2> col = m.column<KernelT>(m.idx(0, x[0]), m.idx(1, x[1]));
    double er = m.eidx(0, x[0]), ez = m.eidx(1, x[1]);
    for(std::size_t k = 0; k < ns; k++) {
      double t = (double)x[2] + k * (double)samp, ft = m.idx(2, t);
      D2 G = m.along<KernelT>(col, ft);
      double want = (double)init[k + 1] + (double)w * (G.a * s0 + G.b * s1);
      double et = m.eidx(2, t) + 4e-7 * (ft + k * ds);
      double tol = std::fabs((double)w) * (std::fabs((double)s0) + std::fabs((double)s1)) * m.maxabs * (1.5e-5 + 4 * (er + ez + et)) + 1e-6 * (std::fabs((double)init[k + 1]) + std::fabs(want));
      VH_CHECK(std::fabs((double)res[k + 1] - want) <= tol, key, "inner product at index (", m.idx(0, x[0]), ",", m.idx(1, x[1]), ",", ft, "), sample ", k, " of ", ns, " spacing ", ds, ": ", res[k + 1], ", expected ", want, " +- ", tol);
    }
    VH_CHECK(res[0] == init[0] && res[ns + 1] == init[ns + 1], "output_bounds", "inner product wrote outside of its output range");
    for(float v : res) c.outv(v);
    c.count("inner_products"); c.count("samples_compared", ns);
    double crossed = ((double)(ns - 1) * ds) / (double)cs[2]; if(crossed > 1) c.count("requests_crossing_chunks");
    if(ds > (double)cs[2]) c.count("requests_skipping_chunks");
  }

  template <class KernelT> void fill_request(Ctx& c, const GFModel& m, CylindricalGreensFunction& gf, I3 cs, chunk_t& out, const char* key) {
    Rng& r = c.rng;
    float b[3], e[3]; I3 ns;
    for(int d = 0; d < 3; d++) {
      auto pick = [&]() -> float {
	long hi = m.n[d] - 1; double f;
	switch(r.range(0, 5)) {
	case 0: f = 0; break;
	case 1: f = (double)hi; break;
	case 2: f = (double)std::min<long>(hi, cs[d] * r.irange(0, hi / cs[d])); break;
	case 3: f = std::min<double>((double)hi, (double)(cs[d] * r.irange(0, hi / cs[d])) + 0.5); break;
	default: f = r.real(0, (double)hi);
	}
	float x = (float)((double)m.st[d] + f * (double)m.dt[d]);
	double g = m.idx(d, x); if(g < 0) x = m.st[d];
	return std::min(x, gf.end_coords()[(std::size_t)d]);
      };
      b[d] = pick(); e[d] = pick(); if(b[d] > e[d]) std::swap(b[d], e[d]);
      ns[d] = r.chance(0.2) ? 1 : r.irange(2, d == 2 ? 24 : 7);
      if(r.chance(0.1)) ns[d] = (long)std::ceil(m.idx(d, e[d]) - m.idx(d, b[d])) + 1;
      // a single sample per axis is only meaningful at one position
      if(ns[d] == 1) e[d] = b[d];
      if(e[d] == b[d] && ns[d] > 1 && r.chance(0.7)) ns[d] = 1;
    }
    gf.fill_array<KernelT>(V3(b), V3(e), RZTVector<std::size_t>{(std::size_t)ns[0], (std::size_t)ns[1], (std::size_t)ns[2]}, out);
    VH_CHECK(L(out.GetShape()) == ns, "export_shape", "export has shape ", L(out.GetShape()), ", requested ", ns);
    auto at = [&](int d, long i) { return ns[d] == 1 ? (double)b[d] : (double)b[d] + ((double)e[d] - (double)b[d]) * (double)i / (double)(ns[d] - 1); };
    for(long i = 0; i < ns[0]; i++) for(long j = 0; j < ns[1]; j++) {
      double x = at(0, i), z = at(1, j);
      std::vector<D2> col = m.column<KernelT>(m.idx(0, x), m.idx(1, z));
      for(long k = 0; k < ns[2]; k++) {
	double t = at(2, k); D2 G = m.along<KernelT>(col, m.idx(2, t));
	double tol = m.maxabs * (1.5e-5 + 6 * (m.eidx(0, x) + m.eidx(1, z) + m.eidx(2, t)));
	F2 v = get(out, {i, j, k}); c.outv(v);
	VH_CHECK(std::fabs((double)v.a - G.a) <= tol && std::fabs((double)v.b - G.b) <= tol, key, "export from index (", m.idx(0, b[0]), ",", m.idx(1, b[1]), ",", m.idx(2, b[2]), ") to (", m.idx(0, e[0]), ",", m.idx(1, e[1]), ",", m.idx(2, e[2]),
		 ") with samples ", ns, ": value at grid point ", I3{i, j, k}, " is ", v, ", expected ", G.a, " ", G.b);
      }
    }
    c.count("exports"); c.count("exported_points", vol(ns));
    c.desc << " X" << ns;
  }

  void c12_case(Ctx& c) {
    Rng& r = c.rng;
    bool dyadic = r.chance(0.6);
    GFShape sh; sh.dyadic = dyadic; sh.r0 = false;
    I3 hint = random_cs(r, {8, 8, 16});
    GFModel m = make_model(r, sh, hint);
    c.desc << "n " << m.n << " dt " << m.dt[0] << "," << m.dt[1] << "," << m.dt[2];
    int ng = (int)r.range(1, 2); std::uint64_t sig = hash_str(c.desc.str());
    for(int g = 0; g < ng; g++) {
      I3 cs = g == 0 && r.chance(0.5) ? hint : random_cs(r, {14, 14, 45});
      bool lin = r.chance(0.3); long ov = (lin ? 1 : 2) + (r.chance(0.2) ? r.irange(0, 1) : 0);
      if(m.n[0] < ov + 1) ov = lin ? 1 : 2;
      fs::path p = c.sub(cat("gf", g));
      const int endconv = (int)r.range(0, 1);
      build_gf(c, m, p, cs, ov, r.chance(0.5), endconv);
      std::size_t depth = r.range(0, 6);
      CylindricalGreensFunction gf(p, depth); check_coords(c, m, gf, endconv);
      c.desc << " | cs " << cs << " ov " << ov << " depth " << depth << (lin ? " linear" : "");
      sig = mix(sig ^ hash_str(cat(cs, ov, depth, lin)));
      chunk_t out(U(I3{1, 1, 1}));
      int nq = (int)r.range(3, 14);
      for(int q = 0; q < nq; q++) {
	if(r.chance(0.12)) { if(lin) fill_request<K::Linear>(c, m, gf, cs, out, "export"); else fill_request<K::Keys>(c, m, gf, cs, out, "export"); }
	else if(lin) inner_request<K::Linear>(c, m, gf, cs, "inner_product", dyadic); else inner_request<K::Keys>(c, m, gf, cs, "inner_product", dyadic);
      }
    }
    if(r.chance(0.3)) {       // complete signals, with a chunking of their own
      SigSetup s = sig_setup(c, r.chance(0.5), false);
      fs::path p = c.sub("gfs"); build_gf(c, s.m, p, s.cs, 2, r.chance(0.5));
      CylindricalGreensFunction gf(p, r.range(0, 5));
      Expect e = reference_signal<K::Keys>(s.m, s.g, s.t_sig, s.t_samp, s.ns);
      cmp(c, signal<K::Keys, float>(gf, s, s.g, s.t_sig, s.ns), e, 0, "signal", "signal");
      c.count("signals");
    }
    c.sig = sig; c.nontrivial = true;
  }

  // ---------------------------------------------------------------- C17

  template <class KernelT> void c17_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, r.chance(0.5), true);
    c.desc << " seg " << s.g;
    fs::path p = c.sub("gf"); build_gf(c, s.m, p, s.cs, std::min<long>((long)KernelT::support + (r.chance(0.3) ? r.irange(0, 2) : 0), s.m.n[0] - 1), r.chance(0.5));
    CylindricalGreensFunction gf(p, r.range(0, 5));
    float weight = r.chance(0.5) ? 1.0f : (float)r.real(-2, 2);
    Expect e = reference_signal<KernelT>(s.m, s.g, s.t_sig, s.t_samp, s.ns, weight);
    if(r.chance(0.5)) { auto v = signal<KernelT, float>(gf, s, s.g, s.t_sig, s.ns, weight); for(float x : v) c.outv(x); cmp(c, v, e, 0, "line_integral", "signal"); }
    else { auto v = signal<KernelT, double>(gf, s, s.g, s.t_sig, s.ns, weight); for(double x : v) c.outv(x); cmp(c, v, e, 0, "line_integral", "signal (double)"); }
    c.count("signals"); c.count("quadrature_points", (std::uint64_t)std::ceil(s.g.t1 - s.g.t0) + 1);
    if(std::ceil(s.g.t1 - s.g.t0) + 1 > 100) c.count("signals_with_many_blocks");
    if(s.ns > 100) c.count("signals_with_many_samples");
    c.nontrivial = true;
  }

  // ---------------------------------------------------------------- C13

  // bound on the accuracy of a calculated signal
  double scale(const Expect& e) { double t = 0; for(std::size_t k = 0; k < e.v.size(); k++) t = std::max(t, e.tol[k]); return t; }
  template <class A, class B> void rel(Ctx& c, const A& a, const B& b, double fa, double tol, const Expect* e, const char* key, const std::string& what) {
    for(std::size_t k = 0; k < b.size(); k++) {
      double t = tol + 1e-5 * std::fabs((double)b[k]) + (e ? 2 * e -> tol[k] : 0);
      VH_CHECK(std::fabs((double)a[k] * fa - (double)b[k]) <= t, key, what, ": sample ", k, " is ", (double)b[k], ", expected ", (double)a[k] * fa, " +- ", t);
      c.count("samples_compared");
    }
  }

  void c13_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, r.chance(0.5), r.chance(0.2));
    fs::path p = c.sub("gf"); build_gf(c, s.m, p, s.cs, 2, r.chance(0.5));
    CylindricalGreensFunction gf(p, r.range(0, 5));
    using KK = K::Keys;
    Expect e = reference_signal<KK>(s.m, s.g, s.t_sig, s.t_samp, s.ns);
    std::vector<float> base = signal<KK, float>(gf, s, s.g, s.t_sig, s.ns);
    double big = 0; for(float x : base) { big = std::max(big, std::fabs((double)x)); c.outv(x); }
    for(std::size_t k = 0; k < s.ns; k++) e.tol[k] = 2e-6 * big + 2e-6 * std::fabs(e.v[k]);      // the relations below hold beyond the accuracy of the signal itself
    // accumulated rounding of the intermediate sums
    double noise; { double amp = 0, T = s.g.t1 - s.g.t0; for(int d = 0; d < 3; d++) amp += std::fabs((s.g.p1[d] - s.g.p0[d]) / T * s.g.q); noise = 4e-6 * amp * s.m.maxabs * T; }
    auto tiny_or_huge = [&] { return std::ldexp(r.chance(0.5) ? 1.0f : -1.5f, (int)r.irange(-40, 30)); };
    { Seg g = s.g; float f = r.chance(0.3) ? tiny_or_huge() : r.chance(0.5) ? -2.0f : (float)r.real(-4, 4); g.q *= f;
      rel(c, base, signal<KK, float>(gf, s, g, s.t_sig, s.ns), f, noise * std::fabs(f), nullptr, "charge", "charge scaled"); }
    { float f = r.chance(0.3) ? 0.0f : r.chance(0.3) ? tiny_or_huge() : (float)r.real(-4, 4);
      rel(c, base, signal<KK, float>(gf, s, s.g, s.t_sig, s.ns, f), f, noise * std::fabs(f) + 1e-30, nullptr, "weight", "weight scaled"); }
    { std::vector<double> init(s.ns); for(double& x : init) x = r.real(-5, 5);
      auto v = signal<KK, double>(gf, s, s.g, s.t_sig, s.ns, 1, init);
      for(std::size_t k = 0; k < s.ns; k++) v[k] -= init[k];
      rel(c, base, v, 1, noise + 1e-9, nullptr, "accumulate", "signal on top of a filled output"); }
    // the output may be longer than what is requested; the excess stays untouched
    { std::vector<float> v(s.ns + 3, 0); v[s.ns] = 11; v[s.ns + 1] = -12; v[s.ns + 2] = 13;
      gf.apply_accumulate<KK>(s.g.seg(), s.t_sig, s.t_samp, s.ns, v);
      VH_CHECK(v[s.ns] == 11 && v[s.ns + 1] == -12 && v[s.ns + 2] == 13, "output_bounds", "samples beyond the requested number were changed");
      v.resize(s.ns); rel(c, base, v, 1, noise, nullptr, "repeat", "repeated calculation"); }
    // fewer samples
    if(s.ns > 1) { std::size_t n2 = r.range(1, s.ns - 1);
      auto v = signal<KK, float>(gf, s, s.g, s.t_sig, n2); rel(c, base, v, 1, noise, nullptr, "num_samples", cat("signal with ", n2, " instead of ", s.ns, " samples")); }
    // several segments one after another, in both orders, through the signal calculator
    {
      std::vector<Seg> segs{s.g}; int k = (int)r.range(1, 3);
      for(int i = 0; i < k; i++) {
	double lo = (double)s.g.t0, hi = (double)s.t_sig + (double)s.ns * (double)s.t_samp + 5;
	double T = r.real(0.1, 10), ts = r.real(lo, std::max(hi, lo + 1));
	segs.push_back(random_segment(r, s.m, T, ts));
      }
      std::vector<double> sum(s.ns, 0); double nz = 0;
      for(const Seg& g : segs) {
	auto v = signal<KK, float>(gf, s, g, s.t_sig, s.ns); for(std::size_t q = 0; q < s.ns; q++) sum[q] += v[q];
	double T = g.t1 - g.t0, amp = 0; for(int d = 0; d < 3; d++) amp += std::fabs((g.p1[d] - g.p0[d]) / T * g.q); nz += 4e-6 * amp * s.m.maxabs * T;
      }
      SignalCalculator calc(p, r.range(1, 6));
      std::vector<float> a(s.ns, 0), b(s.ns, 0);
      for(const Seg& g : segs) calc.AccumulateSignal(g.seg(), s.t_sig, s.t_samp, s.ns, a);
      r.shuffle(segs); for(const Seg& g : segs) calc.AccumulateSignal(g.seg(), s.t_sig, s.t_samp, s.ns, b);
      rel(c, sum, a, 1, 3 * nz, nullptr, "superposition", cat(segs.size(), " segments one after another"));
      rel(c, sum, b, 1, 3 * nz, nullptr, "order", cat(segs.size(), " segments in another order"));
      c.count("superpositions");
    }
    // splitting at a multiple of the integration step
    {
      Seg g = s.g; long N = r.irange(2, 40); g.t1 = g.t0 + (float)N;                       // integer duration: unit steps, also for both parts
      if((double)g.t1 - (double)g.t0 == (double)N) {
	double last = (double)s.t_sig + (double)(s.ns - 1) * (double)s.t_samp - (double)g.t0;
	(void)last;
	long k = r.irange(1, N - 1);
	Seg g1 = g, g2 = g; g1.t1 = g.t0 + (float)k; g2.t0 = g1.t1;
	if((double)g1.t1 - (double)g.t0 == (double)k) {
	  for(int d = 0; d < 3; d++) g1.p1[d] = g2.p0[d] = (float)((double)g.p0[d] + ((double)g.p1[d] - (double)g.p0[d]) * (double)k / (double)N);
	  Expect w = reference_signal<KK>(s.m, g, s.t_sig, s.t_samp, s.ns);
	  bool bad = false; for(char x : w.dom) if(x) bad = true;
	  if(!bad) {
	    auto whole = signal<KK, float>(gf, s, g, s.t_sig, s.ns), parts = signal<KK, float>(gf, s, g1, s.t_sig, s.ns);
	    gf.apply_accumulate<KK>(g2.seg(), s.t_sig, s.t_samp, s.ns, parts);
	    // the split point is rounded to single precision
	    { Expect w1 = reference_signal<KK>(s.m, g1, s.t_sig, s.t_samp, s.ns), w2 = reference_signal<KK>(s.m, g2, s.t_sig, s.t_samp, s.ns);
	      for(std::size_t q = 0; q < s.ns; q++) w.tol[q] += w1.tol[q] + w2.tol[q] + std::fabs(w.v[q] - w1.v[q] - w2.v[q]); }
	    rel(c, whole, parts, 1, 0, &w, "split", cat("segment of ", N, " steps split after ", k)); c.count("splits");
	  }
	}
      }
    }
    c.nontrivial = true;
  }

  // ---------------------------------------------------------------- C14

  void c14_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, r.chance(0.3), r.chance(0.3));
    using KK = K::Keys;
    fs::path p = c.sub("gf");
    // room for shifted windows
    double last = (double)s.t_sig + (double)(s.ns + 4) * (double)s.t_samp - (double)s.g.t0; fit_time(s.m, std::max(last + 1e-3, 1.0), s.dyadic);
    build_gf(c, s.m, p, s.cs, 2, r.chance(0.5));
    CylindricalGreensFunction gf(p, r.range(0, 5));
    Expect e = reference_signal<KK>(s.m, s.g, s.t_sig, s.t_samp, s.ns);
    std::vector<float> init(s.ns); for(float& x : init) x = (float)r.real(-3, 3);
    auto v = signal<KK, float>(gf, s, s.g, s.t_sig, s.ns, 1, init);
    auto base = signal<KK, float>(gf, s, s.g, s.t_sig, s.ns);
    for(float x : base) c.outv(x);
    // nothing before the current flows (a margin covers the rounding of the sample times)
    for(std::size_t k = 0; k < s.ns; k++) {
      double t = (double)s.t_sig + (double)k * (double)s.t_samp, eps = 1e-6 * (std::fabs(t) + std::fabs((double)s.g.t0) + (double)k * (double)s.t_samp);
      if(t < (double)s.g.t0 - eps) { VH_CHECK(v[k] == init[k] && base[k] == 0, "acausal", "sample ", k, " at ", t, " changed although the current starts at ", s.g.t0); c.count("samples_before_start"); }
    }
    cmp(c, base, e, 0, "signal", "signal");
    // samples depend only on the part traversed before: replace the later part of the track
    {
      long N = (long)std::ceil(s.g.t1 - s.g.t0);
      if(N >= 2) {
	long k = r.irange(1, N - 1); double h = ((double)s.g.t1 - (double)s.g.t0) / (double)N, tc = (double)s.g.t0 + (double)k * h;
	Seg g = s.g; g.t1 = (float)tc;
	double f = ((double)g.t1 - (double)g.t0) / ((double)s.g.t1 - (double)s.g.t0);
	for(int d = 0; d < 3; d++) g.p1[d] = (float)((double)s.g.p0[d] + ((double)s.g.p1[d] - (double)s.g.p0[d]) * f);
	if((long)std::ceil(g.t1 - g.t0) == k) {
	  auto w = signal<KK, float>(gf, s, g, s.t_sig, s.ns); std::size_t seen = 0;
	  Expect f = reference_signal<KK>(s.m, g, s.t_sig, s.t_samp, s.ns);       // (the end of the shorter segment is rounded)
	  for(std::size_t q = 0; q < s.ns; q++) {
	    double t = (double)s.t_sig + (double)q * (double)s.t_samp;
	    if(t >= tc - 1e-5 * (std::fabs(tc) + std::fabs(t)) - 1e-6 || ((e.dom[q] | f.dom[q]) & 2)) continue;
	    seen++;
	    VH_CHECK(std::fabs((double)w[q] - (double)base[q]) <= e.tol[q] + f.tol[q] + std::fabs(e.v[q] - f.v[q]) + 1e-5 * std::fabs((double)base[q]), "future", "sample ", q, " at ", t, " depends on the track after ", tc, ": ", base[q], " versus ", w[q]);
	  }
	  c.count("samples_before_truncation", seen);
	}
      }
    }
    // time translation of segment and window
    {
      float sh = s.dyadic ? 0.25f * (float)r.irange(-200, 200) : (float)r.real(-50, 50);
      Seg g = s.g; g.t0 += sh; g.t1 += sh; float ts = s.t_sig + sh;
      if((long)std::ceil(g.t1 - g.t0) == (long)std::ceil(s.g.t1 - s.g.t0)) {
	Expect f = reference_signal<KK>(s.m, g, ts, s.t_samp, s.ns);
	auto w = signal<KK, float>(gf, s, g, ts, s.ns);
	bool exact = s.dyadic && (double)g.t0 - (double)s.g.t0 == (double)sh && (double)g.t1 - (double)s.g.t1 == (double)sh;
	for(std::size_t q = 0; q < s.ns; q++) {
	  if((e.dom[q] | f.dom[q]) & 2) continue;
	  double tol = e.tol[q] + f.tol[q] + std::fabs(e.v[q] - f.v[q]) + 1e-5 * std::fabs((double)base[q]);      // (shifted times are rounded)
	  VH_CHECK(std::fabs((double)w[q] - (double)base[q]) <= tol, "translation", "sample ", q, " changes from ", base[q], " to ", w[q], " when everything is shifted by ", sh);
	}
	c.count("translations"); if(exact) c.count("exact_translations");
      }
    }
    // shifting the window by whole samples
    {
      long k = r.irange(1, 4); if(r.chance(0.5)) k = -k;
      float ts = s.t_sig + (float)k * s.t_samp;
      Expect f = reference_signal<KK>(s.m, s.g, ts, s.t_samp, s.ns);
      auto w = signal<KK, float>(gf, s, s.g, ts, s.ns); std::size_t seen = 0;
      for(long q = 0; q < (long)s.ns; q++) {
	long o = q + k; if(o < 0 || o >= (long)s.ns || ((e.dom[(std::size_t)o] | f.dom[(std::size_t)q]) & 2)) continue;
	double tol = e.tol[(std::size_t)o] + f.tol[(std::size_t)q] + std::fabs(e.v[(std::size_t)o] - f.v[(std::size_t)q]) + 1e-5 * std::fabs((double)base[(std::size_t)o]);
	VH_CHECK(std::fabs((double)w[(std::size_t)q] - (double)base[(std::size_t)o]) <= tol, "window_shift", "sample ", q, " of the window shifted by ", k, " samples is ", w[(std::size_t)q], ", expected ", base[(std::size_t)o]);
	seen++;
      }
      c.count("window_shift_samples", seen);
    }
    c.nontrivial = true;
  }

  // ---------------------------------------------------------------- C15

  void c15_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, r.chance(0.5), r.chance(0.15), 0.05);
    using KK = K::Keys;
    double rmax = (double)s.m.st[0] + (double)(s.m.n[0] - 1) * (double)s.m.dt[0];
    (void)rmax;
    fs::path p = c.sub("gf"); build_gf(c, s.m, p, s.cs, 2, r.chance(0.5));
    CylindricalGreensFunction gf(p, r.range(0, 5));
    Expect e = reference_signal<KK>(s.m, s.g, s.t_sig, s.t_samp, s.ns);
    auto base = signal<KK, float>(gf, s, s.g, s.t_sig, s.ns);
    for(float x : base) c.outv(x);
    auto transformed = [&](double a, bool mirror, const char* key) {
      Seg g = s.g;
      auto tr = [&](const float* q, float* o) { double x = q[0], y = mirror ? -q[1] : q[1]; o[0] = (float)(std::cos(a) * x - std::sin(a) * y); o[1] = (float)(std::sin(a) * x + std::cos(a) * y); };
      tr(s.g.p0, g.p0); tr(s.g.p1, g.p1);
      Expect f = reference_signal<KK>(s.m, g, s.t_sig, s.t_samp, s.ns);
      auto w = signal<KK, float>(gf, s, g, s.t_sig, s.ns);
      for(std::size_t q = 0; q < s.ns; q++) {
	if((e.dom[q] | f.dom[q]) & 2) continue;
	double tol = e.tol[q] + f.tol[q] + std::fabs(e.v[q] - f.v[q]) + 1e-5 * std::fabs((double)base[q]);      // (rotated positions are rounded)
	VH_CHECK(std::fabs((double)w[q] - (double)base[q]) <= tol, key, "sample ", q, " changes from ", base[q], " to ", w[q], " (angle ", a, (mirror ? ", mirrored" : ""), ")");
	c.count("samples_compared");
      }
    };
    for(int i = 0; i < 3; i++) transformed(r.chance(0.4) ? 0.5 * M_PI * (double)r.irange(1, 3) : r.real(0, 6.2831853), false, "rotation");
    transformed(r.real(0, 6.2831853), true, "reflection");
    // motion along a chord seen from a point where it is azimuthal: radial component vanishes there.  Very short azimuthal segment:
    {
      double rho = rmax * r.real(0.2, 0.9), a = r.real(0, 6.28), da = 1e-3;
      Seg g; double z = (double)s.m.st[1] + (double)(s.m.n[1] - 1) * (double)s.m.dt[1] * r.real(0.1, 0.9);
      g.p0[0] = (float)(rho * std::cos(a - da)); g.p0[1] = (float)(rho * std::sin(a - da)); g.p1[0] = (float)(rho * std::cos(a + da)); g.p1[1] = (float)(rho * std::sin(a + da)); g.p0[2] = g.p1[2] = (float)z;
      g.t0 = s.g.t0; g.t1 = s.g.t0 + 0.5f; g.q = 1;
      auto w = signal<KK, float>(gf, s, g, s.t_sig, s.ns);
      double vel = 2 * rho * std::sin(da) / 0.5;
      for(std::size_t q = 0; q < s.ns; q++) VH_CHECK(std::fabs((double)w[q]) <= 3 * 0.5 * vel * s.m.maxabs * 2 * (da + 1e-6 * rho / (vel + 1e-9) + 1e-4), "azimuthal", "azimuthal motion gives ", w[q], " at sample ", q, " (speed ", vel, ")");
      c.count("azimuthal_segments");
    }
    // vertical motion on the axis: only the vertical component contributes; a motion through the axis has no radial component at the axis itself
    {
      Seg g = s.g; g.p0[0] = g.p0[1] = g.p1[0] = g.p1[1] = 0; if(g.p0[2] == g.p1[2]) g.p1[2] = s.m.st[1] + 0.5f * s.m.dt[1];
      Expect f = reference_signal<KK>(s.m, g, s.t_sig, s.t_samp, s.ns);
      cmp(c, signal<KK, float>(gf, s, g, s.t_sig, s.ns), f, 0, "on_axis", "vertical segment on the axis");
      // a GF with the same vertical component but another radial one gives the same signal
      c.count("on_axis_segments");
    }
    c.nontrivial = true;
  }

  // ---------------------------------------------------------------- C16

  template <class KK> void c16_case(Ctx& c) {
    Rng& r = c.rng;
    bool dyadic = r.chance(0.5);
    GFShape sh; sh.dyadic = dyadic; sh.r0 = false; sh.nmin = {3, 2, 6}; sh.nmax = {9, 9, 30};
    I3 cs = random_cs(r, {8, 8, 16});
    GFModel m = make_model(r, sh, cs);
    if(r.chance(0.35)) m.st[2] = (dyadic ? (float)r.irange(-6, 8) : (float)r.real(-5, 8)) * m.dt[2];
    fs::path p = c.sub("gf"); build_gf(c, m, p, cs, m.n[0] > 3 && r.chance(0.3) ? 3 : 2, r.chance(0.5));      // more than what the linear kernel needs
    std::size_t depth = r.range(0, 5);
    CylindricalGreensFunction gf(p, depth); check_coords(c, m, gf);
    c.desc << "n " << m.n << " cs " << cs << " start " << m.st[0] << "," << m.st[1] << "," << m.st[2] << " depth " << depth;
    std::size_t raised = 0, ignored = 0;
    auto outside = [&](int d) -> double {       // an index clearly outside of the stored range
      double far = r.chance(0.5) ? r.real(0.02, 3) : r.chance(0.5) ? r.real(3, 200) : r.real(200, 1e6);
      if(r.chance(0.5)) return -far;
      return (double)m.n[d] + far;
    };
    int nq = (int)r.range(6, 16);
    for(int q = 0; q < nq; q++) {
      int kind = (int)r.range(0, 5);
      bool ign = r.chance(0.5);
      auto mode = ign ? Green::OutOfBoundsBehavior::Ignore : Green::OutOfBoundsBehavior::RaiseError;
      if(kind <= 1) {             // position outside
	double f[3]; int bad = (int)r.range(0, 1);
	for(int d = 0; d < 3; d++) f[d] = r.real(0, (double)(m.n[d] - 1));
	f[bad] = outside(bad); if(r.chance(0.2)) f[1 - bad] = outside(1 - bad);
	float x[3]; for(int d = 0; d < 3; d++) x[d] = (float)((double)m.st[d] + f[d] * (double)m.dt[d]);
	if(x[0] < 0 && r.chance(0.5)) x[0] = m.st[0] + (float)(m.n[0] + 1) * m.dt[0];
	std::size_t ns = r.range(1, 6); float samp = m.dt[2] * 0.5f;
	std::vector<float> v(ns + 2, 4.5f); bool thrown = false;
	try { inner<KK, float>(gf, x[0], x[1], x[2], samp, ns, 1, 1, v.begin() + 1, 1, mode); }
	catch(const std::exception&) { thrown = true; }
	if(ign) { VH_CHECK(!thrown, "ignore_throws", "ignoring policy raised an error"); ignored++; }
	else { VH_CHECK(thrown, "not_raised", "no error for a position at index (", f[0], ",", f[1], ") of a domain ", m.n); raised++; }
	for(float y : v) VH_CHECK(y == 4.5f, "contribution", "position outside of the domain (index ", m.idx(0, x[0]), ",", m.idx(1, x[1]), ") changes the output to ", y);
      }
      else if(kind == 2) {        // time range that is partly or completely outside
	double f0 = r.real(0, (double)(m.n[0] - 1)), f1 = r.real(0, (double)(m.n[1] - 1));
	float x0 = (float)((double)m.st[0] + f0 * (double)m.dt[0]), x1 = (float)((double)m.st[1] + f1 * (double)m.dt[1]);
	if(m.idx(0, x0) < 0) x0 = m.st[0]; if(m.idx(1, x1) < 0) x1 = m.st[1];
	double fa = r.chance(0.3) ? r.real(-2.0 * (double)m.n[2], -0.1) : r.chance(0.2) ? (double)m.n[2] + r.real(0.1, 50) : r.real(0, (double)m.n[2]);
	float t = (float)((double)m.st[2] + fa * (double)m.dt[2]), samp = (float)((double)m.dt[2] * r.real(0.2, 5));
	std::size_t ns = r.range(1, 40);
	std::vector<float> v(ns, 0.0f); bool thrown = false;
	try { inner<KK, float>(gf, x0, x1, t, samp, ns, 1, 0.5f, v.begin(), 1, mode); }
	catch(const std::exception&) { thrown = true; }
	bool any = false, near = false;
	auto col = m.column<KK>(m.idx(0, x0), m.idx(1, x1));
	for(std::size_t k = 0; k < ns; k++) {
	  double ft = m.idx(2, (double)t + (double)k * (double)samp);
	  if(std::fabs(ft) < 1e-4 || std::fabs(ft - (double)m.n[2]) < 1e-3) { near = true; continue; }
	  bool out = ft < 0 || ft >= (double)m.n[2]; if(out) any = true;
	  if(!ign && any) continue;
	  if(!ign && thrown) continue;
	  D2 G = out ? D2{} : m.along<KK>(col, ft);
	  double want = G.a + 0.5 * G.b, tol = m.maxabs * 1.5 * (1.5e-5 + 4 * (m.eidx(0, x0) + m.eidx(1, x1) + m.eidx(2, (double)t + (double)k * (double)samp) + 4e-7 * ((double)k * (double)samp / (double)m.dt[2] + std::fabs(ft))));
	  VH_CHECK(std::fabs((double)v[k] - want) <= tol, out ? "contribution" : "inside_disturbed", "sample ", k, " at time index ", ft, " of ", m.n[2], " is ", v[k], ", expected ", want, (ign ? " (ignoring)" : " (raising)"));
	  c.count("samples_compared");
	}
	if(ign) { VH_CHECK(!thrown, "ignore_throws", "ignoring policy raised an error"); if(any) ignored++; }
	else if(!near) { VH_CHECK(thrown == any, "not_raised", "raising policy ", thrown ? "raised an error for times inside" : "raised no error for times outside", " of the domain: index ", fa, " spacing ", (double)samp / (double)m.dt[2], " samples ", ns, " range ", m.n[2]); if(any) raised++; }
      }
      else if(kind == 3 && (double)m.st[0] == 0) {        // a track that leaves the domain
	SigSetup s; s.m = m;
	double T = r.real(0.2, 25); Seg g = random_segment(r, m, T, r.real(-10, 10));
	int d = (int)r.range(0, 2);
	double ext = (d == 2 ? (double)m.n[1] * (double)m.dt[1] : (double)m.n[0] * (double)m.dt[0]) * r.real(1.1, 4);
	if(r.chance(0.5)) g.p1[d] += (float)(r.chance(0.5) ? ext : -ext); else g.p0[d] += (float)(r.chance(0.5) ? ext : -ext);
	std::size_t ns = r.range(1, 30);
	s.t_samp = (float)((double)m.n[2] * (double)m.dt[2] / (double)ns * r.real(0.1, 1.2)); s.t_sig = g.t0 + (float)r.real(-5, 5);
	Expect e = reference_signal<KK>(m, g, s.t_sig, s.t_samp, ns);
	bool any = false, near = false; for(char x : e.dom) { if(x & 1) any = true; if(x & 2) near = true; }
	std::vector<float> v(ns, 0.0f); bool thrown = false;
	try { gf.apply_accumulate<KK>(g.seg(), s.t_sig, s.t_samp, ns, v, mode); } catch(const std::exception&) { thrown = true; }
	if(ign) { VH_CHECK(!thrown, "ignore_throws", "ignoring policy raised an error"); cmp(c, v, e, 0, "ignored_track", "track that leaves the domain"); ignored += any; c.count("tracks_ignored", any); }
	else if(!near) { VH_CHECK(thrown == any, "not_raised", "track ", g, thrown ? " inside" : " outside", " of the domain ", thrown ? "raises an error" : "raises no error"); raised += any; }
      }
      else if((double)m.st[0] == 0 && (double)m.st[2] == 0) {     // a valid request in between
	double T = r.real(0.2, 10); Seg g = random_segment(r, m, T, 0); std::size_t ns = r.range(1, 20);
	float samp = (float)((double)(m.n[2] - 1) * (double)m.dt[2] / (double)(ns + 1) * 0.99);
	SigSetup s; s.m = m; s.t_samp = samp; s.t_sig = 0;
	Expect e = reference_signal<KK>(m, g, 0, samp, ns);
	std::vector<float> v(ns, 0); gf.apply_accumulate<KK>(g.seg(), 0, samp, ns, v, mode);
	cmp(c, v, e, 0, "after_error", "valid request between invalid ones"); c.count("valid_requests");
	if(r.chance(0.3)) {
	  SignalCalculator calc(p, r.range(1, 4)); std::vector<float> w(ns, 0);
	  Seg bad = g; bad.p1[0] += (float)(m.n[0] + 3) * m.dt[0]; bad.p0[0] += (float)(m.n[0] + 3) * m.dt[0]; bool th = false;
	  Expect be = reference_signal<KK>(m, bad, 0, samp, ns); bool all = true; for(char x : be.dom) if(x != 1) all = false;
	  if(all) {
	    std::vector<float> u(ns, 0);
	    try { calc.AccumulateSignal(bad.seg(), 0, samp, ns, u); } catch(const std::exception&) { th = true; }
	    VH_CHECK(th, "not_raised", "signal calculator accepts a track outside of the domain");
	  }
	  calc.AccumulateSignal(g.seg(), 0, samp, ns, w); cmp(c, w, reference_signal<K::Keys>(m, g, 0, samp, ns), 0, "after_error", "signal calculator after an error");
	}
      }
    }
    c.count("raised", raised); c.count("ignored", ignored); c.nontrivial = raised + ignored > 0;
  }

  // ---------------------------------------------------------------- C18

  void c18_case(Ctx& c) {
    Rng& r = c.rng;
    bool dyadic = r.chance(0.6);
    GFShape sh; sh.dyadic = dyadic; sh.r0 = false; sh.nmax = {10, 10, 30};
    I3 cs = random_cs(r, {8, 8, 16});
    GFModel m = make_model(r, sh, cs);
    bool lin = r.chance(0.3);
    fs::path p = c.sub("gf"); const int endconv = (int)r.range(0, 1); build_gf(c, m, p, cs, lin ? 1 : 2, r.chance(0.5), endconv);
    std::size_t depth = r.range(0, 5);
    CylindricalGreensFunction gf(p, depth); check_coords(c, m, gf, endconv);
    c.desc << "n " << m.n << " cs " << cs << " depth " << depth << (lin ? " linear" : "");
    chunk_t out(U(I3{r.irange(1, 4), r.irange(1, 4), r.irange(1, 4)}), 99.0f);
    for(int q = (int)r.range(2, 6); q > 0; q--) { if(lin) fill_request<K::Linear>(c, m, gf, cs, out, "export"); else fill_request<K::Keys>(c, m, gf, cs, out, "export"); }
    c.nontrivial = true;
  }

  // ---------------------------------------------------------------- C07 (evaluation with and without sparsity hints)

  void c07_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, r.chance(0.5), false);
    const GFModel& m = s.m;
    Rng keep = r;
    fs::path pa = c.sub("with"), pb = c.sub("without");
    build_gf(c, m, pa, s.cs, 2, true); c.rng = keep; build_gf(c, m, pb, s.cs, 2, false);
    std::size_t nulls = 0; { Probe q(pa); for(const auto& x : q.all()) nulls += x.chunk_type == ChunkType::all_null; }
    c.count("null_chunks", nulls);
    { Probe q(pb); for(const auto& x : q.all()) VH_CHECK(x.chunk_type == ChunkType::specified, "unrequested_null", "chunk is stored as a marker without the hint"); }
    CylindricalGreensFunction a(pa, r.range(0, 4)), b(pb, r.range(0, 4));
    double eps = 1e-6;
    for(int q = 0; q < 6; q++) {
      float x[3]; for(int d = 0; d < 3; d++) { x[d] = (float)((double)m.st[d] + (r.chance(0.4) ? (double)r.irange(0, m.n[d] - 1) : r.real(0, (double)(m.n[d] - 1))) * (double)m.dt[d]); if(m.idx(d, x[d]) < 0) x[d] = m.st[d]; }
      double left = (double)(m.n[2] - 1) - m.idx(2, x[2]); float samp = (float)((double)m.dt[2] * r.real(0.1, 3));
      std::size_t ns = 1 + (left > 0 ? (std::size_t)(left * (double)m.dt[2] / (double)samp * 0.9999) : 0); ns = std::min<std::size_t>(ns, 200);
      std::vector<float> u(ns), v(ns); for(std::size_t k = 0; k < ns; k++) u[k] = v[k] = (float)k;
      float s0 = (float)r.real(-1, 1), s1 = (float)r.real(-1, 1);
      inner<K::Keys, float>(a, x[0], x[1], x[2], samp, ns, s0, s1, u.begin());
      inner<K::Keys, float>(b, x[0], x[1], x[2], samp, ns, s0, s1, v.begin());
      for(std::size_t k = 0; k < ns; k++) VH_CHECK(std::fabs(u[k] - v[k]) <= eps * (1 + std::fabs(v[k])), "inner_product", "sample ", k, " is ", u[k], " with and ", v[k], " without the hint");
      c.count("samples_compared", ns); for(float y : u) c.outv(y);
    }
    Expect e = reference_signal<K::Keys>(m, s.g, s.t_sig, s.t_samp, s.ns);
    auto u = signal<K::Keys, float>(a, s, s.g, s.t_sig, s.ns), v = signal<K::Keys, float>(b, s, s.g, s.t_sig, s.ns);
    for(std::size_t k = 0; k < s.ns; k++) VH_CHECK(std::fabs(u[k] - v[k]) <= eps * (1 + std::fabs(v[k])) + 0.1 * e.tol[k], "signal", "sample ", k, " is ", u[k], " with and ", v[k], " without the hint");
    c.count("samples_compared", s.ns);
    chunk_t out(U(I3{1, 1, 1}));
    keep = r; fill_request<K::Keys>(c, m, a, s.cs, out, "export_with"); c.rng = keep; fill_request<K::Keys>(c, m, b, s.cs, out, "export_without");
    c.desc << " nulls " << nulls; c.nontrivial = nulls > 0;
  }

  Reg r11("C11", [](Ctx& c) { if(c.rng.chance(0.3)) c11_case<K::Linear>(c); else c11_case<K::Keys>(c); });
  Reg r12("C12", c12_case);
  Reg r13("C13", c13_case);
  Reg r14("C14", c14_case);
  Reg r15("C15", c15_case);
  Reg r16("C16", [](Ctx& c) { if(c.rng.chance(0.35)) c16_case<K::Linear>(c); else c16_case<K::Keys>(c); });
  Reg r17("C17", [](Ctx& c) { if(c.rng.chance(0.25)) c17_case<K::Linear>(c); else c17_case<K::Keys>(c); });
  // ---------------------------------------------------------------- C28 (segments and Green's functions)

  void c28_case(Ctx& c) {
    Rng& r = c.rng;
    GFShape sh; sh.r0 = false; sh.nmax = {6, 6, 12};
    I3 cs = random_cs(r, {6, 6, 6});
    GFModel m = make_model(r, sh, cs);
    fs::path p = c.sub("gf"); build_gf(c, m, p, cs, 2, r.chance(0.5));
    auto content = [](const fs::path& d) { std::map<std::string, std::string> o; for(auto& e : fs::directory_iterator(d)) { std::ifstream f(e.path(), std::ios::binary); std::stringstream s; s << f.rdbuf(); o[e.path().filename().string()] = s.str(); } return o; };
    auto before = content(p);
    auto refused = [&](const char* what, auto&& fn) { bool t = false; try { fn(); } catch(const std::exception&) { t = true; } c.count(std::string("refused: ") + what); VH_CHECK(t, "accepted", what, " is not refused"); };
    for(int k = (int)r.range(1, 4); k > 0; k--) {
      int kind = (int)r.range(0, 3); c.desc << " " << kind;
      if(kind <= 1) {      // segments
	float x[6]; for(auto& v : x) v = (float)r.real(-20, 20);
	float t0 = (float)r.real(-10, 10), len = (float)(r.chance(0.4) ? 0.0 : r.real(0.001, 10)), q = (float)r.real(-2, 2);
	refused("a segment without duration", [&] { LineCurrentSegment(XYZCoordVector{x[0], x[1], x[2]}, XYZCoordVector{x[3], x[4], x[5]}, t0, t0 - len, q); });
	if(len > 0) {
	  LineCurrentSegment g(XYZCoordVector{x[0], x[1], x[2]}, XYZCoordVector{x[3], x[4], x[5]}, t0, t0 + len, q);
	  bool ok = g.start_time == t0 && g.end_time == t0 + len && g.charge == q;
	  for(int d = 0; d < 3; d++) ok = ok && g.start_pos[d] == x[d] && g.end_pos[d] == x[d + 3];
	  VH_CHECK(ok, "segment", "segment does not hold what it was constructed from");
	}
      }
      else {      // a Green's function that is not there, or not completely
	fs::path q = c.sub("bad"); fs::remove_all(q);
	int how = (int)r.range(0, 2);
	if(how != 0) {
	  fs::copy(p, q, fs::copy_options::recursive);
	  std::vector<fs::path> other; for(auto& e : fs::directory_iterator(q)) if(e.path().extension() != ".chunk" && e.path().filename().string().find("index") == std::string::npos) other.push_back(e.path());
	  VH_CHECK(other.size() == 1, "harness", "expected one file with metadata, found ", other.size());
	  if(how == 1) fs::remove(other[0]); else fs::resize_file(other[0], r.range(0, fs::file_size(other[0]) - 1));
	}
	const char* what = how == 0 ? "opening a Green's function that does not exist" : how == 1 ? "opening a Green's function without metadata" : "opening a Green's function with incomplete metadata";
	if(r.chance(0.5)) refused(what, [&] { CylindricalGreensFunction g(q, r.range(0, 3)); });
	else refused(what, [&] { SignalCalculator g(q, r.range(0, 3)); });
      }
      VH_CHECK(content(p) == before, "damage", "the stored Green's function has changed");
    }
    CylindricalGreensFunction gf(p, r.range(0, 3));
    chunk_t out(U(I3{1, 1, 1}));
    fill_request<K::Keys>(c, m, gf, cs, out, "after refused requests");
    c.nontrivial = true;
  }
  Reg r28("C28", c28_case);

  Reg r18("C18", c18_case);
  Reg r07("C07", c07_case);
  Reg r21("C21leak", [](Ctx& c) { int k = (int)c.rng.range(0, 3); check_no_growth(c, [k](Ctx& x) { if(k == 0) c12_case(x); else if(k == 1) c13_case(x); else if(k == 2) c16_case<K::Keys>(x); else c18_case(x); }); });
}

VH_MAIN
