// The interface for the air-shower simulation: its shared library is linked as it is, and every call is compared with the
// reference model of the line integral and with the core called directly.
#define VH_FILL_NEW
#include "gfm.hh"
#include "Eisvogel/C8SignalCalculator.hh"

#include <iostream>

using namespace ev;

namespace {

  using KK = K::Linear;

  struct Quiet {      // the interface prints a splash screen
    std::stringstream s; std::streambuf* o;
    Quiet() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); }
  };

  void c27_case(Ctx& c) {
    Rng& r = c.rng;
    SigSetup s = sig_setup(c, r.chance(0.5), r.chance(0.3));
    GFModel& m = s.m;
    long ov = r.chance(0.7) ? 1 : 2;
    fs::path p = c.sub("gf"); build_gf(c, m, p, s.cs, ov, r.chance(0.5));
    std::size_t depth = r.range(0, 6);
    std::unique_ptr<C8SignalCalculator> i8, j8;
    { Quiet q; i8 = r.chance(0.3) ? std::make_unique<C8SignalCalculator>(p) : std::make_unique<C8SignalCalculator>(p, depth); if(r.chance(0.3)) j8 = std::make_unique<C8SignalCalculator>(p, 1); }
    CylindricalGreensFunction gf(p, r.range(0, 5));
    c.desc << " ov " << ov << " depth " << depth << (j8 ? " two" : "");
    std::array<float, 3> ant{1, 2, 3}; i8 -> get_antenna_location(ant);
    VH_CHECK(ant[0] == 0 && ant[1] == 0 && ant[2] == 0, "antenna", "antenna is reported at ", ant[0], " ", ant[1], " ", ant[2]);

    int tracks = (int)r.range(1, 6);
    std::size_t ns = s.ns;
    std::vector<double> v(ns), core(ns); for(std::size_t k = 0; k < ns; k++) core[k] = v[k] = r.chance(0.5) ? 0.0 : r.real(-2, 2) * (r.chance(0.2) ? 1e6 : 1);
    Expect sum; sum.v = v; sum.tol.assign(ns, 0); sum.dom.assign(ns, 0);
    for(std::size_t k = 0; k < ns; k++) sum.tol[k] = 0;
    for(int q = 0; q < tracks; q++) {
      Seg g = s.g;
      if(q > 0 || r.chance(0.3)) {
	double T = s.dyadic ? 0.5 * (double)r.irange(1, 40) : r.real(0.02, 25); if(!s.dyadic) { double f = T - std::floor(T); if(f < 0.01) T += 0.02; if(f > 0.99) T -= 0.02; }
	g = random_segment(r, m, T, (double)s.g.t0 + (s.dyadic ? 0.25 * (double)r.irange(-20, 20) : r.real(-5, 5)));
	if(r.chance(0.3)) {      // leaves the domain
	  int d = (int)r.range(0, 2); double e = (d == 2 ? (double)m.n[1] * (double)m.dt[1] : (double)m.n[0] * (double)m.dt[0]) * r.real(1.1, 4);
	  if(r.chance(0.5)) g.p1[d] += (float)(r.chance(0.5) ? e : -e); else g.p0[d] += (float)(r.chance(0.5) ? e : -e);
	  c.count("tracks_leaving");
	}
      }
      float w = r.chance(0.4) ? 1.0f : r.chance(0.1) ? 0.0f : (float)r.real(-50, 50);
      std::array<float, 4> a{g.p0[0], g.p0[1], g.p0[2], g.t0}, b{g.p1[0], g.p1[1], g.p1[2], g.t1};
      auto& use = j8 && r.chance(0.5) ? j8 : i8;
      if(w == 1.0f && r.chance(0.5)) use -> calculate(a, b, g.q, s.t_sig, s.t_samp, ns, v); else use -> calculate(a, b, g.q, s.t_sig, s.t_samp, ns, v, w);
      VH_CHECK(v.size() == ns, "size", "the output has ", v.size(), " samples, expected ", ns);
      std::vector<double> before = core;
      gf.apply_accumulate<KK, double>(g.seg(), s.t_sig, s.t_samp, ns, core, Green::OutOfBoundsBehavior::Ignore, w);
      Expect e = reference_signal<KK>(m, g, s.t_sig, s.t_samp, ns, w);
      for(std::size_t k = 0; k < ns; k++) {
	sum.v[k] += e.v[k]; sum.tol[k] += e.tol[k] + 2e-6 * std::fabs(e.v[k]) + 1e-13 * std::fabs(sum.v[k]); sum.dom[k] |= e.dom[k];
	VH_CHECK(std::fabs(v[k] - core[k]) <= 1e-2 * e.tol[k] + 1e-6 * std::fabs(core[k] - before[k]) + 1e-13 * std::fabs(core[k]), "core", "sample ", k, " after track ", q, " ", g, " weight ", w, " is ", v[k], ", the core gives ", core[k]);
	if(sum.dom[k] & 2) { c.count("borderline_samples"); continue; }
	VH_CHECK(std::fabs(v[k] - sum.v[k]) <= sum.tol[k], "reference", "sample ", k, " after track ", q, " ", g, " weight ", w, " is ", v[k], ", expected ", sum.v[k], " +- ", sum.tol[k]);
	c.count("samples_compared");
      }
      core = v;       // differences are judged track by track
      c.count("tracks");
    }
    for(double x : v) c.outv(x);
    c.sig = mix(hash_str(c.desc.str())); c.nontrivial = tracks > 1;
  }
  Reg r27("C27", c27_case);
}

VH_MAIN
