// Shower model: profile files are generated, read back through ShowerCreator, and the points and tracks of the
// showers are compared with a direct evaluation in extended precision.
#include "vh.hh"
#include "Common.hh"
#include "Vector.hh"
#include "Current.hh"
#include "shower_1D.h"
#include "shower_creator.h"

using namespace vh;

namespace {

  // units: metre, nanosecond
  const double C0 = 0.299792458;

  struct Prof { int had; double energy; std::vector<double> g, q; };   // `g` in kg/m^2, as in the file

  struct Lib {
    std::vector<Prof> profs;
    void write(const fs::path& p) const {
      std::ofstream f(p, std::ios::binary);
      auto put = [&](const auto& v) { f.write((const char*)&v, sizeof(v)); };
      for(const Prof& x : profs) {
	put((std::int32_t)x.g.size()); put((std::int32_t)x.had); put(x.energy);
	for(double v : x.g) put(v);
	for(double v : x.q) put(v);
      }
    }
    std::vector<double> energies(int had) const { std::vector<double> e; for(const Prof& x : profs) if(x.had == had) e.push_back(x.energy); return e; }
    // profiles of this kind at this energy, in the order of the file
    std::vector<const Prof*> at(int had, double e) const { std::vector<const Prof*> o; for(const Prof& x : profs) if(x.had == had && x.energy == e) o.push_back(&x); return o; }
    // the closest energies (more than one if too close to tell)
    std::vector<double> closest(int had, double e) const {
      double best = 1e300; std::vector<double> out;
      for(double x : energies(had)) best = std::min(best, std::fabs(x - e));
      for(double x : energies(had)) if(std::fabs(x - e) <= best * (1 + 1e-12) && std::find(out.begin(), out.end(), x) == out.end()) out.push_back(x);
      return out;
    }
  };

  Lib make_lib(Rng& r) {
    Lib l;
    std::vector<double> en; for(int i = (int)r.range(1, 4); i > 0; i--) en.push_back(std::pow(10.0, r.chance(0.5) ? (double)r.irange(14, 19) : r.real(14, 19)));
    double len = r.real(0.5, 60);        // extent of the profiles in metres of ice
    for(int i = (int)r.range(1, 10); i > 0; i--) {
      Prof p; p.had = r.chance(0.5); p.energy = r.pick(en);
      std::size_t n = r.chance(0.15) ? r.range(1, 3) : r.range(2, 60);
      double g = r.chance(0.5) ? 0 : r.real(0, 50), scale = len * 917 / (double)n;
      for(std::size_t k = 0; k < n; k++) { if(k || g == 0) { if(k) g += scale * (r.chance(0.1) ? 0.01 : r.real(0.2, 1.8)); } p.g.push_back(g); p.q.push_back(r.chance(0.1) ? 0.0 : r.real(-0.2, 1) * std::pow(10.0, r.real(-12, -6))); }
      if(p.g.back() < 1) p.g.back() += r.real(1, len * 917);
      l.profs.push_back(p);
    }
    return l;
  }

  // charge excess after traversing `g` (kg/m^2)
  long double excess(const Prof& p, long double g) {
    if(g <= p.g[0]) return p.q[0];
    for(std::size_t k = 1; k < p.g.size(); k++) if(g <= p.g[k]) return p.q[k - 1] + ((long double)p.q[k] - p.q[k - 1]) * (g - p.g[k - 1]) / ((long double)p.g[k] - p.g[k - 1]);
    return p.q.back();
  }

  struct Pts { std::vector<double> t, x, y, z, ce; };

  // empty if the points are those of a shower with profile `p`, otherwise what is wrong
  std::string judge(Ctx& c, const Pts& o, const Prof& p, double energy, const std::array<float, 3>& pos, double ze, double az, double dt) {
    const double rho = 917;      // kg/m^3, the library's model of ice
    double ds = dt * C0, step = rho * ds, gmax = p.g.back();
    double lo = std::ceil(gmax / step * (1 - 1e-10)), hi = std::ceil(gmax / step * (1 + 1e-10));
    std::size_t n = o.t.size();
    if(o.x.size() != n || o.y.size() != n || o.z.size() != n || o.ce.size() != n) return "arrays of different length";
    if((double)n < lo || (double)n > hi) return cat("shower has ", n, " points, expected ", lo, " to ", hi);
    double dir[3] = {std::sin(ze) * std::cos(az), std::sin(ze) * std::sin(az), std::cos(ze)}, scale = energy / p.energy;
    double qmax = 0; for(double q : p.q) qmax = std::max(qmax, std::fabs(q));
    double far = 0; for(int d = 0; d < 3; d++) far = std::max(far, std::fabs((double)pos[(std::size_t)d])); far += (double)n * ds;
    for(std::size_t i = 0; i < n; i++) {
      double k = (double)i;
      const double* a[3] = {&o.x[i], &o.y[i], &o.z[i]};
      for(int d = 0; d < 3; d++) if(!(std::fabs(*a[d] - ((double)pos[(std::size_t)d] + k * ds * dir[d])) <= 1e-9 * far)) return cat("point ", i, " component ", d, " is ", *a[d], ", expected ", (double)pos[(std::size_t)d] + k * ds * dir[d]);
      if(!(std::fabs(o.t[i] - k * dt) <= 1e-9 * (double)n * dt)) return cat("point ", i, " is at time ", o.t[i], ", expected ", k * dt);
      long double g = (long double)step * i, v = excess(p, g), e = 1e-10L * gmax;
      long double tol = std::max(fabsl(excess(p, g + e) - v), fabsl(excess(p, g - e) - v)) + 1e-9L * qmax;
      if(!(fabsl(o.ce[i] - v * scale) <= tol * std::fabs(scale))) return cat("charge excess at point ", i, " of ", n, " is ", o.ce[i], ", expected ", (double)(v * scale));
    }
    c.count("points_compared", n);
    return "";
  }

  void c25_case(Ctx& c) {
    Rng& r = c.rng;
    Lib l = make_lib(r);
    fs::path file = c.sub("showers");
    l.write(file);
    showers::ShowerCreator cr(file.string());
    c.desc << l.profs.size() << " profiles";
    Pts reuse;
    std::vector<LineCurrentSegment> tracks;
    for(int q = (int)r.range(1, 5); q > 0; q--) {
      int had = r.chance(0.5);
      double e;
      auto en = l.energies(had);
      if(!en.empty() && r.chance(0.4)) e = r.pick(en);
      else if(en.size() > 1 && r.chance(0.3)) e = 0.5 * (r.pick(en) + r.pick(en)) * (r.chance(0.5) ? 1 : r.real(0.99, 1.01));
      else e = std::pow(10.0, r.real(13, 20));
      std::array<float, 3> pos{(float)r.real(-500, 500), (float)r.real(-500, 500), (float)r.real(-2000, 0)};
      if(r.chance(0.2)) pos = {0, 0, 0};
      double ze = r.chance(0.2) ? (double)r.irange(0, 2) * M_PI / 2 : r.real(0, M_PI), az = r.chance(0.2) ? (double)r.irange(-2, 2) * M_PI / 2 : r.real(-M_PI, 2 * M_PI);
      if(en.empty()) {
	bool t = false; try { cr.create_shower(pos, e, ze, az, had, 0); } catch(const std::exception&) { t = true; }
	VH_CHECK(t, "no_shower", "a shower was created from a file without showers of this type"); c.count("refused_type");
	continue;
      }
      auto cl = l.closest(had, e);
      std::vector<const Prof*> cand;
      int idx = -1;
      if(r.chance(0.3)) for(double x : cl) for(auto* p : l.at(had, x)) cand.push_back(p);          // any of them
      else {
	std::size_t nmin = 1000; for(double x : cl) nmin = std::min(nmin, l.at(had, x).size());
	idx = (int)r.range(0, nmin - 1);
	for(double x : cl) cand.push_back(l.at(had, x)[(std::size_t)idx]);
	if(r.chance(0.2) && cl.size() == 1) {
	  bool t = false; try { cr.create_shower(pos, e, ze, az, had, (int)nmin + (int)r.range(0, 3)); } catch(const std::exception&) { t = true; }
	  VH_CHECK(t, "bad_index", "a shower that is not in the file was created"); c.count("refused_index");
	}
      }
      double gmax = 0; for(auto* p : cand) gmax = std::max(gmax, p -> g.back());
      double dt = gmax / 917 / C0 / std::exp(r.real(0, std::log(c.idx < 200 ? 50.0 : 1500.0))) * 1.0000001;
      if(r.chance(0.3)) dt = std::ldexp(1.0, (int)r.irange(-4, 3));
      if(gmax / 917 / C0 / dt > 5000) continue;
      showers::Shower1D s = idx < 0 ? cr.create_shower(pos, e, ze, az, had) : cr.create_shower(pos, e, ze, az, had, idx);
      Pts fresh; Pts& o = r.chance(0.5) ? reuse : fresh;
      s.get_shower(dt, &o.t, &o.x, &o.y, &o.z, &o.ce);
      std::string why; const Prof* is = nullptr;
      for(auto* p : cand) { std::string w = judge(c, o, *p, e, pos, ze, az, dt); if(w.empty()) { is = p; break; } if(why.empty()) why = w; }
      VH_CHECK(is, idx < 0 ? "random_shower" : "shower", (idx < 0 ? "randomly selected shower matches none of the candidates: " : ""), why, "; type ", had, " energy ", e, " index ", idx, " dt ", dt, " candidates ", cand.size());
      c.count(idx < 0 ? "random_showers" : "showers");

      // tracks
      std::vector<LineCurrentSegment> mine; std::vector<LineCurrentSegment>& out = r.chance(0.5) ? tracks : mine;
      std::size_t before = out.size();
      std::vector<LineCurrentSegment> copy = out;
      s.fill_tracks(dt, out);
      std::size_t n = o.t.size();
      VH_CHECK(out.size() == before + n - 1, "track_count", "shower with ", n, " points gives ", out.size() - before, " tracks");
      auto same = [](const LineCurrentSegment& a, const LineCurrentSegment& b) { bool ok = a.start_time == b.start_time && a.end_time == b.end_time && a.charge == b.charge; for(int d = 0; d < 3; d++) ok = ok && a.start_pos[(std::size_t)d] == b.start_pos[(std::size_t)d] && a.end_pos[(std::size_t)d] == b.end_pos[(std::size_t)d]; return ok; };
      for(std::size_t i = 0; i < before; i++) VH_CHECK(same(out[i], copy[i]), "track_other", "adding tracks changed a track that was there before");
      double far = 0; for(int d = 0; d < 3; d++) far = std::max(far, std::fabs((double)pos[(std::size_t)d])); far = far / C0 + (double)n * dt;
      for(std::size_t i = 0; i + 1 < n; i++) {
	const LineCurrentSegment& g = out[before + i];
	double pts[2][3] = {{o.x[i], o.y[i], o.z[i]}, {o.x[i + 1], o.y[i + 1], o.z[i + 1]}}, len = 0;
	for(std::size_t d = 0; d < 3; d++) {
	  VH_CHECK(std::fabs((double)g.start_pos[d] - pts[0][d] / C0) <= 4e-7 * far && std::fabs((double)g.end_pos[d] - pts[1][d] / C0) <= 4e-7 * far, "track_position", "track ", i, " from ", g.start_pos[d], " to ", g.end_pos[d], ", expected ", pts[0][d] / C0, " to ", pts[1][d] / C0);
	  if(i) VH_CHECK(g.start_pos[d] == out[before + i - 1].end_pos[d], "track_gap", "track ", i, " does not start where the previous one ends");
	  len += std::pow((double)g.end_pos[d] - (double)g.start_pos[d], 2);
	}
	len = std::sqrt(len);
	VH_CHECK(std::fabs(len - dt) <= 2e-6 * far, "track_speed", "track ", i, " has length ", len, " for a duration of ", dt);
	VH_CHECK(std::fabs((double)g.start_time - o.t[i]) <= 2e-7 * (double)n * dt && std::fabs((double)g.end_time - o.t[i + 1]) <= 2e-7 * (double)n * dt, "track_time", "track ", i, " from ", g.start_time, " to ", g.end_time);
	if(i) VH_CHECK(g.start_time == out[before + i - 1].end_time, "track_gap", "track ", i, " does not start when the previous one ends");
	VH_CHECK(std::fabs((double)g.charge - o.ce[i]) <= 2e-7 * std::fabs(o.ce[i]) + 1e-35, "track_charge", "track ", i, " has charge ", g.charge, ", expected ", o.ce[i]);
      }
      c.count("tracks_compared", n - 1); c.nontrivial = c.nontrivial || n > 2;
      c.desc << "; type " << had << " e " << e << " of " << cand.size() << " dt " << dt << " n " << n;
    }
    // files that are not there or incomplete
    if(r.chance(0.15)) {
      fs::path bad = c.sub("bad"); std::string what = "a missing";
      if(r.chance(0.7)) { fs::copy(file, bad); std::size_t last = 16 + 16 * l.profs.back().g.size(); fs::resize_file(bad, fs::file_size(bad) - r.range(1, last - 4)); what = "an incomplete"; }
      bool t = false; try { showers::ShowerCreator x(bad.string()); } catch(const std::exception&) { t = true; }
      VH_CHECK(t, "bad_file", what, " file is accepted"); c.count("refused_file");
    }
  }
  Reg r25("C25", c25_case);
}

VH_MAIN
