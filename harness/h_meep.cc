// The field simulation driver, the antenna and the geometry, with a stand-in for the simulation package (meepstub/meep.hpp) that
// provides the field values.  Several simulation processes are real processes, synchronised where the driver asks for it.
#define VH_FILL_NEW
#include "ev.hh"
#include <meep.hpp>
#include "Symmetry.hh"
#include "GreensFunction.hh"
#include "MEEPCylindricalGreensFunctionCalculator.hh"
#include "Eisvogel/C8GreensFunctionCalculator.hh"

#include <sys/prctl.h>

using namespace ev;
using meepstub::World;

namespace {

  using Driver = GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator;

  struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
  struct Silence { NullBuf b; std::streambuf* o; Silence() : o(std::cout.rdbuf(&b)) { } ~Silence() { std::cout.rdbuf(o); } };

  // history of the field at every cell: quiet until a wave arrives, then values over many orders of magnitude
  struct Truth {
    std::uint64_t seed; int profile; long arrive; double range;
    double amp(int z, int r, long s) const {
      std::uint64_t h = mix(seed ^ mix((std::uint64_t)z * 1000003u + (std::uint64_t)r));
      long s0 = profile == 0 ? 0 : profile == 1 ? (long)(h % (std::uint64_t)(arrive + 1)) : (z + r) * arrive / 12;
      if(profile == 3 && ((z / 3 + r / 3) & 1)) return 0;
      if(s < s0) return profile == 4 ? 1e-25 : 0;
      double u = (double)(mix(h ^ mix((std::uint64_t)s)) >> 11) / 9007199254740992.0;
      return std::pow(10.0, range * (u - 0.7));
    }
    double operator()(bool zc, int z, int r, long s) const {
      double a = amp(z, r, s);
      double u = (double)(mix(seed ^ mix(((std::uint64_t)z << 40) ^ ((std::uint64_t)r << 20) ^ (std::uint64_t)s * 2 + zc)) >> 11) / 9007199254740992.0;
      return a * (2 * u - 1);
    }
    double mag(int z, int r, long s) const { double a = (*this)(false, z, r, s), b = (*this)(true, z, r, s); return std::sqrt(a * a + b * b); }
  };

  std::vector<meepstub::ChunkDef> split(Rng& r, int nz, int nr, int procs, int mode) {
    std::vector<meepstub::ChunkDef> todo{{0, nz, 0, nr, 0}}, out;
    int target = mode == 0 ? 1 : (int)r.range(1, 12);
    while((int)todo.size() < target) {
      std::size_t i = r.range(0, todo.size() - 1); auto c = todo[i];
      bool alongz = r.chance(0.5);
      int len = alongz ? c.z1 - c.z0 : c.r1 - c.r0;
      if(len < 2) { if(--target < 1) break; continue; }
      int at = (int)r.range(1, (std::size_t)len - 1);
      auto d = c;
      if(alongz) { c.z1 = c.z0 + at; d.z0 = c.z1; } else { c.r1 = c.r0 + at; d.r0 = c.r1; }
      todo[i] = c; todo.push_back(d);
    }
    r.shuffle(todo);
    for(std::size_t i = 0; i < todo.size(); i++) todo[i].owner = mode == 1 ? 0 : (int)r.range(0, (std::size_t)procs - 1);
    return todo;
  }

  struct Setup {
    int nr, nz; double res; float r_max, z_min, z_max, t_end, z_ant; bool sub; float rr0, rr1, zz0, zz1;
    double courant, timestep; std::size_t ds, ov, chunk, depth, calc_t, calc_l; float dyn, absmin; int procs, how; bool exact;
  };

  struct Refused { };      // the volume is refused because its extent would have to be rounded

  // runs the driver in `procs` processes; throws if one of them fails
  void simulate(Ctx& c, const Setup& s, World& w, const std::function<void()>& run) {
    meepstub::world_ptr() = &w;
    w.size = s.procs; w.rank = 0;
    std::vector<pid_t> kids;
    void* mem = nullptr;
    if(s.procs > 1) {
      mem = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      w.shared = new(mem) meepstub::Shared;
      pid_t parent = getpid();
      for(int k = 1; k < s.procs; k++) {
	pid_t p = fork();
	if(p == 0) {
	  prctl(PR_SET_PDEATHSIG, SIGKILL); if(getppid() != parent) _exit(9);
	  w.rank = k; int code = 0;
	  try { run(); } catch(const meepstub::Aborted&) { code = 4; } catch(const std::exception& e) { fprintf(stderr, "process %d: %s\n", k, e.what()); code = 3; }
	  if(code) w.shared -> failed = 1;
	  _exit(code);
	}
	kids.push_back(p);
      }
    }
    std::string bad; std::vector<char> done(kids.size(), 0);
    auto reap = [&](bool block) {
      for(std::size_t i = 0; i < kids.size(); i++) if(!done[i]) {
	int st = 0; if(waitpid(kids[i], &st, block ? 0 : WNOHANG) != kids[i]) continue;
	done[i] = 1;
	if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) { w.shared -> failed = 1; if(bad.empty() || (WIFEXITED(st) && WEXITSTATUS(st) == 3)) bad = WIFSIGNALED(st) ? cat("process ", i + 1, " was killed by signal ", WTERMSIG(st)) : cat("process ", i + 1, " ended with status ", WEXITSTATUS(st)); }
      }
    };
    w.poll = [&] { reap(false); };
    std::string err;
    try { run(); } catch(const meepstub::Aborted&) { err = "aborted"; } catch(const std::exception& e) { err = e.what(); if(w.shared) w.shared -> failed = 1; }
    reap(true);
    w.poll = nullptr; w.shared = nullptr; if(mem) munmap(mem, 4096);
    if(!s.exact && err.find("rounding") != std::string::npos) throw Refused();
    VH_CHECK(bad.empty(), "process", bad, " ", err);
    VH_CHECK(err.empty(), "driver", "the driver failed: ", err);
    c.count("simulations"); c.count("processes", (std::uint64_t)s.procs); c.count("barriers", (std::uint64_t)w.barriers);
  }

  Setup random_setup(Ctx& c, int procs = 0) {
    Rng& r = c.rng; Setup s;
    static const double ress[] = {1, 2, 4, 8, 10, 28, 0.5, 5};
    s.res = ress[r.range(0, 7)];
    s.nr = (int)r.range(4, 18); s.nz = (int)r.range(2, 20);
    s.exact = procs || !r.chance(0.1);        // the extent of the volume is a whole number of cells, in single precision
    if(s.exact && s.res > 8) { s.nr = (int)s.res; s.nz = (int)s.res; }
    if(s.exact && s.res == 5) { s.nr = 5 * (int)r.range(1, 3); s.nz = 5 * (int)r.range(1, 3); }
    s.r_max = (float)(s.nr / s.res);
    s.z_min = (float)((double)r.irange(-40, 10) / (s.exact && s.res >= 5 && s.res != 8 ? 1 : s.res)); if(r.chance(0.3)) s.z_min = 0; if(r.chance(0.2)) s.z_min = (float)r.irange(-300, 10);
    s.z_max = (float)((double)s.z_min + s.nz / s.res);
    s.sub = r.chance(0.6); s.rr0 = 0; s.rr1 = s.r_max; s.zz0 = s.z_min; s.zz1 = s.z_max;
    s.ds = r.chance(0.4) ? 1 : r.range(2, 4);
    s.ov = r.range(0, 3);
    if(s.sub) {
      auto part = [&](int n, int minlen, double lo, float& a, float& b) {
	int len = (int)r.irange(std::min(n, minlen), n), at = (int)r.irange(0, n - len);
	a = (float)(lo + at / s.res); b = (float)(lo + (at + len) / s.res);
	if(r.chance(0.3)) { a = (float)(lo + (at + (at + len < n ? r.real(0, 0.9) : 0.0)) / s.res); b = (float)((double)a + len / s.res); }
      };
      // enough radial samples for the overlap to be mirrored at the axis
      part(s.nr, (int)(s.ds * (s.ov + 1)) + 2, 0, s.rr0, s.rr1); part(s.nz, 3, (double)s.z_min, s.zz0, s.zz1);
      s.rr1 = std::min(s.rr1, s.r_max); s.zz1 = std::min(s.zz1, s.z_max); s.zz0 = std::max(s.zz0, s.z_min);
    }
    while(s.ds > 1 && ((double)s.rr1 - (double)s.rr0) * s.res < (double)(s.ds * (s.ov + 1) + 2)) s.ds--;
    while(s.ov > 0 && ((double)s.rr1 - (double)s.rr0) * s.res < (double)(s.ds * (s.ov + 1) + 2)) s.ov--;
    s.courant = r.chance(0.6) ? 0.5 : r.real(0.2, 0.5);
    static const double tss[] = {0.1, 0.25, 0.5, 1, 2, 0.3, 0.7};
    s.timestep = r.chance(0.8) ? tss[r.range(0, 6)] : r.real(0.05, 2);
    long nt = r.irange(1, r.chance(0.1) ? 40 : 14);
    s.t_end = (float)((double)nt * s.timestep + (r.chance(0.4) ? r.real(0, 0.9) * s.timestep : 0));
    while(s.t_end * s.res / s.courant > 3000) { s.res /= 2; s.r_max *= 2; s.rr0 *= 2; s.rr1 *= 2; s.z_min *= 2; s.z_max *= 2; s.zz0 *= 2; s.zz1 *= 2; }
    s.z_ant = (float)r.real((double)s.z_min, (double)s.z_max);
    s.chunk = r.chance(0.2) ? 800 : r.range(1, 9); s.depth = r.range(0, 5); s.calc_t = r.chance(0.2) ? 800 : r.range(1, 6); s.calc_l = r.chance(0.2) ? 800 : r.range(1, 9);
    s.dyn = r.chance(0.3) ? 1e30f : r.chance(0.5) ? 100.0f : (float)std::pow(10.0, r.real(0, 4));
    s.absmin = r.chance(0.5) ? 1e-20f : (float)std::pow(10.0, r.real(-6, 0));
    s.procs = procs ? procs : r.chance(0.45) ? 1 : (int)r.range(2, 5);
    s.how = s.sub ? 0 : (int)r.range(0, 1);
    c.desc << "nz " << s.nz << " nr " << s.nr << " res " << s.res << " z " << s.z_min << ".." << s.z_max << " r " << s.r_max << " stored r " << s.rr0 << ".." << s.rr1 << " z " << s.zz0 << ".." << s.zz1
	   << " t_end " << s.t_end << " step " << s.timestep << " courant " << s.courant << " ds " << s.ds << " ov " << s.ov << " chunk " << s.chunk << " depth " << s.depth << " calc " << s.calc_t << "," << s.calc_l
	   << " dyn " << s.dyn << " min " << s.absmin << " procs " << s.procs << (s.how ? " interface" : "");
    return s;
  }

  void calculate(Ctx& c, const Setup& s, World& w, const fs::path& out, std::function<float(float, float)> eps, std::function<float(float)> imp) {
    fs::path loc = c.sub("local"), glob = c.sub("global"); fs::create_directories(glob);
    Rng r(c.rng.next());
    bool shared = r.chance(0.3), fresh = r.chance(0.3);      // one local working directory for all processes; one that does not exist yet
    if(!fresh || s.procs > 1) fs::create_directories(loc);
    if(r.chance(0.3)) {
      // what an interrupted run has left behind
      auto stale = [&](const fs::path& d) {
	fs::create_directories(d);
	if(r.chance(0.3)) return;
	if(r.chance(0.3)) { std::ofstream(d / "0123456789abcdef.chunk") << "stale"; return; }
	I3 b{0, 0, 0}, e{(long)r.range(1, 4), (long)r.range(1, 4), (long)r.range(1, 4)}; if(r.chance(0.5)) b = e;
	darr_t a(d, r.range(0, 2), ind_t((std::size_t)1), streamer_shape());
	a.RegisterChunk(make_arr(e, [](I3) { return F2{7.5f, -7.5f}; }), U(b));
      };
      fs::path g = glob / "eisvogel.global"; fs::create_directories(g);
      for(int k = 0; k < 6; k++) if(r.chance(0.6)) stale(g / cat("calc_job_", k));
      if(r.chance(0.6)) stale(g / "merge");
      for(int k = 0; k < 12; k++) if(r.chance(0.6)) stale(g / cat("rechunk_job_", k));
      if(r.chance(0.3)) stale(g);
      if(fs::exists(loc)) for(int k = 0; k < 2; k++) if(r.chance(0.5)) stale(loc / cat("eisvogel.left0", k));
      c.count("runs_with_leftovers"); c.desc << " leftovers";
    }
    auto entries = [](const fs::path& d) { long n = 0; if(fs::exists(d)) for(auto& e : fs::recursive_directory_iterator(d)) n += e.is_regular_file(); return n; };
    long before = entries(loc);
    simulate(c, s, w, [&] {
      Silence q;
      fs::path l = s.procs > 1 && !shared ? loc / std::to_string(w.rank) : loc; if(!fresh) fs::create_directories(l);
      if(s.how == 1) {
	char* argv[] = {nullptr};
	C8CylindricalGreensFunctionCalculator d(0, argv);
	d.calculate(s.r_max, s.z_min, s.z_max, s.z_ant, s.t_end, eps, imp, out, l, glob, s.courant, s.res, s.timestep, 1.0, s.ds, s.dyn, s.absmin, s.ov, s.chunk, s.depth);
      }
      else {
	CylinderGeometry geom(s.r_max, s.z_min, s.z_max, eps);
	InfEDipoleAntenna ant(0.0, s.t_end, s.z_ant, imp);
	std::unique_ptr<Driver> d = s.sub ? std::make_unique<Driver>(geom, CylinderRegion(s.rr0, s.rr1, s.zz0, s.zz1), ant, s.t_end) : std::make_unique<Driver>(geom, ant, s.t_end);
	d -> Calculate(out, l, glob, s.courant, s.res, s.timestep, 1.0, s.ds, s.dyn, s.absmin, s.ov, s.chunk, s.depth, s.calc_t, s.calc_l);
      }
    });
    long now = entries(loc);
    VH_CHECK(now <= before, "left_behind", "the driver leaves ", now - before, " files behind in its local working directory");
    VH_CHECK(fs::is_empty(glob), "left_behind", "the driver leaves files behind in its global working directory");
  }

  World make_world(Ctx& c, const Setup& s, std::shared_ptr<Truth> f) {
    Rng& r = c.rng; World w;
    std::uint64_t ds = r.next(); int mode = (int)r.range(0, 5); bool slow = s.procs > 1 && r.chance(0.5);
    int procs = s.procs;
    w.decompose = [ds, mode, procs](int nz, int nr) { Rng q(ds); return split(q, nz, nr, procs, mode); };      // the same in all processes
    w.field = [f](bool zc, int z, int rr, long st) { return std::complex<double>((*f)(zc, z, rr, st), 17.0 + z); };
    if(slow) { auto q = std::make_shared<Rng>(0); w.delay = [q, ds]() -> unsigned { if(!q -> s) q -> s = ds + (std::uint64_t)meepstub::world().rank * 977 + 1; return q -> chance(0.3) ? (unsigned)q -> range(0, 3000) : 0; }; }
    c.desc << " mode " << mode << (slow ? " delays" : "");
    return w;
  }

  // ---------------------------------------------------------------- C26

  // the grid spacing that is advertised in the metadata file
  RZTCoordVector spacing_of(const fs::path& dir) {
    for(auto& e : fs::directory_iterator(dir)) if(e.path().extension() != ".chunk" && e.path().filename().string().find("index") == std::string::npos) {
      std::fstream f(e.path(), std::ios::in | std::ios::binary);
      return stor::Traits<CylindricalGreensFunctionMetadata>::deserialize(f).sample_interval_rzt;
    }
    vh::fail("metadata", "the Green's function has no metadata");
  }

  void c26_case(Ctx& c) {
    Rng& r = c.rng;
    Setup s = random_setup(c);
    auto f = std::make_shared<Truth>(Truth{r.next(), (int)r.range(0, 4), r.irange(0, 30), r.chance(0.5) ? 1.0 : r.real(1, 6)});
    World w = make_world(c, s, f);
    fs::path out = c.sub("gf");
    if(r.chance(0.2)) fs::create_directories(out);
    try { calculate(c, s, w, out, [](float, float) { return 1.5f; }, [](float) { return 1.0f; }); }
    catch(const Refused&) { c.count("refused_volumes"); return; }
    VH_CHECK(w.nz == s.nz && w.nr == s.nr && w.a == s.res && w.courant == s.courant, "volume", "the simulation is asked for a volume of ", w.nz, " x ", w.nr, " cells at resolution ", w.a);

    CylindricalGreensFunction gf(out, r.range(0, 4));
    RZTCoordVector a = gf.start_coords(), b = gf.end_coords(), dt = spacing_of(out);
    double dtm = s.courant / s.res;
    I3 n;
    {
      Probe p(out, 2);
      I3 cb{0, 0, 0}; n = {0, 0, 0}; long covered = 0;
      auto chunks = p.all();
      for(const auto& m : chunks) { I3 e = L(m.end_ind); for(int d = 0; d < 3; d++) n[d] = std::max(n[d], e[d]); covered += vol(e - L(m.start_ind)); }
      VH_CHECK(covered == vol(n) && covered > 0, "coverage", "the chunks cover ", covered, " elements of an array of shape ", n);
      (void)cb;
      // advertised coordinates
      double eps = 1e-4;
      double v0[2]; float reg[2][2] = {{s.rr0, s.rr1}, {s.zz0, s.zz1}}; double lo[2] = {0, (double)s.z_min}; int cells[2] = {s.nr, s.nz};
      for(int d = 0; d < 2; d++) {
	double tol = eps + 1e-6 * std::fabs(lo[d]) * s.res * 4;
	double st = ((double)a[(std::size_t)d] - lo[d]) * s.res, en = ((double)b[(std::size_t)d] - lo[d]) * s.res, sp = (double)dt[(std::size_t)d] * s.res;
	double want0 = ((double)reg[d][0] - lo[d]) * s.res, want1 = ((double)reg[d][1] - lo[d]) * s.res;
	v0[d] = std::round(st);
	VH_CHECK(std::fabs(st - v0[d]) <= tol, "grid", "grid along axis ", d, " starts at cell ", st);
	VH_CHECK(st <= want0 + tol && st >= want0 - 1 - tol && en <= want1 + 1 + tol && en >= want1 - 1 - tol - (want0 - st), "region", "stored region covers cells ", st, " to ", en, " along axis ", d, ", requested ", want0, " to ", want1);
	VH_CHECK(std::fabs(sp - (double)s.ds) <= 1e-5 * (double)s.ds, "spacing", "grid along axis ", d, " has a spacing of ", sp, " cells, simulated samples are ", s.ds, " apart");
	VH_CHECK((double)n[d] * sp >= en - st - tol && (double)(n[d] - 1) * sp < en - st + tol, "extent", "grid along axis ", d, " has ", n[d], " samples ", sp, " cells apart for a region of ", en - st, " cells");
	VH_CHECK(v0[d] + (double)(n[d] - 1) * (double)s.ds < cells[d], "extent", "grid along axis ", d, " extends beyond the simulation");
      }
      VH_CHECK((double)a[2] == 0 && std::fabs((double)b[2] - (double)s.t_end) <= 1e-6 * (double)s.t_end, "time", "times from ", a[2], " to ", b[2]);
      VH_CHECK(std::fabs((double)dt[2] - s.timestep) <= 1e-5 * s.timestep, "time_spacing", "advertised time step ", dt[2], ", samples are stored every ", s.timestep);
      double ntd = (double)s.t_end / s.timestep;
      VH_CHECK((double)n[2] >= std::floor(ntd - 1e-4) + 1 && (double)n[2] <= std::floor(ntd + 1e-4) + 1, "time_extent", n[2], " time samples for a duration of ", ntd, " time steps");

      // step of the simulation that a stored time index shows: the first one not before its time, up to rounding
      auto steps = [&](long k) { double x = (double)k * s.timestep / dtm; long lo2 = (long)std::ceil(x - 1e-6), hi2 = (long)std::ceil(x + 1e-6); return std::pair<long, long>(std::max(0l, lo2), std::max(0l, hi2)); };
      double big = 1 + 1e-5;
      // largest field seen so far, at a cell and in its neighbourhood
      std::vector<double> own((std::size_t)(s.nz * s.nr), 0), nb(own);
      auto at = [&](std::vector<double>& v, int z, int rr) -> double& { return v[(std::size_t)(z * s.nr + rr)]; };
      std::vector<std::pair<long, long>> seq; for(long k = 0; k < n[2]; k++) seq.push_back(steps(k));
      std::vector<std::vector<double>> ownT, nbT;
      for(long k = 0; k < n[2]; k++) {
	for(int z = 0; z < s.nz; z++) for(int q = 0; q < s.nr; q++) at(own, z, q) = std::max({at(own, z, q), f -> mag(z, q, seq[(std::size_t)k].first)});
	for(int z = 0; z < s.nz; z++) for(int q = 0; q < s.nr; q++) { double m = 0; for(int dz = -1; dz <= 1; dz++) for(int dq = -1; dq <= 1; dq++) if(z + dz >= 0 && z + dz < s.nz && q + dq >= 0 && q + dq < s.nr) m = std::max({m, at(own, z + dz, q + dq), f -> mag(z + dz, q + dq, seq[(std::size_t)k].second)}); at(nb, z, q) = m; }
	ownT.push_back(own); nbT.push_back(nb);
      }
      long zeros = 0, values = 0, beyond = 0;
      auto judge = [&](I3 i, F2 x, const char* key) {
	int q = (int)v0[0] + (int)(i[0] * (long)s.ds), z = (int)v0[1] + (int)(i[1] * (long)s.ds); long k = i[2];
	double o = ownT[(std::size_t)k][(std::size_t)(z * s.nr + q)], m = nbT[(std::size_t)k][(std::size_t)(z * s.nr + q)];
	bool ok = false; F2 want{};
	for(long st = seq[(std::size_t)k].first; st <= seq[(std::size_t)k].second && !ok; st++) {
	  want = F2{(float)(*f)(false, z, q, st), (float)(*f)(true, z, q, st)};
	  double mag = f -> mag(z, q, st);
	  bool same = x == want;
	  bool may = mag <= m / (double)s.dyn * big || o <= (double)s.absmin * big;
	  bool must = mag * big < o / (double)s.dyn || m * big < (double)s.absmin;
	  if(same && (!must || (x.a == 0 && x.b == 0))) ok = true;
	  if(x.a == 0 && x.b == 0 && may) ok = true;
	}
	VH_CHECK(ok, key, "sample ", i, " of ", n, " is ", x, ", simulated in cell z ", z, " r ", q, " at step ", seq[(std::size_t)k].first, ": ", want, ", largest so far ", o, " (neighbourhood ", m, ")");
	if(x.a == 0 && x.b == 0) zeros++; else values++;
      };
      for(const auto& m : chunks) {
	I3 cb2 = L(m.start_ind), ce = L(m.end_ind), O{(long)s.ov, (long)s.ov, (long)s.ov};
	VH_CHECK((std::size_t)m.overlap == s.ov, "overlap", "chunk with overlap ", m.overlap, ", requested ", s.ov);
	for(int d = 0; d < 3; d++) VH_CHECK(ce[d] - cb2[d] <= (long)s.chunk, "chunk_shape", "chunk ", cb2, ce, " is larger than requested");
	arr_t data = p.data(cb2);
	each(cb2 - O, ce + O, [&](I3 i) {
	  F2 x = get(data, i - cb2 + O);
	  bool in = true; for(int d = 0; d < 3; d++) if(i[d] < 0 || i[d] >= n[d]) in = false;
	  if(in) { judge(i, x, "value"); c.outv(x); return; }
	  // beyond the stored region: simulated values, where there are any
	  long q = (long)v0[0] + i[0] * (long)s.ds, z = (long)v0[1] + i[1] * (long)s.ds;
	  if(i[2] < 0 || i[2] >= n[2]) { VH_CHECK(x.a == 0 && x.b == 0, "beyond_time", "overlap at ", i, " of ", n, " is ", x); return; }
	  long endr = (long)std::round(((double)b[0] - lo[0]) * s.res), endz = (long)std::round(((double)b[1] - lo[1]) * s.res);
	  long postr = std::min<long>((s.nr - endr) / (long)s.ds, (long)s.ov), postz = std::min<long>((s.nz - endz) / (long)s.ds, (long)s.ov);
	  if(q < 0 || z < 0 || i[0] >= n[0] + postr || i[1] >= n[1] + postz) return;
	  judge(i, x, "padding"); beyond++;
	});
      }
      c.count("samples_compared", (std::uint64_t)(zeros + values)); c.count("truncated_samples", (std::uint64_t)zeros); c.count("samples_beyond_region", (std::uint64_t)beyond);
      c.nontrivial = values > 0 && chunks.size() > 1;
    }
    c.sig = mix(hash_str(c.desc.str()));
  }
  Reg r26("C26", c26_case);

  // ---------------------------------------------------------------- C29

  void c29_case(Ctx& c) {
    Rng& r = c.rng;
    auto wide = [&](double lo, double hi) { return (float)(r.chance(0.3) ? std::round(r.real(lo, hi)) : r.real(lo, hi)); };
    float r_max = wide(0.5, 500), z_min = wide(-1000, 200), z_max = z_min + wide(0.5, 1000);
    std::vector<std::pair<float, float>> seen;
    auto epsf = [&](float rr, float z) { seen.push_back({rr, z}); return 1.0f + 0.01f * rr - 0.003f * z; };
    CylinderGeometry g(r_max, z_min, z_max, epsf);
    c.desc << "r " << r_max << " z " << z_min << ".." << z_max;
    VH_CHECK(g.GetRMin() == 0 && g.GetRMax() == r_max && g.GetZMin() == z_min && g.GetZMax() == z_max && g.GetRSize() == r_max && std::fabs((double)g.GetZSize() - ((double)z_max - (double)z_min)) <= 1e-6 * std::max(std::fabs((double)z_min), std::fabs((double)z_max)),
	     "geometry", "geometry does not hold what it was constructed from");
    double sc = std::max({(double)r_max, std::fabs((double)z_min), std::fabs((double)z_max)});
    for(int q = 0; q < 20; q++) {
      double rr = r.chance(0.1) ? 0 : r.chance(0.1) ? (double)r_max : r.real(0, (double)r_max), z = r.chance(0.1) ? (double)z_min : r.chance(0.1) ? (double)z_max : r.real((double)z_min, (double)z_max);
      float fr = (float)rr, fz = (float)z;
      meep::vec m = g.toMeepCoords(RZCoordVector{fr, fz});
      VH_CHECK(std::fabs(m.r() - (double)fr) <= 1e-6 * sc && std::fabs(m.z() - ((double)fz - (double)z_min)) <= 1e-6 * sc, "to_simulation", "(", fr, ",", fz, ") is mapped to (", m.r(), ",", m.z(), ")");
      RZCoordVector back = g.toEisvogelCoords(m);
      VH_CHECK(std::fabs((double)back.r() - (double)fr) <= 1e-6 * sc && std::fabs((double)back.z() - (double)fz) <= 1e-6 * sc, "round_trip", "(", fr, ",", fz, ") comes back as (", back.r(), ",", back.z(), ")");
      meep::vec p = meep::veccyl(rr, z - (double)z_min);
      RZCoordVector e = g.toEisvogelCoords(p);
      VH_CHECK(std::fabs((double)e.r() - rr) <= 1e-6 * sc && std::fabs((double)e.z() - z) <= 1e-6 * sc, "from_simulation", "(", rr, ",", z, ") in the simulation is mapped to (", e.r(), ",", e.z(), ")");
      seen.clear();
      double v = r.chance(0.5) ? g.eps(p) : g.chi1p1(meep::E_stuff, p);
      VH_CHECK(seen.size() == 1 && std::fabs((double)seen[0].first - rr) <= 1e-6 * sc && std::fabs((double)seen[0].second - z) <= 1e-6 * sc, "permittivity", "permittivity at (", rr, ",", z, ") is taken from elsewhere");
      VH_CHECK(std::fabs(v - (1.0 + 0.01 * (double)seen[0].first - 0.003 * (double)seen[0].second)) <= 1e-5 * (1 + 0.02 * sc), "permittivity", "permittivity is ", v);
      c.count("positions");
    }
    for(int q = 0; q < 20; q++) {
      float x[4]; float rs[] = {0, r_max}, zs[] = {z_min, z_max};
      for(int k = 0; k < 2; k++) { x[k] = r.chance(0.4) ? rs[k] : wide(0, 1.3 * (double)r_max); x[2 + k] = r.chance(0.4) ? zs[k] : wide((double)z_min - 0.2 * (double)(z_max - z_min), (double)z_max + 0.2 * (double)(z_max - z_min)); }
      if(r.chance(0.2)) x[r.range(0, 1)] = std::nextafter(r_max, r.chance(0.5) ? 1e9f : -1e9f);
      if(r.chance(0.2)) { int k = (int)r.range(0, 1); x[2 + k] = std::nextafter(zs[k], r.chance(0.5) ? 1e9f : -1e9f); }
      if(x[0] > x[1]) std::swap(x[0], x[1]); if(x[2] > x[3]) std::swap(x[2], x[3]);
      CylinderRegion reg(x[0], x[1], x[2], x[3]);
      if(r.chance(0.3)) { reg = CylinderRegion(); reg.SetRegion(x[0], x[1], x[2], x[3]); }
      VH_CHECK(reg.GetRMin() == x[0] && reg.GetRMax() == x[1] && reg.GetZMin() == x[2] && reg.GetZMax() == x[3] && reg.IsEmpty() == (x[0] == x[1] || x[2] == x[3]), "region", "region does not hold what it was constructed from");
      bool in = x[0] >= 0 && x[1] <= r_max && x[2] >= z_min && x[3] <= z_max;
      VH_CHECK(g.contains(reg) == in, "contains", "region r ", x[0], "..", x[1], " z ", x[2], "..", x[3], " is ", in ? "" : "not ", "inside but reported otherwise");
      c.count(in ? "regions_inside" : "regions_outside");
    }
    // the antenna
    float t0 = r.chance(0.5) ? 0.0f : (float)r.real(-20, 20), t1 = t0 + (float)r.real(0.1, 50), za = (float)r.real((double)z_min, (double)z_max), scale = r.chance(0.3) ? 1.0f : (float)r.real(-20, 20);
    std::vector<float> asked;
    double ph = r.real(0, 6);
    auto imp = [&](float t) { asked.push_back(t); return (float)(std::sin((double)t + ph) + 0.3); };
    InfEDipoleAntenna ant(t0, t1, za, imp);
    if(scale != 1.0f) { if(r.chance(0.3)) ant.SetScaleFactor(77); ant.SetScaleFactor(scale); }
    std::unique_ptr<meep::src_time> cl(ant.clone());
    meep::src_time* src = r.chance(0.5) ? cl.get() : &ant;
    VH_CHECK(!src -> is_integrated && src -> last_time() == (double)t1, "antenna", "the antenna ends at ", src -> last_time());
    for(int q = 0; q < 30; q++) {
      double span = (double)t1 - (double)t0, t = r.chance(0.2) ? (double)t0 : r.chance(0.2) ? (double)t1 : r.real((double)t0 - span, (double)t1 + span);
      double e = 1e-6 * (std::fabs(t) + 1e-3);
      bool exact = (double)(float)t == t;
      if(!exact && (std::fabs(t - (double)t0) < e || std::fabs(t - (double)t1) < e)) continue;
      bool in = t >= (double)t0 && t <= (double)t1;
      std::complex<double> v = src -> current(t, 0.01);
      double want = in ? -(double)scale * (std::sin(t + ph) + 0.3) : 0;
      VH_CHECK(std::fabs(v.real() - want) <= 1e-5 * std::fabs((double)scale) * (1 + std::fabs(t) * 0.1) && v.imag() == 0, "current", "current at ", t, " in ", t0, "..", t1, " is ", v.real(), ", expected ", want);
      if(!in) VH_CHECK(v == std::complex<double>(0), "current_outside", "current at ", t, " outside of ", t0, "..", t1, " is ", v.real());
      c.count(in ? "currents_inside" : "currents_outside");
    }
    // placed in a simulation
    World w; meepstub::world_ptr() = &w; w.decompose = [](int nz, int nr) { return std::vector<meepstub::ChunkDef>{{0, nz, 0, nr, 0}}; };
    double res = (double)r.range(1, 30);
    meep::grid_volume gv = meep::volcyl((double)r_max, (double)z_max - (double)z_min, res);
    seen.clear();
    meep::structure st(gv, g, meep::pml(1.0), meep::identity(), 0, 0.5);
    for(auto& [pos, v] : w.eps) VH_CHECK(std::fabs(v - (1.0 + 0.01 * pos.first - 0.003 * (pos.second + (double)z_min))) <= 1e-5 * (1 + 0.02 * sc), "permittivity", "the simulation sees permittivity ", v, " at (", pos.first, ",", pos.second, ")");
    meep::fields f(&st);
    ant.AddToGeometry(f, g);
    VH_CHECK(w.sources.size() == 1 && w.sources[0].component == (int)meep::Ez, "source", "the antenna adds ", w.sources.size(), " sources");
    VH_CHECK(std::fabs(w.sources[0].z - ((double)za - (double)z_min)) <= 1e-6 * sc && std::fabs(w.sources[0].r - 1.5 / res) <= 1e-6, "source_position", "the antenna is placed at (", w.sources[0].r, ",", w.sources[0].z, "), expected (", 1.5 / res, ",", (double)za - (double)z_min, ")");
    double tm = 0.5 * ((double)t0 + (double)t1);
    VH_CHECK(w.sources[0].src -> current(tm, 0.01) == ant.current(tm, 0.01), "source_current", "the source in the simulation has a different current");
    c.nontrivial = true; c.sig = hash_str(c.desc.str());
  }
  Reg r29("C29", [](Ctx& c) {
    if(!c.rng.chance(0.05)) { c29_case(c); return; }
    // what the driver makes of antenna and geometry
    Setup s = random_setup(c, 1);
    auto f = std::make_shared<Truth>(Truth{c.rng.next(), 0, 0, 1.0});
    World w = make_world(c, s, f);
    calculate(c, s, w, c.sub("gf"), [](float rr, float z) { return 1.0f + 0.1f * rr - 0.03f * z; }, [](float t) { return 2.0f + t; });
    double sc = std::max({(double)s.r_max, std::fabs((double)s.z_min), std::fabs((double)s.z_max), 1.0});
    for(auto& [pos, v] : w.eps) VH_CHECK(std::fabs(v - (1.0 + 0.1 * pos.first - 0.03 * (pos.second + (double)s.z_min))) <= 1e-5 * sc, "permittivity", "the simulation sees permittivity ", v, " at (", pos.first, ",", pos.second, ")");
    VH_CHECK(w.sources.size() == 1, "source", "the simulation has ", w.sources.size(), " sources");
    VH_CHECK(std::fabs(w.sources[0].z - ((double)s.z_ant - (double)s.z_min)) <= 2e-6 * sc, "source_position", "the antenna is placed at height ", w.sources[0].z);
    for(int q = 0; q < 10; q++) {
      double t = c.rng.real(-1, 2) * (double)s.t_end; if(std::fabs(t) < 1e-5 || std::fabs(t - (double)s.t_end) < 1e-5 * (1 + t)) continue;
      double want = t < 0 || t > (double)s.t_end ? 0 : -0.11 * s.res * (2 + t), got = w.sources[0].src -> current(t, 0.1).real();
      VH_CHECK(std::fabs(got - want) <= 1e-5 * (std::fabs(want) + 1e-9), "current", "current at ", t, " is ", got, ", expected ", want);
    }
    c.count("driver_runs"); c.nontrivial = true;
  });

  // ---------------------------------------------------------------- C28

  Reg r28("C28", [](Ctx& c) {
    Rng& r = c.rng;
    auto refused = [&](const char* what, auto&& fn) { bool t = false; try { fn(); } catch(const std::exception&) { t = true; } c.count(std::string("refused: ") + what); VH_CHECK(t, "accepted", what, " is not refused"); };
    float a = (float)r.real(0, 10), b = a + (float)r.real(0.01, 10), lo = (float)r.real(-20, 20), hi = lo + (float)r.real(0.01, 10);
    CylinderRegion reg(a, b, lo, hi);
    auto one = [](float, float) { return 1.0f; };
    for(int k = (int)r.range(1, 6); k > 0; k--) {
      float bad[4] = {a, b, lo, hi};
      switch(r.range(0, 2)) { case 0: std::swap(bad[0], bad[1]); break; case 1: std::swap(bad[2], bad[3]); break; default: bad[0] = -b; }
      if(r.chance(0.2)) { bad[0] = -b; bad[1] = -a - 0.001f; }
      if(r.chance(0.5)) refused("an unphysical region", [&] { CylinderRegion x(bad[0], bad[1], bad[2], bad[3]); });
      else refused("setting an unphysical region", [&] { reg.SetRegion(bad[0], bad[1], bad[2], bad[3]); });
      VH_CHECK(reg.GetRMin() == a && reg.GetRMax() == b && reg.GetZMin() == lo && reg.GetZMax() == hi, "region_damaged", "a refused region is taken over");
      if(r.chance(0.5)) refused("an unphysical geometry", [&] { CylinderGeometry x(-b, lo, hi, one); }); else refused("an unphysical geometry", [&] { CylinderGeometry x(b, hi, lo, one); });
      CylinderGeometry g(b, lo, hi, one); InfEDipoleAntenna ant(0.0, 1.0, lo, [](float) { return 1.0f; });
      if(r.chance(0.5)) refused("storing a region outside of the geometry", [&] { Driver d(g, CylinderRegion(a, b * 1.01f, lo, hi), ant, 1.0f); });
      else refused("storing an empty region", [&] { Driver d(g, r.chance(0.5) ? CylinderRegion(a, a, lo, hi) : CylinderRegion(a, b, hi, hi), ant, 1.0f); });
    }
    if(r.chance(0.05)) {      // a Green's function that is already there is not overwritten
      Setup s = random_setup(c, 1);
      auto f = std::make_shared<Truth>(Truth{r.next(), 0, 0, 1.0}); World w = make_world(c, s, f);
      fs::path out = c.sub("gf");
      calculate(c, s, w, out, [](float, float) { return 1.0f; }, [](float) { return 1.0f; });
      auto content = [](const fs::path& d) { std::map<std::string, std::string> o; for(auto& e : fs::recursive_directory_iterator(d)) if(e.is_regular_file()) { std::ifstream q(e.path(), std::ios::binary); std::stringstream x; x << q.rdbuf(); o[e.path().string()] = x.str(); } return o; };
      auto before = content(out);
      bool t = false; try { calculate(c, s, w, out, [](float, float) { return 1.0f; }, [](float) { return 1.0f; }); } catch(const Fail& e) { t = e.key == "driver"; }
      VH_CHECK(t, "overwritten", "an existing Green's function is overwritten");
      VH_CHECK(content(out) == before, "damage", "an existing Green's function is changed by a refused calculation");
      c.count("refused: overwriting");
    }
    c.nontrivial = true;
  });
}

VH_MAIN
