// Stand-in for the part of the field simulation package that Eisvogel uses.  It performs no simulation: the field values, the decomposition
// of the volume into chunks, their assignment to processes, and the order in which they are visited come from `meepstub::world()`,
// which also records what the driver asks the simulation to do.  Grid conventions are those of the package for cylindrical volumes:
// cell (z, r) has the integer coordinates (2z+1, 2r+1), axes are ordered z, r.
#pragma once

#include <algorithm>
#include <atomic>
#include <complex>
#include <cstddef>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <cmath>

#include <unistd.h>

namespace meep {
  class src_time; class fields_chunk;
  enum component { Ex = 0, Ey, Er, Ep, Ez, Hx, Hy, Hr, Hp, Hz, Dielectric, NO_COMPONENT };
  constexpr component Centered = Dielectric;
  enum ndim { D1 = 0, D2, D3, Dcyl };
  enum direction { X = 0, Y, Z, R, P, NO_DIRECTION };
  enum field_type { E_stuff = 0, H_stuff, D_stuff, B_stuff };
}

namespace meepstub {
  struct ChunkDef { int z0, z1, r0, r1, owner; };      // cells [z0, z1) x [r0, r1)
  struct Shared { std::atomic<int> arrived{0}, generation{0}, failed{0}; };      // in memory shared by the processes
  struct Source { int component; std::shared_ptr<meep::src_time> src; double r, z; };

  struct World {
    int rank = 0, size = 1;
    Shared* shared = nullptr;
    std::function<void()> poll;          // called while waiting
    std::function<unsigned()> delay;     // microseconds to wait at synchronisation points and between steps
    std::function<std::vector<ChunkDef>(int nz, int nr)> decompose;
    std::function<std::complex<double>(bool z_component, int z, int r, long step)> field;
    // what the driver asked for
    int nz = 0, nr = 0; double a = 0, courant = 0, pml = 0; long steps = 0, barriers = 0;
    std::vector<Source> sources;
    std::vector<std::pair<std::pair<double, double>, double>> eps;      // (r, z in the frame of the simulation) -> value seen
  };
  inline World*& world_ptr() { static World* w = nullptr; return w; }
  inline World& world() { return *world_ptr(); }

  struct Aborted : std::runtime_error { Aborted() : std::runtime_error("another process has failed") { } };

  inline void pause() { if(world().delay) if(unsigned d = world().delay()) usleep(d); }
  inline void barrier() {
    World& w = world(); w.barriers++;
    pause();
    if(w.size == 1) return;
    Shared& s = *w.shared;
    int g = s.generation.load();
    if(s.arrived.fetch_add(1) + 1 == w.size) { s.arrived = 0; s.generation.fetch_add(1); }
    else while(s.generation.load() == g) { if(w.poll) w.poll(); if(s.failed.load()) throw Aborted(); usleep(20); }
    pause();
  }
}

namespace meep {

  inline int my_rank() { return meepstub::world().rank; }
  inline int count_processors() { return meepstub::world().size; }
  inline bool am_master() { return my_rank() == 0; }
  inline void all_wait() { meepstub::barrier(); }

  class initialize { public: initialize(int&, char**&) { } };

  inline direction start_at_direction(ndim dim) { return dim == D1 || dim == Dcyl ? Z : X; }
  inline direction stop_at_direction(ndim dim) { return (direction)(dim + 1 + 2 * (dim == D1)); }
  inline int number_of_directions(ndim dim) { return dim == Dcyl ? 2 : (int)dim + 1; }

  struct vec {
    ndim dim = Dcyl; double t[5] = {0, 0, 0, 0, 0};
    vec() { }
    double r() const { return t[R]; } double z() const { return t[Z]; } double x() const { return t[X]; } double y() const { return t[Y]; }
    double in_direction(direction d) const { return t[d]; }
    void set_direction(direction d, double v) { t[d] = v; }
    vec operator+(const vec& o) const { vec v = *this; for(int i = 0; i < 5; i++) v.t[i] += o.t[i]; return v; }
    vec operator-(const vec& o) const { vec v = *this; for(int i = 0; i < 5; i++) v.t[i] -= o.t[i]; return v; }
    vec operator*(double s) const { vec v = *this; for(double& x : v.t) x *= s; return v; }
  };
  inline vec veccyl(double r, double z) { vec v; v.t[R] = r; v.t[Z] = z; return v; }

  struct ivec {
    ndim dim = Dcyl; int t[5] = {0, 0, 0, 0, 0};
    ivec() { }
    int r() const { return t[R]; } int z() const { return t[Z]; }
    int in_direction(direction d) const { return t[d]; }
    void set_direction(direction d, int v) { t[d] = v; }
    ivec operator+(const ivec& o) const { ivec v = *this; for(int i = 0; i < 5; i++) v.t[i] += o.t[i]; return v; }
    ivec operator-(const ivec& o) const { ivec v = *this; for(int i = 0; i < 5; i++) v.t[i] -= o.t[i]; return v; }
    vec operator*(double s) const { vec v; for(int i = 0; i < 5; i++) v.t[i] = t[i] * s; return v; }
  };
  inline ivec iveccyl(int r, int z) { ivec v; v.t[R] = r; v.t[Z] = z; return v; }

  struct volume { vec min_corner, max_corner; };

  struct grid_volume {
    ndim dim = Dcyl; double a = 1, inva = 1; int n_z = 0, n_r = 0;
    grid_volume() { }
    grid_volume(double a, int nz, int nr) : a(a), inva(1 / a), n_z(nz), n_r(nr) { }
    int nz() const { return n_z; } int nr() const { return n_r; }
  };
  inline grid_volume volcyl(double rsize, double zsize, double a) { return grid_volume(a, (int)(zsize * a + 0.5), (int)(rsize * a + 0.5)); }

  struct symmetry {
    ivec transform(const ivec& i, int) const { return i; }
    vec transform(const vec& v, int) const { return v; }
  };
  inline symmetry identity() { return symmetry(); }

  struct boundary_region { double thickness = 0; };
  inline boundary_region pml(double thickness) { return boundary_region{thickness}; }

  class material_function {
  public:
    virtual ~material_function() { }
    virtual void set_volume(const volume&) { }
    virtual void unset_volume() { }
    virtual double chi1p1(field_type, const vec&) { return 1.0; }
    virtual double eps(const vec&) { return 1.0; }
  };

  class src_time {
  public:
    bool is_integrated = true;
    virtual ~src_time() { }
    virtual std::complex<double> current(double time, double dt) const { return (dipole(time + dt) - dipole(time)) / dt; }
    virtual double last_time() const { return 0.0; }
    virtual src_time* clone() const { return new src_time(*this); }
    virtual std::complex<double> dipole(double) const { return 0; }
  };

  class structure {
  public:
    grid_volume gv; double courant;
    structure(const grid_volume& gv, material_function& mat, const boundary_region& br = boundary_region(), const symmetry& = identity(), int = 0, double courant = 0.5) : gv(gv), courant(courant) {
      meepstub::World& w = meepstub::world();
      w.nz = gv.nz(); w.nr = gv.nr(); w.a = gv.a; w.courant = courant; w.pml = br.thickness;
      // the material is probed throughout the volume
      for(int i = 0; i <= 6; i++) for(int j = 0; j <= 6; j++) {
	vec p = veccyl(j / 6.0 * gv.nr() / gv.a, i / 6.0 * gv.nz() / gv.a);
	w.eps.push_back({{p.r(), p.z()}, mat.chi1p1(E_stuff, p)});
      }
    }
  };

  class fields_chunk { public: grid_volume gv; long step = 0; };

  typedef void (*field_chunkloop)(fields_chunk* fc, int ichunk, component cgrid, ivec is, ivec ie, vec s0, vec s1, vec e0, vec e1, double dV0, double dV1,
				  ivec shift, std::complex<double> shift_phase, const symmetry& S, int sn, void* chunkloop_data);

  class fields {
  public:
    double a, dt; grid_volume gv; long t = 0;
    std::vector<meepstub::ChunkDef> chunks;
    explicit fields(structure* s) : a(s -> gv.a), dt(s -> courant / s -> gv.a), gv(s -> gv) { chunks = meepstub::world().decompose(gv.nz(), gv.nr()); }
    double time() const { return (double)t * dt; }
    void step() { t++; meepstub::world().steps++; }
    volume total_volume() const { return volume{veccyl(0, 0), veccyl(gv.nr() / a, gv.nz() / a)}; }
    void add_point_source(component c, const src_time& src, const vec& p, std::complex<double> = 1.0) { meepstub::world().sources.push_back({(int)c, std::shared_ptr<src_time>(src.clone()), p.r(), p.z()}); }
    void loop_in_chunks(field_chunkloop fn, void* data, const volume&, component cgrid = Centered) {
      meepstub::pause();
      for(std::size_t i = 0; i < chunks.size(); i++) {
	const meepstub::ChunkDef& c = chunks[i];
	if(c.owner != my_rank()) continue;
	fields_chunk fc; fc.gv = grid_volume(a, c.z1 - c.z0, c.r1 - c.r0); fc.step = t;
	vec one = veccyl(1, 1);
	fn(&fc, (int)i, cgrid, iveccyl(2 * c.r0 + 1, 2 * c.z0 + 1), iveccyl(2 * c.r1 - 1, 2 * c.z1 - 1), one, one, one, one, 1, 0, ivec(), 1.0, symmetry(), 0, data);
      }
    }
  };

  // index of a cell: z in the upper, r in the lower half
  inline std::ptrdiff_t stub_index(int z, int r) { return ((std::ptrdiff_t)z << 24) | r; }

  class chunkloop_field_components {
  public:
    std::vector<std::complex<double>> values;
    chunkloop_field_components(fields_chunk* fc, component, std::complex<double>, const symmetry&, int, int n, const component* c) : values((std::size_t)n), fc(fc), comps(c, c + n) { }
    void update_values(std::ptrdiff_t idx) {
      for(std::size_t i = 0; i < comps.size(); i++) {
	if(comps[i] != Ez && comps[i] != Er) throw std::runtime_error("stand-in: unexpected field component");
	values[i] = meepstub::world().field(comps[i] == Ez, (int)(idx >> 24), (int)(idx & 0xffffff), fc -> step);
      }
    }
  private:
    fields_chunk* fc; std::vector<component> comps;
  };
}

#define LOOP_OVER_DIRECTIONS(dim, d) for(meep::direction d = meep::start_at_direction(dim); d < meep::stop_at_direction(dim); d = (meep::direction)(d + 1))
#define LOOP_OVER_IVECS(gv, is, ie, idx) \
  for(int stub_r = (is).r(); stub_r <= (ie).r(); stub_r += 2) \
    for(int stub_z = (is).z(); stub_z <= (ie).z(); stub_z += 2) \
      if(std::ptrdiff_t idx = meep::stub_index((stub_z - 1) / 2, (stub_r - 1) / 2); true)
#define IVEC_LOOP_ILOC(gv, iloc) meep::ivec iloc = meep::iveccyl(stub_r, stub_z)
#define IVEC_LOOP_LOC(gv, loc) meep::vec loc = meep::veccyl(stub_r * 0.5 * (gv).inva, stub_z * 0.5 * (gv).inva)
