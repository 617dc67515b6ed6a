// A stand-in for the parts of MEEP that Eisvogel uses: the same interface, but the field is a known function of place and
// time step, the domain is divided in the way the exploration asks for, and the jobs run under its scheduler.
#pragma once
#include <complex>
#include <cstddef>
#include <cstdio>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace meep {
  enum component { Ex = 0, Ey, Er, Ep, Ez, Dielectric = 30, Centered };
  enum ndim { D1 = 0, D2, D3, Dcyl };
  enum direction { X = 0, Y, Z, R, P, NO_DIRECTION };
  enum field_type { E_stuff = 0, H_stuff = 1 };
  inline std::size_t number_of_directions(ndim d) { return d == Dcyl ? 2 : (std::size_t)d + 1; }
  inline direction start_at_direction(ndim) { return Z; }
  inline direction stop_at_direction(ndim) { return (direction)(R + 1); }
  #define LOOP_OVER_DIRECTIONS(dim, d) for(meep::direction d = meep::start_at_direction(dim), loop_stop_directi = meep::stop_at_direction(dim); d < loop_stop_directi; d = (meep::direction)(d + 1))

  class vec {
  public:
    vec() { } vec(double r, double z) : m_r(r), m_z(z) { }
    double r() const { return m_r; } double z() const { return m_z; }
    double in_direction(direction d) const { return d == R ? m_r : m_z; }
    vec operator+(const vec& o) const { return vec(m_r + o.m_r, m_z + o.m_z); }
    vec operator-(const vec& o) const { return vec(m_r - o.m_r, m_z - o.m_z); }
    vec operator*(double s) const { return vec(m_r * s, m_z * s); }
    vec operator/(double s) const { return vec(m_r / s, m_z / s); }
    bool operator==(const vec& o) const { return m_r == o.m_r && m_z == o.m_z; }
    void set_direction(direction d, double v) { (d == R ? m_r : m_z) = v; }
    ndim dim = Dcyl;
  private: double m_r = 0, m_z = 0;
  };
  inline vec operator*(double s, const vec& v) { return v * s; }
  inline vec veccyl(double r, double z) { return vec(r, z); }
  class ivec {
  public:
    ivec() { } ivec(int r, int z) : m_r(r), m_z(z) { }
    int r() const { return m_r; } int z() const { return m_z; }
    int in_direction(direction d) const { return d == R ? m_r : m_z; }
    ivec operator+(const ivec& o) const { return ivec(m_r + o.m_r, m_z + o.m_z); }
    ivec operator-(const ivec& o) const { return ivec(m_r - o.m_r, m_z - o.m_z); }
    vec operator*(double s) const { return vec(m_r * s, m_z * s); }
    bool operator==(const ivec& o) const { return m_r == o.m_r && m_z == o.m_z; }
    void set_direction(direction d, int v) { (d == R ? m_r : m_z) = v; }
    ndim dim = Dcyl;
  private: int m_r = 0, m_z = 0;
  };
  inline ivec iveccyl(int r, int z) { return ivec(r, z); }

  class volume { public: vec lo, hi; };
  class grid_volume {
  public:
    ndim dim = Dcyl; double a = 1, inva = 1;
    int nr() const { return m_nr; } int nz() const { return m_nz; } int nx() const { return 0; } int ny() const { return 0; }
    int num_direction(direction d) const { return d == R ? m_nr : d == Z ? m_nz : 0; }
    std::size_t ntot() const { return (std::size_t)(m_nr + 1) * (m_nz + 1); }
    int m_nr = 0, m_nz = 0; double m_rsize = 0, m_zsize = 0;
  };
  inline grid_volume volcyl(double rsize, double zsize, double a) { grid_volume g; g.m_rsize = rsize; g.m_zsize = zsize; g.a = a; g.inva = 1 / a; g.m_nr = (int)(rsize * a + 0.5); g.m_nz = (int)(zsize * a + 0.5); return g; }

  class material_function { public: virtual ~material_function() { } virtual double eps(const vec&) { return 1.0; } virtual double chi1p1(field_type, const vec&) { return 1.0; } };
  class boundary_region { public: double width = 0; }; inline boundary_region pml(double width) { return {width}; }
  class symmetry {
  public:
    vec transform(const vec& v, int) const { return v; }
    ivec transform(const ivec& v, int) const { return v; }
  };
  inline symmetry identity() { return { }; }
  class src_time {
  public:
    virtual ~src_time() { }
    bool is_integrated = true;
    virtual std::complex<double> current(double time, double dt) const { return (dipole(time + dt) - dipole(time)) / dt; }
    virtual std::complex<double> dipole(double) const = 0;
    virtual double last_time() const { return 0.0; }
    virtual src_time* clone() const = 0;
  };

  // the other side: what the exploration decides
  struct chunk_def { int z0, z1, r0, r1, owner; };
  struct world {
    int jobs = 1; std::vector<chunk_def> chunks;
    std::function<double(component, int iz, int ir, int step)> field;
    std::function<void(int job)> wait;                  // barrier
    std::function<void(int job, const char*)> point;    // may be interrupted here
    std::function<void(int job, component, const src_time&, const vec&, double a)> source;
    std::function<void(int job, int nr, int nz, double a, material_function&)> built;
    std::function<void(int job, const grid_volume&, material_function&, double pml, double courant)> set_up;
    std::function<void(int job, component, const vec&, std::complex<double>)> strength;
  };
  inline world* the_world = nullptr;
  inline thread_local int the_rank = 0;

  class structure {
  public:
    grid_volume gv; double dt;
    structure(const grid_volume& gv, material_function& m, const boundary_region& b = {}, const symmetry& = {}, int = 0, double courant = 0.5) : gv(gv), dt(courant / gv.a) { if(the_world -> set_up) the_world -> set_up(the_rank, gv, m, b.width, courant); if(the_world -> built) the_world -> built(the_rank, gv.nr(), gv.nz(), gv.a, m); }
  };
  inline int my_rank() { return the_rank; }
  inline int count_processors() { return the_world -> jobs; }
  inline bool am_master() { return the_rank == 0; }
  template <class... A> void master_printf(const char* format, A... a) { if(am_master()) std::printf(format, a...); }
  [[noreturn]] inline void abort(const char* what, ...) { throw std::runtime_error(what); }
  inline void all_wait() { the_world -> wait(the_rank); }

  class fields_chunk { public: grid_volume gv; const chunk_def* def; int step; };
  typedef void (*field_chunkloop)(fields_chunk* fc, int ichunk, component cgrid, ivec is, ivec ie, vec s0, vec s1, vec e0, vec e1, double dV0, double dV1, ivec shift, std::complex<double> shift_phase, const symmetry& S, int sn, void* data);
  #define LOOP_OVER_IVECS(gv, is, ie, idx) for(int loop_z = (is).z(); loop_z <= (ie).z(); loop_z += 2) for(int loop_r = (is).r(); loop_r <= (ie).r(); loop_r += 2) for(std::ptrdiff_t idx = (std::ptrdiff_t)loop_z * 65536 + loop_r, loop_once = 1; loop_once; loop_once = 0)
  #define IVEC_LOOP_ILOC(gv, iloc) meep::ivec iloc(loop_r, loop_z)
  #define IVEC_LOOP_LOC(gv, loc) meep::vec loc(loop_r * 0.5 * (gv).inva, loop_z * 0.5 * (gv).inva)
  class chunkloop_field_components {
  public:
    chunkloop_field_components(fields_chunk* fc, component, std::complex<double>, const symmetry&, int, int n, const component* c) : values(n), m_fc(fc), m_c(c, c + n) { }
    void update_values(std::ptrdiff_t idx) { for(std::size_t i = 0; i < m_c.size(); i++) values[i] = the_world -> field(m_c[i], (int)(idx / 65536 - 1) / 2, (int)(idx % 65536 - 1) / 2, m_fc -> step); }
    std::vector<std::complex<double>> values;
  private: fields_chunk* m_fc; std::vector<component> m_c;
  };

  class fields {
  public:
    double a, dt; int t = 0; grid_volume gv;
    fields(structure* s, double = 0, double = 0, bool = true, int = 0) : a(s -> gv.a), dt(s -> dt), gv(s -> gv) { }
    double time() const { return t * dt; } double round_time() const { return (float)(t * dt); }
    void step() { t++; }
    volume total_volume() const { return { }; }
    void add_point_source(component c, const src_time& s, const vec& p, std::complex<double> amp = 1.0) { if(the_world -> strength) the_world -> strength(the_rank, c, p, amp); if(the_world -> source) { std::unique_ptr<src_time> own(s.clone()); the_world -> source(the_rank, c, *own, p, a); } }
    void loop_in_chunks(field_chunkloop f, void* data, const volume&, component cgrid = Centered, bool = true, bool = false) {
      the_world -> point(the_rank, "loop");
      for(int i = 0; i < (int)the_world -> chunks.size(); i++) {
        const chunk_def& d = the_world -> chunks[i]; if(d.owner != the_rank) continue;
        fields_chunk fc{gv, &d, t}; vec one(1, 1);
        f(&fc, i, cgrid, ivec(2 * d.r0 + 1, 2 * d.z0 + 1), ivec(2 * d.r1 - 1, 2 * d.z1 - 1), one, one, one, one, 1.0, 0.0, ivec(0, 0), 1.0, symmetry(), 0, data);
      }
    }
  };
  class initialize { public: initialize(int&, char**&) { } };
}
