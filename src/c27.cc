// C27: what is simulated is what has been described: regions, geometry, antenna and settings.
#include "gf.hh"
#include "jobs.hh"
#include "stub/meep.hpp"
#include "MEEPCylindricalGreensFunctionCalculator.hh"
#include "C8GreensFunctionCalculator.hxx"
using namespace gf;
using Calc = GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator;

static bool close(double a, double b) { return std::fabs(a - b) <= 2e-6 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
static std::string text(const char* f, ...) { char b[400]; va_list v; va_start(v, f); std::vsnprintf(b, 400, f, v); va_end(v); return b; }
static bool throws(const std::function<void()>& f) { try { f(); return false; } catch(const std::exception&) { return true; } }

// ---- regions
struct Reg { double v[4]; bool ok() const { return v[0] >= 0 && v[1] >= 0 && v[0] <= v[1] && v[2] <= v[3]; } bool empty() const { return v[0] == v[1] || v[2] == v[3]; } };
static std::string str(const Reg& r) { return text("(%g, %g, %g, %g)", r.v[0], r.v[1], r.v[2], r.v[3]); }
static Reg any_region(Ctx& c) { Reg r; for(int k = 0; k < 2; k++) r.v[k] = c.lite || !c.thorough ? c.pick({-1.0, 0.0, 0.5, 2.0}) : c.pick({-1.0, -0.125, 0.0, 0.125, 0.5, 2.0}); for(int k = 2; k < 4; k++) r.v[k] = c.thorough ? c.pick({-3.0, -1.0, 0.0, 0.5, 2.0}) : c.pick({-1.0, 0.0, 0.5, 2.0}); return r; }
static Reg few_regions(Ctx& c) { static const Reg r[] = {{{0, 2, -1, 1}}, {{0.5, 2, 0, 0.5}}, {{1, 0.5, 0, 1}}, {{0, 1, 1, 0}}, {{-1, 1, 0, 1}}, {{0, 0, -1, -1}}, {{1, 1, -1, 2}}, {{-2, -1, 0, 1}}}; return r[c.choose(8)]; }
static void region_check(Ctx& c, CylinderRegion& x, const Reg& r) {
  const double got[6] = {x.GetRMin(), x.GetRMax(), x.GetZMin(), x.GetZMax(), x.GetRSize(), x.GetZSize()}, want[6] = {r.v[0], r.v[1], r.v[2], r.v[3], r.v[1] - r.v[0], r.v[3] - r.v[2]};
  for(int k = 0; k < 6; k++) { c.check(got[k] == want[k], "region %s reports %g for value %d", str(r).c_str(), got[k], k); c.observe_f(got[k]); }
  c.state(std::hash<std::string>()(str(r))); c.check(x.IsEmpty() == r.empty(), "region %s is %sreported to be empty", str(r).c_str(), r.empty() ? "not " : "");
}

// ---- one calculation, and what the field simulation was asked for
struct Sim { int rank; double rsize, zsize, a, pml, courant; };
struct Src { int rank; meep::component c; double r, z; std::complex<double> amp; bool integrated; double last; std::vector<std::complex<double>> current; };
struct Log { std::vector<Sim> sims; std::vector<Src> srcs; std::string bad; };
struct Run {
  double r_max = 1.5, z_min = -1, z_max = 1, z_ant = 0, t0 = 0, t1 = 1, t_end = 0.5, res = 2, courant = 0.5, timestep = 0.5, pml = 1; int jobs = 1; bool c8 = false; U ds = 1, overlap = 1, chunk = 2, cache = 2; double dr = 100, abs_min = 0; int order = 0;
};
static std::string str(const Run& s) { return text("r to %g, z from %g to %g, antenna at %g active from %g to %g, until %g, resolution %g, courant %g, time step %g, pml %g, %d jobs%s, downsampling %zu, overlap %zu, chunks %zu, cache %zu, range %g above %g", s.r_max, s.z_min, s.z_max, s.z_ant, s.t0, s.t1, s.t_end, s.res, s.courant, s.timestep, s.pml, s.jobs, s.c8 ? " by the front end" : "", s.ds, s.overlap, s.chunk, s.cache, s.dr, s.abs_min); }
static double response(double t) { return 1 + 2 * t + t * t / 4; }
static double permittivity(double r, double z) { return 1.5 + r / 4 + (z + 16) / 64; }
static const double probe[] = {-0.5, -0.125, 0, 0.125, 0.25, 0.5, 0.75, 1, 1.25, 2, 2.5, 4};

static int voxels(double size, double res) { return (int)std::lround(size * res); }
static void run(Ctx& c, const Run& s, const fs::path& base, CylinderGeometry* geom, Antenna* antenna, Log& log, Calc* calculator = nullptr, C8CylindricalGreensFunctionCalculator* front = nullptr) {
  Quiet q; Jobs jobs(s.jobs, 0, false); meep::world w; w.jobs = s.jobs; const int nr = voxels(s.r_max, s.res), nz = voxels(s.z_max - s.z_min, s.res);
  for(int j = 0; j < s.jobs; j++) w.chunks.push_back({nz * j / s.jobs, nz * (j + 1) / s.jobs, 0, nr, j});
  w.field = [](meep::component k, int iz, int ir, int step) -> double { return pattern((((U)step * 64 + iz) * 64 + ir) * 2 + (k == meep::Ez)) * std::ldexp(1.0, -(iz + 2 * ir + step) % 7); };
  w.wait = [&](int) { jobs.pause(Jobs::waiting, "barrier"); }; w.point = [&](int, const char* n) { jobs.point(n); };
  w.set_up = [&](int rank, const meep::grid_volume& g, meep::material_function& m, double pml, double courant) {
    log.sims.push_back({rank, g.m_rsize, g.m_zsize, g.a, pml, courant});
    for(double r : {0.0, 0.25, 1.0}) for(double z : {0.0, 0.5, 1.75}) for(auto f : {meep::E_stuff, meep::H_stuff}) { meep::vec p = meep::veccyl(r, z); double want = permittivity(r, z + s.z_min); if(!close(m.eps(p), want) || !close(m.chi1p1(f, p), want)) log.bad = text("the permittivity at r = %g, z = %g is %g instead of %g", r, z + s.z_min, m.eps(p), want); }
  };
  std::complex<double> amp = 0; w.strength = [&](int, meep::component, const meep::vec&, std::complex<double> a) { amp = a; };
  w.source = [&](int rank, meep::component k, const meep::src_time& a, const meep::vec& p, double) { Src x{rank, k, p.r(), p.z(), amp, a.is_integrated, a.last_time(), {}}; for(double t : probe) x.current.push_back(a.current(t, 0.25)); log.srcs.push_back(x); };
  fs::create_directories(base / "local"); fs::create_directories(base / "global");
  meep::the_world = &w; struct Reset { ~Reset() { meep::the_world = nullptr; } } reset;
  jobs.run(c, s.order, [&](int j) { meep::the_rank = j;
    if(s.c8) {
      int argc = 0; char** argv = nullptr; std::unique_ptr<C8CylindricalGreensFunctionCalculator> own; if(!front) own = std::make_unique<C8CylindricalGreensFunctionCalculator>(argc, argv);
      (front ? *front : *own).calculate((float)s.r_max, (float)s.z_min, (float)s.z_max, (float)s.z_ant, (float)s.t_end, [](float r, float z) { return (float)permittivity(r, z); }, [](float t) { return (float)response(t); }, base / "gf", base / "local", base / "global", s.courant, s.res, s.timestep, s.pml, s.ds, s.dr, s.abs_min, s.overlap, s.chunk, s.cache);
    } else {
      // with several jobs everyone has objects of their own
      std::unique_ptr<CylinderGeometry> g; std::unique_ptr<Antenna> a; std::unique_ptr<Calc> own;
      if(!geom) g = std::make_unique<CylinderGeometry>((float)s.r_max, (float)s.z_min, (float)s.z_max, [](float r, float z) { return (float)permittivity(r, z); });
      if(!antenna) a = std::make_unique<InfEDipoleAntenna>((float)s.t0, (float)s.t1, (float)s.z_ant, [](float t) { return (float)response(t); });
      if(!calculator) own = std::make_unique<Calc>(geom ? *geom : *g, antenna ? *antenna : *a, (float)s.t_end);
      (calculator ? *calculator : *own).Calculate(base / "gf", base / "local", base / "global", s.courant, s.res, s.timestep, s.pml, s.ds, (float)s.dr, (float)s.abs_min, s.overlap, s.chunk, s.cache);
    }
  });
}
static void setup_check(Ctx& c, const Run& s, const Log& log) {
  c.state(std::hash<std::string>()(str(s)));
  c.check(log.bad.empty(), "%s", log.bad.c_str());
  c.check(log.sims.size() == (U)s.jobs && log.srcs.size() == (U)s.jobs, "%zu simulations and %zu sources for %d jobs", log.sims.size(), log.srcs.size(), s.jobs);
  for(auto& x : log.sims) {
    c.check(close(x.rsize, s.r_max) && close(x.zsize, s.z_max - s.z_min), "the simulated domain is %g x %g instead of %g x %g", x.rsize, x.zsize, s.r_max, s.z_max - s.z_min);
    c.check(x.a == s.res && x.pml == s.pml && x.courant == s.courant, "simulated with resolution %g, absorber %g, courant factor %g instead of %g, %g, %g", x.a, x.pml, x.courant, s.res, s.pml, s.courant); c.observe_f(x.a); c.observe_f(x.pml);
  }
  for(auto& x : log.srcs) {
    c.check(x.c == meep::Ez && !x.integrated, "the source is not a vertical current");
    c.check(close(x.z, s.z_ant - s.z_min) && close(x.r * s.res, 1.5), "the source is at r = %g, z = %g of the simulated domain", x.r, x.z);
    c.check(close(x.last, s.t1), "the source ends at %g instead of %g", x.last, s.t1);
    for(U i = 0; i < std::size(probe); i++) { const double t = probe[i], want = t < s.t0 || t > s.t1 ? 0 : -0.11 * s.res * response(t); std::complex<double> got = x.current[i] * x.amp; c.check(close(got.real(), want) && got.imag() == 0, "the feed current at time %g is %g instead of %g", t, got.real(), want); c.observe_f(got.real()); }
  }
}
// everything that is stored, independent of file names
using Stored = std::multiset<std::pair<std::vector<U>, std::vector<float>>>;
static Stored stored(const fs::path& dir) {
  Stored all; Peek<3, 2> p(dir, 3);
  p.chunks([&](const ChunkMetadata<3>& m, const Arr<3, 2>& a) { std::vector<U> k; std::vector<float> v; for(int d = 0; d < 3; d++) { k.push_back(m.start_ind[d]); k.push_back(m.shape[d]); } k.push_back(m.overlap); each<3>(I3(U(0)), a.GetShape(), [&](const I3& i) { v.push_back(a[i][0]); v.push_back(a[i][1]); }); all.insert({k, v}); });
  return all;
}

int main(int argc, char** argv) {
  mc::Harness h; h.property = "C27"; h.level = "model_checking";
  h.assumptions = {"MEEP is replaced by a stand-in with the same interface that records what it is asked for; jobs are threads that run one at a time under the scheduler of the exploration"};
  h.space("regions", "regions and geometries with limits of every kind", 2, [](Ctx& c) {
    Reg r = any_region(c); c.op("region %s", str(r).c_str()); c.nontrivial();
    std::unique_ptr<CylinderRegion> x; bool threw = throws([&] { x = std::make_unique<CylinderRegion>((float)r.v[0], (float)r.v[1], (float)r.v[2], (float)r.v[3]); });
    c.check(threw == !r.ok(), "region %s is %s", str(r).c_str(), threw ? "refused" : "accepted"); if(x) region_check(c, *x, r);
    threw = throws([&] { CylinderGeometry g((float)r.v[1], (float)r.v[2], (float)r.v[3], [](float, float) { return 1.0f; }); c.check(g.GetRMin() == 0 && g.GetRMax() == (float)r.v[1] && g.GetZMin() == (float)r.v[2] && g.GetZMax() == (float)r.v[3] && g.GetRSize() == (float)r.v[1] && g.GetZSize() == (float)(r.v[3] - r.v[2]), "a geometry reports other limits than it was made with"); });
    c.check(threw == (r.v[1] < 0 || r.v[2] > r.v[3]), "a geometry up to r = %g with z from %g to %g is %s", r.v[1], r.v[2], r.v[3], threw ? "refused" : "accepted");
  });
  h.space("changed regions", "histories of changes to a region", 2, [](Ctx& c) {
    CylinderRegion x; Reg now{{0, 0, 0, 0}}; region_check(c, x, now); const int n = c.thorough ? 4 : c.lite ? 2 : 3;
    for(int k = 0; k < n; k++) {
      Reg r = few_regions(c); c.op("set %s", str(r).c_str()); bool threw = throws([&] { x.SetRegion((float)r.v[0], (float)r.v[1], (float)r.v[2], (float)r.v[3]); });
      c.check(threw == !r.ok(), "region %s is %s", str(r).c_str(), threw ? "refused" : "accepted"); if(!threw) now = r; region_check(c, x, now); CylinderRegion y = x; region_check(c, y, now);
    }
    c.nontrivial();
  });
  h.space("domains", "storage regions against geometries", 3, [](Ctx& c) {
    const double r_max = c.pick({1.0, 2.0}), z_min = c.pick({-2.0, 0.0, 1.0}), z_max = z_min + c.pick({1.0, 2.0}); Reg r; r.v[0] = c.pick({0.0, 0.5, 1.0, 1.5}); r.v[1] = c.pick({0.0, 0.5, 1.0, 1.5, 2.0, 2.25}); r.v[2] = z_min + c.pick({-0.5, 0.0, 0.5, 1.0, 1.5, 2.5}); r.v[3] = z_min + c.pick({-0.25, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5}); if(!r.ok()) c.prune();
    CylinderGeometry g((float)r_max, (float)z_min, (float)z_max, [](float, float) { return 1.0f; }); CylinderRegion x((float)r.v[0], (float)r.v[1], (float)r.v[2], (float)r.v[3]); InfEDipoleAntenna a(0.0f, 1.0f, (float)z_min, [](float) { return 1.0f; });
    const bool in = r.v[1] <= r_max && r.v[2] >= z_min && r.v[3] <= z_max; c.op("region %s in r to %g, z from %g to %g", str(r).c_str(), r_max, z_min, z_max); c.observe(in); if(in) c.nontrivial();
    c.check(g.contains(x) == in, "region is %sreported to be contained", in ? "not " : "");
    bool threw = throws([&] { Calc k(g, x, a, 1.0f); }); c.check(threw == (!in || r.empty()), "storing the region is %s", threw ? "refused" : "accepted");
  });
  h.space("coordinates", "coordinates and permittivity in simulations of various geometries", 2, [](Ctx& c) {
    const double z_min = c.pick({-300.0, -1.5, 0.0, 2.25}), z_max = z_min + c.pick({0.5, 8.0}), r_max = c.pick({1.0, 64.0}), r = c.pick({0.0, 0.125, 0.5, 1.0}) * r_max, u = c.pick({0.0, 0.125, 0.75, 1.0}) * (z_max - z_min); int calls = 0; double ar = -1, az = -1;
    CylinderGeometry g((float)r_max, (float)z_min, (float)z_max, [&](float x, float y) { calls++; ar = x; az = y; return (float)permittivity(x, y); });
    c.op("z from %g to %g, point %g, %g", z_min, z_max, r, u); RZCoordVector e = g.toEisvogelCoords(meep::veccyl(r, u)); c.check(e.r() == (float)r && e.z() == (float)(z_min + u), "simulated (%g, %g) is taken for (%g, %g)", r, u, e.r(), e.z());
    meep::vec m = g.toMeepCoords(e); c.check(m.r() == r && m.z() == u, "(%g, %g) is simulated at (%g, %g) instead of (%g, %g)", e.r(), e.z(), m.r(), m.z(), r, u); c.observe_f(m.z());
    meep::material_function& f = g; for(int k = 0; k < 3; k++) { calls = 0; double v = k == 0 ? f.eps(meep::veccyl(r, u)) : f.chi1p1(k == 1 ? meep::E_stuff : meep::H_stuff, meep::veccyl(r, u)); c.check(calls >= 1 && ar == r && az == z_min + u && close(v, permittivity(r, z_min + u)), "the permittivity at (%g, %g) is taken at (%g, %g)", r, z_min + u, ar, az); } c.nontrivial();
  });
  h.space("feed current", "antennas, scale factors and copies", 2, [](Ctx& c) {
    const double t0 = c.pick({-0.5, 0.0, 0.25, 1.0}), t1 = t0 + c.pick({0.0, 0.25, 1.5}); InfEDipoleAntenna a((float)t0, (float)t1, -2.0f, [](float t) { return (float)response(t); }); std::unique_ptr<meep::src_time> copy; double scale = 1, kept = 1; const int n = c.thorough ? 4 : 3;
    auto see = [&](const meep::src_time& x, double k, const char* what) { c.check(!x.is_integrated, "%s does not give a current", what); c.check(close(x.last_time(), t1), "%s ends at %g instead of %g", what, x.last_time(), t1); for(double t : probe) { const double want = t < t0 || t > t1 ? 0 : -k * response(t); for(double dt : {0.0, 0.5}) { auto got = x.current(t, dt); c.check(close(got.real(), want) && got.imag() == 0, "%s gives current %g at time %g instead of %g", what, got.real(), t, want); } } };
    see(a, scale, "the antenna");
    for(int k = 0; k < n; k++) {
      if(c.choose(3) == 0) { c.op("copy"); copy.reset(a.clone()); kept = scale; } else { scale = c.pick({0.5, 3.0, 16.0}); c.op("scale %g", scale); a.SetScaleFactor((float)scale); }
      see(a, scale, "the antenna"); if(copy) see(*copy, kept, "the copy"); c.observe_f(scale);
    }
    c.nontrivial();
  });
  h.space("simulations", "settings and places of a calculation", 3, [](Ctx& c) {
    Run s; s.jobs = c.range(1, c.thorough ? 3 : 2); s.c8 = c.flag(); s.r_max = c.pick({1.0, 1.5}); s.z_min = c.pick({-3.5, 0.0, 2.0}); s.z_max = s.z_min + c.pick({2.0, 2.5}); s.z_ant = s.z_min + c.pick({0.0, 0.5, 1.75}); s.res = c.pick({2.0, 4.0}); s.pml = c.pick({0.0, 0.25, 1.5}); s.courant = c.pick({0.25, 0.75}); const bool more = c.flag(); s.timestep = more ? 0.25 : 0.5; s.t_end = more ? 0.75 : 0.5; s.t0 = more && !s.c8 ? 0.25 : 0; s.t1 = s.c8 ? s.t_end : more ? 1.25 : 0.75; if(c.lite && (s.pml != 0.25 || s.courant != 0.25)) c.prune();
    c.op("%s", str(s).c_str()); Log log; run(c, s, c.scratch(), nullptr, nullptr, log); setup_check(c, s, log); c.nontrivial();
  });
  h.space("repeated simulations", "several calculations with the same geometry, antennas and calculators, compared with calculations of their own", 2, [](Ctx& c) {
    Run s; CylinderGeometry g((float)s.r_max, (float)s.z_min, (float)s.z_max, [](float r, float z) { return (float)permittivity(r, z); }); std::vector<std::unique_ptr<Antenna>> a; for(int k = 0; k < 2; k++) a.push_back(std::make_unique<InfEDipoleAntenna>((float)k / 4, (float)k + 1, (float)k - 0.5f, [](float t) { return (float)response(t); }));
    std::vector<std::unique_ptr<Calc>> calc; for(int k = 0; k < 2; k++) calc.push_back(std::make_unique<Calc>(g, *a[k], (float)s.t_end)); const bool again = c.flag();
    const int n = c.thorough ? 4 : c.lite ? 2 : 3; for(int k = 0; k < n; k++) {
      Run x = s; const int which = c.choose(2); x.t0 = which / 4.0; x.t1 = which + 1; x.z_ant = which - 0.5; x.res = c.pick({2.0, 4.0, 8.0}); x.pml = x.res / 8; x.ds = x.res == 4 ? 2 : 1; c.op("%s%s", str(x).c_str(), again ? " by the same calculator" : "");
      Log log, own; run(c, x, c.scratch() / std::to_string(k), &g, a[which].get(), log, again ? calc[which].get() : nullptr); setup_check(c, x, log);
      run(c, x, c.scratch() / (std::to_string(k) + "o"), nullptr, nullptr, own); c.check(stored(c.scratch() / std::to_string(k) / "gf") == stored(c.scratch() / (std::to_string(k) + "o") / "gf"), "the Green's function differs from that of objects of its own");
    }
    c.nontrivial();
  });
  h.space("repeated front end", "several calculations by the same front end", 2, [](Ctx& c) {
    int argc = 0; char** argv = nullptr; C8CylindricalGreensFunctionCalculator front(argc, argv);
    const int n = c.thorough ? 4 : c.lite ? 2 : 3; for(int k = 0; k < n; k++) {
      Run x; x.c8 = true; const int which = c.choose(5); x.z_ant = which == 1 ? 0.5 : 0; x.res = which == 2 ? 4 : 2; x.t_end = which == 3 ? 1 : 0.5; x.t1 = x.t_end; if(which == 4) { x.z_min = 2; x.z_max = 4.5; x.z_ant = 2.5; x.r_max = 1; } c.op("%s", str(x).c_str());
      Log log, own; run(c, x, c.scratch() / std::to_string(k), nullptr, nullptr, log, nullptr, &front); setup_check(c, x, log);
      run(c, x, c.scratch() / (std::to_string(k) + "o"), nullptr, nullptr, own); c.check(stored(c.scratch() / std::to_string(k) / "gf") == stored(c.scratch() / (std::to_string(k) + "o") / "gf"), "the Green's function differs from that of a front end of its own");
    }
    c.nontrivial();
  });
  h.space("front end", "the front end for air shower simulations gives the same Green's function", 3, [](Ctx& c) {
    Run s; s.jobs = c.range(1, 2); s.z_min = -1.5; s.z_max = 1; s.z_ant = 0.5; s.courant = c.pick({0.25, 0.5}); s.timestep = c.pick({0.25, 0.5}); s.t_end = 1; s.t1 = 1; s.pml = 0.75; s.ds = c.range(1, 2); s.overlap = c.range(1, 2); s.chunk = c.pick({2, 3, 5}); s.cache = c.lite ? 1 : c.pick({1, 5}); s.dr = c.pick({4.0, 64.0}); s.abs_min = c.pick({0.0, 0.5});
    c.op("%s", str(s).c_str()); Log l1, l2; run(c, s, c.scratch() / "a", nullptr, nullptr, l1); s.c8 = true; run(c, s, c.scratch() / "b", nullptr, nullptr, l2); setup_check(c, s, l1); setup_check(c, s, l2);
    Stored x = stored(c.scratch() / "a/gf"), y = stored(c.scratch() / "b/gf"); for(auto& e : x) { for(float v : e.second) c.observe_f(v); } c.check(x == y, "the Green's function differs (%zu and %zu chunks)", x.size(), y.size()); Quiet q; GF g(c.scratch() / "a/gf", 1), k(c.scratch() / "b/gf", 1); auto g0 = g.start_coords(), g1 = g.end_coords(), k0 = k.start_coords(), k1 = k.end_coords(); for(int d = 0; d < 3; d++) c.check(g0[d] == k0[d] && g1[d] == k1[d], "the domain differs along axis %d", d); if(x.size() > 1) c.nontrivial();
  });
  h.space("voxels", "sizes of the domain in voxels", 2, [](Ctx& c) {
    Run s; const double res = c.pick({1.0, 2.0, 3.0, 7.0, 10.0}); s.res = res; const int nr = c.range(1, 4), nz = c.range(1, 4), m = c.choose(3); const double off = c.pick({0.0, 0.25, 0.5}), start = c.pick({0.0, -1.0, 0.3}); s.z_min = start; s.r_max = (nr + (m == 1 ? off : 0)) / res; s.z_max = start + (nz + (m == 2 ? off : 0)) / res; if(m && off == 0) c.prune(); if(!m && off != 0) c.prune();
    s.z_ant = s.z_min; s.timestep = 1; s.t_end = 1; c.op("%s", str(s).c_str()); Log log; const bool whole = m == 0;
    // whether a size is a whole number of voxels is a matter of single precision
    const float zs = (float)s.z_max - (float)s.z_min; const bool sure = (float)((double)(float)s.r_max * res) == nr && (float)((double)zs * res) == nz; if(whole && !sure) c.prune();
    bool threw = throws([&] { run(c, s, c.scratch(), nullptr, nullptr, log); }); c.check(threw == !whole, "a domain of %g x %g voxels is %s", s.r_max * res, (s.z_max - s.z_min) * res, threw ? "refused" : "accepted"); c.observe(threw); c.nontrivial(); if(whole) setup_check(c, s, log);
  });
  return mc::run_main(h, argc, argv);
}
