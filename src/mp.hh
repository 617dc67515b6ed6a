// Calculations of Green's functions with a stand-in for the field simulation, and what their results have to look like.
#pragma once
#include "gf.hh"
#include "jobs.hh"
#include "stub/meep.hpp"
#include "MEEPCylindricalGreensFunctionCalculator.hh"
#include "C8GreensFunctionCalculator.hxx"
using namespace gf;

// ---- one calculation
struct Setup {
  int nz = 4, nr = 3, zs0 = 0, zs1 = 4, rs0 = 0, rs1 = 3; bool whole = false;      // the domain, and the part to store, in voxels
  double res = 2, z_min = -1, courant = 0.5, timestep = 0.5, t_end = 1.0; U ds = 1, overlap = 1, chunk = 2, cache = 2, calc_t = 2, calc_lin = 2; double dr = 0, abs_min = 0; bool limited = false, c8 = false, req = false; double req_r0 = 0, req_r1 = 0, req_z0 = 0, req_z1 = 0;
  std::vector<meep::chunk_def> parts; int jobs = 1;
  int samples() const { return (int)std::floor(t_end / timestep + 1e-9) + 1; }
  int step_of(int k) const { return (int)std::ceil(k * timestep / (courant / res) - 1e-9); }
};
static std::string str(const Setup& s) {
  std::string r; char b[400]; std::snprintf(b, 400, "%d jobs, %d x %d voxels (z, r), store z %d..%d r %d..%d, downsampling %zu, overlap %zu, chunk size %zu, cache %zu, simulation chunks %zu in time and %zu in space, %d samples", s.jobs, s.nz, s.nr, s.zs0, s.zs1, s.rs0, s.rs1, s.ds, s.overlap, s.chunk, s.cache, s.calc_t, s.calc_lin, s.samples()); r = b;
  for(auto& p : s.parts) { std::snprintf(b, 400, ", part z %d..%d r %d..%d of job %d", p.z0, p.z1, p.r0, p.r1, p.owner); r += b; } return r;
}
using FieldFn = std::function<double(meep::component, int, int, int)>;
static double full_field(meep::component c, int iz, int ir, int step) { return pattern((((U)step * 16 + iz) * 16 + ir) * 2 + (c == meep::Ez)); }

static void run_jobs(Ctx& c, const Setup& s, const fs::path& out, const fs::path& local, const fs::path& global, const FieldFn& f, int order, int preempt, bool fine, Jobs* keep = nullptr) {
  Quiet q; Jobs jobs(s.jobs, preempt, fine); (void)keep; std::string bad;
  meep::world w; w.jobs = s.jobs; w.chunks = s.parts; w.field = f;
  w.wait = [&](int) { jobs.pause(Jobs::waiting, "barrier"); };
  w.point = [&](int, const char* n) { jobs.point(n); };
  w.built = [&](int, int nr, int nz, double, meep::material_function& m) {
    if(nr != s.nr || nz != s.nz) bad = "the simulated domain has " + std::to_string(nr) + " x " + std::to_string(nz) + " voxels";
    for(int i = 0; i < nr; i++) for(int j = 0; j < nz; j++) { double r = (i + 0.5) / s.res, z = (j + 0.5) / s.res, e = m.eps(meep::veccyl(r, z)), want = 1 + r + 16 * (z + s.z_min - 8); want = 1 + r + 16 * (z + s.z_min); if(std::fabs(e - want) > 1e-4 || std::fabs(m.chi1p1(meep::E_stuff, meep::veccyl(r, z)) - want) > 1e-4) bad = "permittivity is taken from a wrong place"; }
  };
  int sources = 0;
  w.source = [&](int, meep::component k, const meep::src_time& a, const meep::vec& p, double) {
    sources++;
    if(k != meep::Ez || a.is_integrated) bad = "the source is not a vertical current";
    if(std::fabs(p.z() - 0.5) > 1e-6 || p.r() < 0 || p.r() > 2 / s.res) bad = "the antenna is at the wrong place";
    const double one = a.current(s.t_end / 4, 0.1).real(), two = a.current(s.t_end / 2, 0.1).real();
    if(!(one < 0) || std::fabs(two - 1.5 * one) > 1e-5 * std::fabs(two) || a.current(-s.t_end / 4, 0.1) != 0.0 || a.current(s.t_end + 0.25, 0.1) != 0.0) bad = "the feed current does not follow the impulse response";
    if(std::fabs(a.last_time() - s.t_end) > 1e-6) bad = "the source ends at the wrong time";
  };
  meep::the_world = &w; struct Reset { ~Reset() { meep::the_world = nullptr; } } reset;
  jobs.run(c, order, [&](int j) { meep::the_rank = j;
    if(s.c8) {
      int argc = 0; char** argv = nullptr; C8CylindricalGreensFunctionCalculator calc(argc, argv);
      calc.calculate((float)(s.nr / s.res), (float)s.z_min, (float)(s.z_min + s.nz / s.res), (float)(s.z_min + 0.5), (float)s.t_end, [](float r, float z) { return 1 + r + 16 * z; }, [&](float t) { return (float)(1 + 2 * (t / s.t_end - 0.25)); }, out, local, global, s.courant, s.res, s.timestep, 1.0, s.ds, s.limited ? s.dr : 1e30, s.abs_min, s.overlap, s.chunk, s.cache);
      return;
    }
    CylinderGeometry geom((float)(s.nr / s.res), (float)s.z_min, (float)(s.z_min + s.nz / s.res), [](float r, float z) { return 1 + r + 16 * z; });
    InfEDipoleAntenna antenna(0.0f, (float)s.t_end, (float)(s.z_min + 0.5), [&](float t) { return (float)(1 + 2 * (t / s.t_end - 0.25)); });
    CylinderRegion region((float)(s.rs0 / s.res), (float)(s.rs1 / s.res), (float)(s.z_min + s.zs0 / s.res), (float)(s.z_min + s.zs1 / s.res));
    if(s.req) region.SetRegion((float)s.req_r0, (float)s.req_r1, (float)s.req_z0, (float)s.req_z1);
    using Calc = GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator;
    auto calc = s.whole ? Calc(geom, antenna, (float)s.t_end) : Calc(geom, region, antenna, (float)s.t_end);
    calc.Calculate(out, local, global, s.courant, s.res, s.timestep, 1.0, s.ds, s.limited ? (float)s.dr : 1e30f, (float)s.abs_min, s.overlap, s.chunk, s.cache, s.calc_t, s.calc_lin);
  });
  c.check(bad.empty(), "%s", bad.c_str()); c.check(sources == s.jobs, "%d sources were added by %d jobs", sources, s.jobs);
}

struct Extent { int rp0, zp0, rp1, zp1, nr, nz, nt; };   // margins available in stored samples, and the number of samples
static Extent extent(const Setup& s) {
  auto pad = [&](int avail) { return (int)std::min<U>((U)avail / s.ds, s.overlap); };
  return {pad(s.rs0), pad(s.zs0), pad(s.nr - s.rs1), pad(s.nz - s.zs1), (int)((s.rs1 - s.rs0 + s.ds - 1) / s.ds), (int)((s.zs1 - s.zs0 + s.ds - 1) / s.ds), s.samples()};
}
static void clean_check(Ctx& c, const fs::path& local, const fs::path& global) {
  for(auto& d : {local, global}) { U n = 0; std::string first; for(auto& e : fs::recursive_directory_iterator(d)) if(e.path().filename() != "keep.txt") { n++; first = e.path().filename(); } c.check(n == 0, "%zu entries such as %s are left in a scratch directory", n, first.c_str()); c.check(fs::exists(d / "keep.txt"), "a file in the scratch directory that belongs to somebody else is gone"); }
}
template <class K> static void evaluate_check(Ctx& c, const Setup& s, GF& g, const double* lo, const double* hi, const FieldFn& f) {
  const Extent e = extent(s); const int n[3] = {e.nr, e.nz, e.nt};
  for(int i = 0; i < e.nr; i++) for(int j = 0; j < e.nz; j++) for(U k = 0; k < 2; k++) {
    auto x = [&](int axis, int m) { return lo[axis] + m * (hi[axis] - lo[axis]) / (n[axis] - 1); };
    // each stored sample stands for the voxel that was simulated nearby
    c.check(std::fabs(x(0, i) - (s.rs0 + i * (int)s.ds + 0.5) / s.res) <= s.ds / s.res && std::fabs(x(1, j) - s.z_min - (s.zs0 + j * (int)s.ds + 0.5) / s.res) <= s.ds / s.res, "sample (%d, %d) is placed more than one sample away from where it was simulated", i, j);
    std::vector<float> sig(e.nt, 0.0f); RZCoordVector pos{(float)x(0, i), (float)x(1, j)}; RZFieldVector src{k == 0 ? 1.0f : 0.0f, k == 1 ? 1.0f : 0.0f};
    try { g.accumulate_inner_product<K, float>(pos, 0.0f, (float)(s.t_end / (e.nt - 1)), e.nt, src, sig.begin(), 1.0f); } catch(const std::exception& x) { c.fail(std::string("evaluation within the reported domain fails: ") + x.what()); }
    for(int t = 0; t < e.nt; t++) { double want = f(k ? meep::Ez : meep::Er, s.zs0 + j * (int)s.ds, s.rs0 + i * (int)s.ds, s.step_of(t)); c.check(std::fabs(sig[t] - want) < 1e-3, "evaluated at sample (%d, %d, %d), component %zu is %g, stored %g", i, j, t, k, sig[t], want); }
  }
}
static void coords_check(Ctx& c, const Setup& s, const fs::path& out, const FieldFn& f) {
  const Extent e = extent(s); Quiet q; GF g(out, 4); RZTCoordVector a = g.start_coords(), b = g.end_coords();
  const double lo[3] = {s.rs0 / s.res, s.z_min + s.zs0 / s.res, 0}, hi[3] = {s.rs1 / s.res, s.z_min + s.zs1 / s.res, s.t_end};
  for(int k = 0; k < 3; k++) { c.check(std::fabs(a[k] - lo[k]) < 1e-5, "the domain starts at %g instead of %g along axis %d", a[k], lo[k], k); c.check(std::fabs(b[k] - hi[k]) < 1e-5, "the domain ends at %g instead of %g along axis %d", b[k], hi[k], k); }
  if(!s.limited && !c.lite && s.overlap >= 1 && e.nr > 1 && e.nz > 1 && e.nt > 1) { if(s.overlap >= 2) evaluate_check<Keys>(c, s, g, lo, hi, f); else evaluate_check<Linear>(c, s, g, lo, hi, f); }
}
// stored chunks hold the decimated field, and real values in the margin as far as they were simulated
static void content_check(Ctx& c, const Setup& s, const fs::path& out, const FieldFn& f) {
  const Extent e = extent(s); Logical<3, 2> l;
  auto at = [&](int i, int j, int k, int comp) { return (float)f(comp ? meep::Ez : meep::Er, s.zs0 + (j - e.zp0) * (int)s.ds, s.rs0 + (i - e.rp0) * (int)s.ds, s.step_of(k)); };
  for(int i = 0; i < e.nr + e.rp0 + e.rp1; i++) for(int j = 0; j < e.nz + e.zp0 + e.zp1; j++) for(int k = 0; k < e.nt; k++) l.m[key<3>(I3{(U)i, (U)j, (U)k})] = {at(i, j, k, 0), at(i, j, k, 1)};
  SInd<3> shift; shift[0] = -e.rp0; shift[1] = -e.zp0; shift[2] = 0; I3 n{(U)e.nr, (U)e.nz, (U)e.nt};
  outside_is_zero = mirror_axis = true;
  { Quiet q; DArr<3, 2> d(out, 1, I3(U(1)), ser_default<3>()); c.check(I3(d.GetShape()) == n, "the output has %s samples instead of %s", str(I3(d.GetShape())).c_str(), str(n).c_str()); }
  check_chunks<3, 2>(c, out, l, tiling<3>(I3(U(0)), n, I3(s.chunk)), s.overlap, shift, 3);
}
// with a limited dynamic range: stored values are the field, or zero where that is allowed
static void limited_check(Ctx& c, const Setup& s, const fs::path& out, const FieldFn& f) {
  const Extent e = extent(s); U zeroed = 0, kept = 0;
  auto mag = [&](int iz, int ir, int k) { return std::hypot(f(meep::Ez, iz, ir, s.step_of(k)), f(meep::Er, iz, ir, s.step_of(k))); };
  Peek<3, 2> p(out, 3); std::map<Key<3>, std::array<float, 2>> seen; std::vector<std::string> bad;
  p.chunks([&](const ChunkMetadata<3>& m, const Arr<3, 2>& a) {
    each<3>(I3(U(0)), a.GetShape(), [&](const I3& i) {
      int g[3]; for(int d = 0; d < 3; d++) g[d] = (int)i[d] + (int)m.start_ind[d] - (int)s.overlap;
      if(g[0] < -e.rp0 || g[1] < -e.zp0 || g[2] < 0 || g[0] >= e.nr + e.rp1 || g[1] >= e.nz + e.zp1 || g[2] >= e.nt) return;
      int ir = s.rs0 + g[0] * (int)s.ds, iz = s.zs0 + g[1] * (int)s.ds; float got[2] = {a[i][0], a[i][1]}; c.observe_f(got[0]);
      auto [it, fresh] = seen.insert({Key<3>{(U)(g[0] + 9), (U)(g[1] + 9), (U)g[2]}, {got[0], got[1]}});
      c.check(fresh || (same(it -> second[0], got[0]) && same(it -> second[1], got[1])), "two chunks disagree about sample (%d, %d, %d)", g[0], g[1], g[2]);
      float want[2] = {(float)f(meep::Er, iz, ir, s.step_of(g[2])), (float)f(meep::Ez, iz, ir, s.step_of(g[2]))}; const double now = mag(iz, ir, g[2]); double own = 0, near = 0;
      for(int k = 0; k <= g[2]; k++) for(int u = -1; u <= 1; u++) for(int v = -1; v <= 1; v++) { int y = iz + u, x = ir + v; if(y < 0 || x < 0 || y >= s.nz || x >= s.nr) continue; near = std::max(near, mag(y, x, k)); if(!u && !v) own = std::max(own, mag(y, x, k)); }
      bool zero = got[0] == 0 && got[1] == 0, exact = same(got[0], want[0]) && same(got[1], want[1]);
      c.check(zero || exact, "sample (r, z, t) = (%d, %d, %d) is (%g, %g), the field is (%g, %g)", g[0], g[1], g[2], got[0], got[1], want[0], want[1]);
      if(zero && !exact) { zeroed++; c.check(now < near / s.dr || own <= s.abs_min, "sample (r, z, t) = (%d, %d, %d) with magnitude %g has been removed although it is within the dynamic range %g of the maximum %g nearby, and its own maximum %g is above the minimum %g", g[0], g[1], g[2], now, s.dr, near, own, s.abs_min); }
      if(!zero) { kept++; c.check(now >= own / s.dr && near > s.abs_min, "sample (r, z, t) = (%d, %d, %d) with magnitude %g is kept, maximum %g nearby %g, dynamic range %g, minimum %g", g[0], g[1], g[2], now, own, near, s.dr, s.abs_min); }
    });
  });
  c.check(seen.size() == (U)((e.nr + e.rp0 + e.rp1) * (e.nz + e.zp0 + e.zp1) * e.nt) || s.overlap > 0, "%zu samples found", seen.size()); c.observe(zeroed); if(zeroed && kept) c.nontrivial();
}

struct Dirs { fs::path out, local, global; };
static Dirs dirs(Ctx& c, bool exists) {
  fs::path d = c.scratch(); Dirs r{d / "gf", d / "local", d / "global"}; fs::create_directory(r.local); fs::create_directory(r.global); for(auto& p : {r.local, r.global}) std::ofstream(p / "keep.txt") << "x"; if(exists) fs::create_directory(r.out); return r;
}
static void whole_run(Ctx& c, const Setup& s, const FieldFn& f, int order, int preempt, bool fine, bool exists = false) {
  Dirs d = dirs(c, exists);
  c.op("%s", str(s).c_str());
  run_jobs(c, s, d.out, d.local, d.global, f, order, preempt, fine);
  if(s.limited) limited_check(c, s, d.out, f); else { content_check(c, s, d.out, f); c.nontrivial(); }
  coords_check(c, s, d.out, f); clean_check(c, d.local, d.global);
}

// all ways of cutting the domain in up to n parts with straight cuts
static void cut(Ctx& c, std::vector<meep::chunk_def>& v, meep::chunk_def p, int& left) {
  int opts = 1 + (left > 0 ? (p.z1 - p.z0 - 1) + (p.r1 - p.r0 - 1) : 0); int k = c.choose(opts);
  if(k == 0) { v.push_back(p); return; }
  left--; k--; meep::chunk_def a = p, b = p;
  if(k < p.z1 - p.z0 - 1) a.z1 = b.z0 = p.z0 + 1 + k; else a.r1 = b.r0 = p.r0 + 1 + k - (p.z1 - p.z0 - 1);
  cut(c, v, a, left); cut(c, v, b, left);
}
static std::vector<meep::chunk_def> parts(Ctx& c, const Setup& s, int n) { std::vector<meep::chunk_def> v; int left = n - 1; cut(c, v, {0, s.nz, 0, s.nr, 0}, left); for(auto& p : v) p.owner = c.choose(s.jobs); return v; }

