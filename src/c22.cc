// C22: Green's functions of the electric dipole, sampled from their analytic form.
#include "gf.hh"
#include "AnalyticGreensFunctionCalculator.hh"
using namespace gf;

// the field of an electric dipole at the origin behind a CR-(RC)^n filter, in double precision; lt is the light travel time
struct Dipole {
  double ior, tp; int n;
  double delta(double t) const { if(t <= 0) return 0; double u = t * n / tp; return std::pow(u, n) * std::exp(-u) / (tp * std::tgamma(n)); }
  double slope(double t) const { if(t <= 0) return 0; return delta(t) * n * (tp - t) / (tp * t); }
  double theta(double t) const {  // integral of delta up to t
    if(t <= 0) return 0; double u = t * n / tp, s = 0, term = 1; for(int k = 0; k <= n; k++) { s += term; term *= u / (k + 1); }
    if(u < 0.5) { s = 0; for(int k = n + 1; k < n + 60; k++) { s += term; term *= u / (k + 1); } return s * std::exp(-u); }
    return 1 - s * std::exp(-u);
  }
  // component k at (r, z, t), and the sum of the magnitudes of all terms
  double field(double r, double z, double t, U k, double* mag = nullptr) const {
    r = std::fabs(r); double d = std::hypot(r, z), lt = d * ior, x = t - lt, q = -1.0 / (4 * M_PI * ior * ior * d * d * d), c = z / d, s = r / d;
    double er = 2 * q * c * (theta(x) + lt * delta(x)), et = q * s * (theta(x) + lt * delta(x) + lt * lt * slope(x));
    if(mag) { double m = std::fabs(q) * (3 * theta(x) + 3 * lt * delta(x) + lt * lt * std::fabs(slope(x))); *mag += m; }
    return k == 0 ? er * s + et * c : er * c - et * s;
  }
  // an upper bound of the effect of rounding of the coordinates by eps
  double spread(double r, double z, double t, U k, double eps) const {
    double f = field(r, z, t, k), m = 0;
    for(int i = 0; i < 3; i++) for(int sg = -1; sg <= 1; sg += 2) m += std::fabs(field(r + (i == 0) * sg * eps, z + (i == 1) * sg * eps, t + (i == 2) * sg * eps, k) - f);
    return m;
  }
};
struct Setup { double r0, z0, r1, z1, t1; Dipole d; double rmin, os; };
static double requested(const Setup& s, int axis) {  // the sampling interval that the oversampling asks for
  double fmax = s.d.n / (2 * M_PI * s.d.tp) * std::sqrt(std::pow(2.0, 1.0 / (s.d.n + 1)) - 1), dt = 1 / (2 * fmax * s.os); return axis == 2 ? dt : dt / s.d.ior;
}
static void make(const fs::path& dir, const fs::path& scratch, const Setup& s, U chunk) {
  Quiet q; GreensFunctionCalculator::Analytic::ElectricDipole(dir, scratch, RZCoordVector{(float)s.r0, (float)s.z0}, RZCoordVector{(float)s.r1, (float)s.z1}, (float)s.t1, (float)s.d.ior, (float)s.d.tp, s.d.n, (float)s.rmin, (float)s.os, chunk);
}
static std::string str(const Setup& s) { char b[250]; std::snprintf(b, 250, "domain (%g, %g)-(%g, %g), times up to %g, refractive index %g, peak time %g, order %d, oversampling %g", s.r0, s.z0, s.r1, s.z1, s.t1, s.d.ior, s.d.tp, s.d.n, s.os); return b; }

// stored values of every grid point, the two end points, and the evaluation
static void examine(Ctx& c, const fs::path& dir, const Setup& s, U cache, bool few) {
  const double lo[3] = {s.r0, s.z0, 0}, hi[3] = {s.r1, s.z1, s.t1}; U n[3]; double step[3], top = 0; for(int k = 0; k < 3; k++) top = std::max({top, std::fabs(lo[k]), std::fabs(hi[k])});
  const double eps = 4e-7 * top * std::max(1.0, s.d.ior); U causal = 0, nonzero = 0; struct Pt { bool ok = true; double f[2], mag[2] = {0, 0}, tol[2]; }; std::vector<Pt> pts;
  {
    Quiet q; Distributed_RZT_ErEz_Array d(dir, 400, RZTVector<std::size_t>(U(1)), RZTVector<std::size_t>(ser_default<3>())); const RZTVector<std::size_t> shape = d.GetShape();
    for(int k = 0; k < 3; k++) {
      n[k] = shape[k]; double want = (hi[k] - lo[k]) / requested(s, k);
      // so many intervals that their length is close to the one asked for; at least one
      c.check(n[k] >= 2 && std::fabs(n[k] - 1 - want) < 1.0001, "%zu samples along axis %d, requested are %.3f intervals", n[k], k, want); step[k] = (hi[k] - lo[k]) / (n[k] - 1);
    }
    pts.resize(n[0] * n[1] * n[2]);
    for(U i = 0; i < n[0]; i++) for(U j = 0; j < n[1]; j++) for(U l = 0; l < n[2]; l++) {
      double r = lo[0] + i * step[0], z = lo[1] + j * step[1], t = l * step[2], dist = std::hypot(r, z); Pt& p = pts[(i * n[1] + j) * n[2] + l]; if(dist < s.rmin * 1.0001 + 1e-5) { p.ok = false; continue; }
      const auto v = d[RZTVector<std::size_t>{i, j, l}];
      for(U k = 0; k < 2; k++) {
        double want = p.f[k] = s.d.field(r, z, t, k, &p.mag[k]), tol = p.tol[k] = 2e-5 * p.mag[k] + 2 * s.d.spread(r, z, t, k, eps) + 3e-6 / (4 * M_PI * s.d.ior * s.d.ior * dist * dist * dist), got = v[k]; c.observe_f(std::fabs(got) < 1e-6 ? 0 : (float)std::round(got * 1e3));
        c.check(std::fabs(got - want) <= tol, "component %zu at index (%zu, %zu, %zu), that is (r, z, t) = (%.6g, %.6g, %.6g): stored %.8g, expected %.8g", k, i, j, l, r, z, t, got, want);
        if(t < dist * s.d.ior - eps) { causal++; c.check(got == 0, "component %zu at (r, z, t) = (%.6g, %.6g, %.6g) is %.8g before the light travel time", k, r, z, t, got); } else nonzero += std::fabs(got) > 100 * tol;
      }
    }
  }
  c.check(nonzero > 0, "no grid point has a field"); if(causal) c.nontrivial();
  Quiet q; GF g(dir, cache < 5 ? cache : 8);
  RZTCoordVector a = g.start_coords(), b = g.end_coords();
  for(int k = 0; k < 3; k++) { c.check(std::fabs(a[k] - lo[k]) <= 1e-6 * top, "the domain starts at %.8g instead of %.8g along axis %d", a[k], lo[k], k); c.check(std::fabs(b[k] - hi[k]) <= 1e-6 * top, "the domain ends at %.8g instead of %.8g along axis %d", b[k], hi[k], k); }
  // time series at places between grid points, through the interpolation that the signal calculation uses
  for(U i = 0; i + 1 < n[0]; i++) for(U j = 1; j + 2 < n[1]; j++) for(double u : {0.0, 0.25, 0.5}) {
    double r = lo[0] + (i + u) * step[0], z = lo[1] + (j + 1 - u) * step[1]; bool ok = true; const int s1 = 1;
    // not next to the excluded region, and not at the rim where the margin enters
    for(int p = -s1; p <= 1 + s1; p++) for(int w = -s1; w <= 1 + s1; w++) { int ii = std::abs((int)i + p), jj = (int)j + w + (u == 0); if(ii >= (int)n[0] || jj < 0 || jj >= (int)n[1]) ok = false; else if(std::hypot(lo[0] + ii * step[0], lo[1] + jj * step[1]) < s.rmin * 1.0001 + 1e-5) ok = false; }
    if(!ok || (int)i - 1 < 0 || (few && (u != 0.25 || (i + j) % 2))) continue;
    for(U k = 0; k < 2; k++) {
      std::vector<float> sig(2 * n[2] - 3, 0.0f); RZCoordVector pos{(float)r, (float)z}; RZFieldVector src{k == 0 ? 1.0f : 0.0f, k == 1 ? 1.0f : 0.0f}; c.step();
      const double t0 = 0.0, dt = (n[2] - 1) * step[2] / (2 * n[2] - 2) ; g.accumulate_inner_product<Keys, float>(pos, (float)t0, (float)dt, sig.size(), src, sig.begin(), 1.0f);
      for(U l = 2; l < sig.size() && l + 2 < sig.size(); l++) {
        double t = l * dt, want = 0, mag = 0, tol = 0, most = 0; int tb = (int)(l / 2), rb0 = (int)std::floor((r - lo[0]) / step[0] + 1e-9), zb = (int)std::floor((z - lo[1]) / step[1] + 1e-9);
        for(int p = rb0 - 1; p <= rb0 + 2; p++) for(int w = zb - 1; w <= zb + 2; w++) for(int y = tb - 1; y <= tb + 2; y++) {
          double wt = RefKernel<Keys>::w((r - lo[0]) / step[0] - p) * RefKernel<Keys>::w((z - lo[1]) / step[1] - w) * RefKernel<Keys>::w(t / step[2] - y); if(std::fabs(wt) < 1e-9) { if(p >= 0 && w >= 0 && y >= 0 && p < (int)n[0] && w < (int)n[1] && y < (int)n[2]) most = std::max(most, pts[((U)p * n[1] + w) * n[2] + y].mag[k]); continue; } if(p >= (int)n[0] || w >= (int)n[1] || w < 0 || p < 0 || y >= (int)n[2] || y < 0) { c.fail("the harness left the grid"); }
          const Pt& q = pts[((U)p * n[1] + w) * n[2] + y]; want += wt * q.f[k]; mag += std::fabs(wt) * q.mag[k]; tol += std::fabs(wt) * (q.tol[k] + 4e-6 * top / std::min({step[0], step[1], step[2]}) * std::fabs(q.f[k]));
        }
        c.check(std::fabs(sig[l] - want) <= 4e-5 * mag + 2 * tol + 4e-6 * most, "component %zu at (r, z, t) = (%.6g, %.6g, %.6g): evaluated %.8g, expected from the analytic values %.8g", k, r, z, t, sig[l], want);
      }
    }
  }
}
// extents of the domain in units of the requested sampling interval
static Setup setup(Ctx& c, bool big) {
  static const double par[][4] = {{1, 1, 4, 1}, {1.5, 2, 2, 1}, {1.78, 1, 6, 1.5}, {1, 3, 1, 1}, {1.25, 0.5, 3, 2}, {2, 2, 5, 0.75}}; auto& p = par[c.choose(c.lite ? 3 : 6)];
  Setup s; s.d = {p[0], p[1], (int)p[2]}; s.os = p[3]; const double dx = requested(s, 0), dt = requested(s, 2);
  const double nr = big ? c.pick({1.4, 3.3, 4.6}) : c.pick({1.4, 3.3}), nz = big ? c.pick({2.7, 4.3}) : c.pick({2.7, 3.8}), nt = big ? c.pick({5.5, 8.3, 11.6}) : c.pick({5.5, 8.3}); s.r0 = c.choose(2) ? 1.3 * dx : 0.0; s.r1 = s.r0 + nr * dx;
  const double off[] = {-0.45, 0.3, -1.2}; s.z0 = off[c.choose(big ? 3 : 2)] * nz * dx; s.z1 = s.z0 + nz * dx; s.t1 = nt * dt; s.rmin = 0.55 * dx; return s;
}
static void grids(Ctx& c, bool big) {
  Setup s = setup(c, big); U chunk, cache = 5; bool present = false;
  if(big) { chunk = c.pick({1, 2, 3, 4, 5, 6, 8, 13, 40}); cache = c.pick({1, 5}); present = c.flag(); }
  else { int w = c.choose(5); chunk = (U[]){1, 2, 3, 5, 40}[w]; if(w == 2) cache = 1; present = w == 2; if(chunk == 1 && s.t1 > 6 * requested(s, 2)) { c.prune(); return; } }
  c.op("%s; chunks of %zu, cache of %zu%s", str(s).c_str(), chunk, cache, present ? ", replacing an older file" : ""); c.state(mc::mix((U)(s.r1 * 1e4), mc::mix((U)(s.z1 * 1e4 + 1e6), mc::mix((U)(s.t1 * 1e4), chunk * 64 + cache * 2 + present))));
  fs::path dir = c.scratch() / "gf", scratch = c.scratch() / "tmp"; fs::create_directories(scratch); std::ofstream(scratch / "notes.txt") << "keep";
  if(present) { Setup o = s; o.r1 = s.r0 + 5.5 * requested(s, 0); o.t1 *= 1.7; make(dir, scratch, o, 2); }
  c.step(); make(dir, scratch, s, chunk); U left = 0; for(auto& e : fs::directory_iterator(scratch)) { left++; c.check(e.path().filename() == "notes.txt", "%s is left behind in the scratch directory", e.path().filename().c_str()); } c.check(left == 1, "a file of somebody else has disappeared from the scratch directory");
  examine(c, dir, s, cache, !big && chunk < 3);
}
// the incomplete gamma function, of which the response to a step is made
static void gamma(Ctx& c) {
  float a = 0.5f * c.range(1, c.thorough ? 40 : 24); U m = c.thorough ? 6000 : 1200; c.op("a = %g", a); c.state((U)(a * 2)); c.nontrivial();
  for(U i = 1; i <= m; i++) {
    float z = 0.0125f * i * (c.thorough ? 0.5f : 1.0f) * 1.7f; c.step(); double got = MathUtils::incomplete_gamma(a, z), whole = std::tgamma((double)a);
    // upper function: recurrence from a = 1 or 1/2
    double g = a == std::floor(a) ? std::exp(-(double)z) : std::sqrt(M_PI) * std::erfc(std::sqrt((double)z)), b = a == std::floor(a) ? 1 : 0.5; while(b < a - 0.25) { g = b * g + std::pow((double)z, b) * std::exp(-(double)z); b += 1; }
    c.observe_f((float)std::round(got / whole * 1e3)); c.check(std::fabs(got - g) <= 2e-5 * whole, "incomplete gamma function of (%g, %g): %.8g, expected %.8g (complete: %.8g)", a, z, got, g, whole);
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C22"; h.level = "model_checking";
  h.assumptions = {"the domain spans at least one sampling interval along each axis", "points closer to the dipole than the minimum distance have no defined field and are not compared", "values agree within single-precision rounding of the coordinates and of the sum of the magnitudes of all terms", "the number of samples along an axis may differ from the requested oversampling by rounding to whole intervals"};
  h.space("grids", "six filters and media, domains on and off the axis and around, above and below the dipole, all chunk sizes from single points to larger than the domain, with and without older files in place", 4, [](Ctx& c) { grids(c, c.thorough); });
  h.space("gamma", "the incomplete gamma function for all half-integer orders up to 12 (20) on a lattice", 1, [](Ctx& c) { gamma(c); }, 1);
  return mc::run_main(h, argc, argv);
}
