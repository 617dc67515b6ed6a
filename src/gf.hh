// Green's functions next to the sampled field they store.
#pragma once
#include "rb.hh"
#include "Common.hh"
#include "GreensFunction.hh"
#include "Symmetry.hh"
#include "Interpolation.hh"
#include "Quadrature.hh"

namespace gf {
  using namespace rb;
  using I3 = Ind<3>;
  using GF = CylindricalGreensFunction;
  using Keys = Interpolation::Kernel::Keys;
  using Linear = Interpolation::Kernel::Linear;
  using CArr = SpatialSymmetry::Cylindrical<float>::darr_t;

  // silence the progress messages of the code under test
  struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(nullptr)) { } ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };

  // a sampled field; reads at negative radius mirror, zero elsewhere outside
  struct Field {
    I3 n; std::vector<float> v;
    Field(const I3& n) : n(n), v(count<3>(n) * 2, 0.0f) { }
    float& at(const I3& i, U k) { return v.at(flat<3>(i, n) * 2 + k); }
    double get(int r, int z, int t, U k) const {
      if(r < 0) r = -r;
      if(z < 0 || t < 0 || r >= (int)n[0] || z >= (int)n[1] || t >= (int)n[2]) return 0.0;
      return v[(((U)r * n[1] + z) * n[2] + t) * 2 + k];
    }
    std::uint64_t hash() const { std::uint64_t h = hash_ind<3>(n); for(float f : v) { std::uint32_t u; std::memcpy(&u, &f, 4); h = mc::mix(h, u); } return h; }
  };
  inline float pattern(U q) { U h = q * 2654435761u + 12345; h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15; int x = (int)(h % 41) - 20; return 0.25f * (x ? x : 21); }
  // 0: dense, 1: only at the beginning, 2: only at the end, 3: only at both ends, 4: only in the middle (all along t), 5: all zero
  inline Field field(const I3& n, int kind) {
    Field f(n); U q = 0;
    each<3>(I3(U(0)), n, [&](const I3& i) {
      bool on = kind == 0 || (kind == 1 && i[2] == 0) || (kind == 2 && i[2] == n[2] - 1) || (kind == 3 && (i[2] == 0 || i[2] == n[2] - 1)) || (kind == 4 && i[2] == n[2] / 2);
      for(U k = 0; k < 2; k++) { q++; if(on) f.at(i, k) = pattern(q); }
    });
    return f;
  }

  template <class K> struct RefKernel;
  template <> struct RefKernel<Linear> { static double w(double x) { x = std::fabs(x); return x < 1 ? 1 - x : 0; } static constexpr int support = 1; };
  template <> struct RefKernel<Keys> { static double w(double x) { x = std::fabs(x); return x < 1 ? (1.5 * x - 2.5) * x * x + 1 : x < 2 ? ((-0.5 * x + 2.5) * x - 4) * x + 2 : 0; } static constexpr int support = 2; };

  // kernel interpolation of the padded field at a fractional index; also the sum of |terms| as a scale for rounding
  template <class K> double interp(const Field& f, double r, double z, double t, U k, double* scale = nullptr) {
    constexpr int s = RefKernel<K>::support;
    int r0 = (int)std::floor(r), z0 = (int)std::floor(z), t0 = (int)std::floor(t); double sum = 0, a = 0;
    for(int i = r0 - s + 1; i <= r0 + s; i++) { double wi = RefKernel<K>::w(r - i); if(wi == 0) continue;
      for(int j = z0 - s + 1; j <= z0 + s; j++) { double wj = RefKernel<K>::w(z - j); if(wj == 0) continue;
        for(int l = t0 - s + 1; l <= t0 + s; l++) { double x = wi * wj * RefKernel<K>::w(t - l) * f.get(i, j, l, k); sum += x; a += std::fabs(x); } } }
    if(scale) *scale += a + 1e-3;
    return sum;
  }

  // store the field with the given chunking; the overlap is filled in independently of the code under test
  struct Grid { double start[3] = {0, 0, 0}, step[3] = {1, 1, 1}; };
  inline void store(const fs::path& dir, const Field& f, const I3& size, U overlap, const Grid& g, bool opt) {
    Quiet q;
    Distributed_RZT_ErEz_Array d(dir, 1, RZTVector<std::size_t>(U(1)), RZTVector<std::size_t>(ser_default<3>()));
    for(auto& [a, b] : tiling<3>(I3(U(0)), f.n, size)) {
      I3 lo = ind<3>(a), hi = ind<3>(b), full = (hi - lo) + 2 * overlap;
      Arr<3, 2> c(full);
      each<3>(I3(U(0)), full, [&](const I3& i) { for(U k = 0; k < 2; k++) c[i][k] = f.get((int)i[0] + (int)lo[0] - (int)overlap, (int)i[1] + (int)lo[1] - (int)overlap, (int)i[2] + (int)lo[2] - (int)overlap, k); });
      d.RegisterChunk(c, lo, hi, overlap, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    }
    RZTCoordVector s{(float)g.start[0], (float)g.start[1], (float)g.start[2]}, iv{(float)g.step[0], (float)g.step[1], (float)g.step[2]}, e;
    for(int k = 0; k < 3; k++) e[k] = g.start[k] + g.step[k] * (f.n[k] - 1);
    GF make(s, e, iv, std::move(d));
  }
  inline std::unique_ptr<GF> open(const fs::path& dir, U cache) { Quiet q; return std::make_unique<GF>(dir, cache); }

  struct Query { double r, z, t, dt; U n; };
  // one inner product with guards around the output
  template <class K> std::vector<float> inner(Ctx& c, GF& g, const Grid& gr, const Query& q, double sr, double sz, double weight, Green::OutOfBoundsBehavior mode, const std::vector<float>& before, bool* threw = nullptr) {
    std::vector<float> sig(before);
    RZCoordVector pos; pos.r() = (float)(gr.start[0] + q.r * gr.step[0]); pos.z() = (float)(gr.start[1] + q.z * gr.step[1]);
    RZFieldVector src; src.r() = (float)sr; src.z() = (float)sz;
    try { g.accumulate_inner_product<K, float>(pos, (float)(gr.start[2] + q.t * gr.step[2]), (float)(q.dt * gr.step[2]), q.n, src, sig.begin() + 2, (float)weight, mode); }
    catch(const std::exception&) { if(!threw) throw; *threw = true; }
    return sig;
  }
  // a straight current segment, and the window in which the signal is computed
  struct Seg { double p0[3], p1[3], t0, t1, q; };
  struct Win { double start, samp; U n; };
  inline LineCurrentSegment segment(const Seg& s) {
    return LineCurrentSegment(XYZCoordVector{(float)s.p0[0], (float)s.p0[1], (float)s.p0[2]}, XYZCoordVector{(float)s.p1[0], (float)s.p1[1], (float)s.p1[2]}, (float)s.t0, (float)s.t1, (float)s.q);
  }
  // nothing is stored for an index at least one cell outside
  inline bool outside(double x, U n) { return x <= -1 || x >= n; }
  // causal trapezoidal convolution with at most unit steps; scale is an upper bound of the sum of the magnitudes per sample
  // oob receives the number of contributions that are outside of the stored domain
  template <class K> void convolve(const Field& f, const Grid& g, const Seg& s, const Win& w, double weight, std::vector<double>& out, std::vector<double>& scale, U* oob = nullptr, std::vector<double>* slack = nullptr, bool dyadic = true) {
    U steps = (U)std::ceil(s.t1 - s.t0); double h = (s.t1 - s.t0) / steps; int e; const bool exact = dyadic && (steps & (steps - 1)) == 0 && std::frexp(w.samp, &e) == 0.5;
    for(U i = 0; i <= steps; i++) {
      double tp = s.t0 + i * h, u = (double)i / steps, x[3], v[3];
      for(int k = 0; k < 3; k++) { x[k] = s.p0[k] + u * (s.p1[k] - s.p0[k]); v[k] = s.q * (s.p1[k] - s.p0[k]) / (s.t1 - s.t0); }
      double rho = std::sqrt(x[0] * x[0] + x[1] * x[1]), jr = rho > 0 ? (v[0] * x[0] + v[1] * x[1]) / rho : 0, jz = v[2];
      const bool on_axis = !exact && rho < 1e-4; if(on_axis) jr = 0;
      double ri = (rho - g.start[0]) / g.step[0], zi = (x[2] - g.start[1]) / g.step[1], c = -(i == 0 || i == steps ? 0.5 : 1.0) * h * weight;
      for(U k = 0; k < w.n; k++) {
        double t = w.start + k * w.samp - tp; const bool close = !exact && std::fabs(t) < 1e-4;
        if(t < 0 && !close) continue;
        double ti = (t - g.start[2]) / g.step[2];
        if(outside(ri, f.n[0]) || outside(zi, f.n[1]) || outside(ti, f.n[2])) { if(oob) (*oob)++; continue; }
        double sr = 0, sz = 0, x = c * (jr * interp<K>(f, ri, zi, ti, 0, &sr) + jz * interp<K>(f, ri, zi, ti, 1, &sz));
        // on the axis the radial direction is a matter of rounding
        if(on_axis && slack) (*slack)[k] += std::fabs(c) * std::hypot(v[0], v[1]) * std::fabs(interp<K>(f, ri, zi, ti, 0));
        // whether the sample is causal is a matter of rounding
        if(close) { out[k] += x / 2; if(slack) (*slack)[k] += std::fabs(x) / 2; } else out[k] += x;
        scale[k] += std::fabs(c) * (std::fabs(jr) * sr + std::fabs(jz) * sz);
      }
    }
  }
  inline std::string str(const Seg& s) { char b[240]; std::snprintf(b, 240, "segment (%g,%g,%g)-(%g,%g,%g), times %g to %g, charge %g", s.p0[0], s.p0[1], s.p0[2], s.p1[0], s.p1[1], s.p1[2], s.t0, s.t1, s.q); return b; }
  inline std::string str(const Win& w) { char b[100]; std::snprintf(b, 100, "%zu samples from %g every %g", w.n, w.start, w.samp); return b; }
  inline std::string str(const Query& q) { char b[200]; std::snprintf(b, 200, "index (%g, %g), from %g in %zu steps of %g", q.r, q.z, q.t, q.n, q.dt); return b; }
}
