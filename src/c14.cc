// C14: sampling a Green's function onto a grid.
#include "gf.hh"
using namespace gf;

// one axis of a box, as array indices, and the number of samples
struct Axis { double a, b; U n; };

template <class K> void check_box(Ctx& c, GF& g, const Field& f, const Grid& gr, const Axis ax[3], GF::chunk_t& out, double tol) {
  RZTCoordVector lo, hi; RZTVector<std::size_t> num; char what[300];
  for(int k = 0; k < 3; k++) { lo[k] = (float)(gr.start[k] + ax[k].a * gr.step[k]); hi[k] = (float)(gr.start[k] + ax[k].b * gr.step[k]); num[k] = ax[k].n; }
  std::snprintf(what, 300, "box r %g..%g (%zu), z %g..%g (%zu), t %g..%g (%zu)", ax[0].a, ax[0].b, ax[0].n, ax[1].a, ax[1].b, ax[1].n, ax[2].a, ax[2].b, ax[2].n);
  c.step();
  g.fill_array<K>(lo, hi, num, out);
  I3 shape{num[0], num[1], num[2]}; c.check(I3(out.GetShape()) == shape, "%s: shape of the output is %s", what, ::str(I3(out.GetShape())).c_str());
  auto at = [&](int k, U i) { return ax[k].n > 1 ? ax[k].a + i * (ax[k].b - ax[k].a) / (ax[k].n - 1) : ax[k].a; };
  each<3>(I3(U(0)), shape, [&](const I3& i) { for(U k = 0; k < 2; k++) {
    double sc = 0, want = interp<K>(f, at(0, i[0]), at(1, i[1]), at(2, i[2]), k, &sc), got = out[i][k];
    c.check(std::fabs(got - want) <= tol * (3 * sc + 1), "%s: component %zu at %s is %.7g, expected %.7g", what, k, ::str(i).c_str(), got, want);
  } });
}

// intervals within [0, n-1]: from the first to the last sample, inside of one cell, on boundaries, of zero length
static std::vector<Axis> intervals(U n, double lattice, std::vector<U> nums) {
  std::vector<Axis> r; for(double a = 0; a <= n - 1; a += lattice) for(double b = a; b <= n - 1; b += lattice) for(U k : nums) r.push_back({a, b, k});
  return r;
}

// all intervals of one axis with a few on the other axes
template <class K> void boxes(Ctx& c, I3 n, std::vector<I3> sizes, std::vector<int> kinds, std::vector<U> caches, double lattice, std::vector<U> nums) {
  I3 size = c.pick(sizes); int kind = c.pick(kinds); bool opt = kind != 0; U cache = c.pick(caches), overlap = K::support + (U)(kind & 1); int axis = c.choose(3); int gk = c.choose(2);
  Grid gr; if(gk) gr = {{4.0, -10.0, 16.0}, {2.0, 0.5, 0.25}};
  c.op("field %s kind %d in chunks of %s, overlap %zu, cache depth %zu, grid %d, intervals along %d", ::str(n).c_str(), kind, ::str(size).c_str(), overlap, cache, gk, axis);
  auto dir = c.scratch(); Field f = field(n, kind); store(dir / "g", f, size, overlap, gr, opt); auto g = open(dir / "g", cache);
  std::vector<Axis> iv[3]; for(int k = 0; k < 3; k++) iv[k] = k == axis ? intervals(n[k], lattice, nums) : std::vector<Axis>{{0, n[k] - 1.0, n[k]}, {0.25, n[k] - 1.25, 2}, {n[k] - 1.5, n[k] - 1.5, 1}, {n[k] - 1.0, n[k] - 1.0, 1}};
  std::uint64_t hs = f.hash(); for(U x : {size[0], size[1], size[2], (U)opt, cache, overlap, (U)gk, (U)axis}) hs = mc::mix(hs, x); U nb = 0;
  GF::chunk_t out(RZTVector<std::size_t>(U(1))); // the same output array is used again and again
  for(auto& x : iv[0]) for(auto& y : iv[1]) for(auto& z : iv[2]) { const Axis ax[3] = {x, y, z}; c.state(mc::mix(hs, nb++)); check_box<K>(c, *g, f, gr, ax, out, 2e-5); }
}
// numbers of samples, and limits that are not exact in binary
template <class K> void counts(Ctx& c, bool big) {
  I3 n{(U)3, (U)3, (U)7}; I3 size = c.pick(std::vector<I3>{{(U)1, (U)2, (U)3}, {(U)2, (U)1, (U)2}, {(U)3, (U)3, (U)7}}); int axis = c.choose(3); Grid gr{{0.0, -0.7, 0.3}, {0.3, 0.1, 0.7}};
  auto dir = c.scratch(); Field f = field(n, 0); store(dir / "g", f, size, K::support, gr, false); auto g = open(dir / "g", 2); GF::chunk_t out(RZTVector<std::size_t>(U(1)));
  c.op("chunks of %s, along %d", ::str(size).c_str(), axis); const double L = n[axis] - 1;
  // the upper limit stays clear of the last sample, so that rounding cannot move it out of the domain
  for(double a : {0.0, 0.1, 1.0, 1.7}) for(double b : {a, a + 0.05, 1.9, L - 0.3, L * (1 - 1e-6)}) for(U k = 1; k < (big ? 60 : 24); k++) { if(b < a) continue; Axis ax[3] = {{0.3, 1.1, 2}, {0.7, 1.3, 2}, {0.4, 2.6, 3}}; ax[axis] = {a + 1e-6, b + 1e-6 > L ? b : b + 1e-6, k}; check_box<K>(c, *g, f, gr, ax, out, 1e-3); }
}
// sequences of calls on the same object, mixed with inner products
template <class K> void history(Ctx& c, int depth) {
  I3 n{(U)3, (U)2, (U)6}, size{(U)2, (U)1, (U)2}; int kind = c.choose(2) * 3; U cache = (U)c.choose(3); Grid gr;
  auto dir = c.scratch(); Field f = field(n, kind); store(dir / "g", f, size, K::support, gr, kind != 0); auto g = open(dir / "g", cache); GF::chunk_t out(RZTVector<std::size_t>(U(3)));
  const Axis b[][3] = {{{0, 2, 3}, {0, 1, 2}, {0, 5, 6}}, {{2, 2, 1}, {1, 1, 1}, {5, 5, 1}}, {{0.5, 1.5, 2}, {0, 0.5, 3}, {1.75, 4.25, 11}}, {{0, 0, 1}, {0, 1, 5}, {3.5, 3.5, 1}}};
  for(int k = 0; k < depth; k++) {
    int o = c.choose(5);
    if(o < 4) { c.op("box %d", o); check_box<K>(c, *g, f, gr, b[o], out, 2e-5); }
    else { Query q{1.5, 0.5, 0.5, 0.75, 5}; c.op("inner product"); auto s = inner<K>(c, *g, gr, q, 1, 2, 1, Green::RaiseError, std::vector<float>(9)); for(U i = 0; i < 5; i++) { double sc = 0; double w = interp<K>(f, q.r, q.z, q.t + i * q.dt, 0, &sc) + 2 * interp<K>(f, q.r, q.z, q.t + i * q.dt, 1, &sc); c.check(std::fabs(s[i + 2] - w) < 2e-5 * (6 * sc + 1), "inner product after filling an array: sample %zu is %.7g, expected %.7g", i, s[i + 2], w); } }
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C14"; h.level = "model_checking";
  h.assumptions = {"the lower limit of the box is not above the upper one, and both are inside the domain", "a single sample along an axis is taken at the lower limit", "agreement within 2e-5 of the sum of the magnitudes for limits that are exact in single precision, 1e-3 otherwise"};
  std::vector<I3> few{{(U)1, (U)2, (U)1}, {(U)2, (U)1, (U)3}, {(U)3, (U)3, (U)6}}, all; for(U r : {1, 2, 3}) for(U z : {1, 2, 3}) for(U t : {1, 2, 3, 4, 6}) all.push_back({r, z, t});
  I3 n{(U)3, (U)3, (U)6};
  h.space("boxes-keys", "3x3x6 samples in 3 (45) chunk sizes, all intervals on a half- (quarter-) cell lattice along each axis, 1 to 9 samples", 4, [=](Ctx& c) { if(c.thorough) boxes<Keys>(c, n, all, {0, 1, 3, 4}, {0, 1, 4}, 0.25, {1, 2, 3, 4, 5, 9}); else boxes<Keys>(c, n, few, {0, 3}, {1}, c.lite ? 1.0 : 0.5, {1, 2, 3, 5}); });
  h.space("boxes-linear", "the same with the linear kernel", 4, [=](Ctx& c) { if(c.thorough) boxes<Linear>(c, n, all, {0, 1, 3, 4}, {0, 1, 4}, 0.25, {1, 2, 3, 4, 5, 9}); else boxes<Linear>(c, n, few, {0, 4}, {1}, c.lite ? 1.0 : 0.5, {1, 2, 3, 5}); });
  h.space("counts", "1 to 23 (59) samples along one axis, limits that are not exact in single precision", 2, [](Ctx& c) { if(c.choose(2)) counts<Keys>(c, c.thorough); else counts<Linear>(c, c.thorough); });
  h.space("history", "all sequences of 3 (5) out of 4 boxes and an inner product, cache depths 0 to 2", 4, [](Ctx& c) { if(c.choose(2)) history<Keys>(c, c.thorough ? 5 : 3); else history<Linear>(c, c.thorough ? 5 : 3); });
  return mc::run_main(h, argc, argv);
}
