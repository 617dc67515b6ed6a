// C11: inner products with a Green's function.
#include "gf.hh"
using namespace gf;

template <class K> void check_query(Ctx& c, GF& g, const Field& f, const Grid& gr, const Query& q, int variant, U split) {
  // output with guards in front and behind, already holding something
  std::vector<float> before(q.n + 4); for(U k = 0; k < before.size(); k++) before[k] = variant == 0 ? 0.0f : 3.0f - 0.5f * (float)k;
  double sr = variant == 1 ? 0 : variant == 2 ? -1.5 : 1, sz = variant == 0 ? 0 : variant == 1 ? 1 : 2, w = variant == 2 ? -0.75 : 1;
  std::vector<float> sig;
  if(split == 0 || split >= q.n) sig = inner<K>(c, g, gr, q, sr, sz, w, Green::RaiseError, before);
  else {
    // the same samples requested in two calls
    Query a = q, b = q; a.n = split; b.n = q.n - split; b.t = q.t + q.dt * split;
    std::vector<float> t1 = inner<K>(c, g, gr, a, sr, sz, w, Green::RaiseError, before);
    std::vector<float> tail(t1.begin() + split, t1.end());
    tail = inner<K>(c, g, gr, b, sr, sz, w, Green::RaiseError, tail);
    sig = t1; std::copy(tail.begin(), tail.end(), sig.begin() + split);
  }
  for(U k = 0; k < before.size(); k++) if(k < 2 || k >= q.n + 2) c.check(sig[k] == before[k], "%s: output outside of the requested samples is changed", str(q).c_str());
  for(U k = 0; k < q.n; k++) {
    double scale = 1e-2, want = before[k + 2] + w * (sr * interp<K>(f, q.r, q.z, q.t + k * q.dt, 0, &scale) + sz * interp<K>(f, q.r, q.z, q.t + k * q.dt, 1, &scale));
    double got = sig[k + 2];
    c.check(std::fabs(got - want) <= 2e-5 * (3 * scale + std::fabs(want) + 1), "%s%s: sample %zu is %.7g, expected %.7g", str(q).c_str(), split ? " (in two calls)" : "", k, got, want);
  }
}

template <class K> void products(Ctx& c, I3 n, std::vector<I3> sizes, std::vector<int> kinds, std::vector<U> caches, std::vector<int> grids, double lattice, std::vector<double> dts) {
  I3 size = c.pick(sizes); int kind = c.pick(kinds); bool opt = c.choose(2); U cache = c.pick(caches); U overlap = K::support + (U)c.choose(2); int gk = c.pick(grids);
  Grid gr; if(gk == 1) gr = {{0.0, -3.5, 0.0}, {0.5, 0.25, 2.0}}; if(gk == 2) gr = {{4.0, 10.0, 16.0}, {2.0, 0.5, 0.25}};
  c.op("field %s kind %d in chunks of %s, overlap %zu%s, cache depth %zu, grid %d", ::str(n).c_str(), kind, ::str(size).c_str(), overlap, opt ? ", optimized" : "", cache, gk);
  auto dir = c.scratch(); Field f = field(n, kind);
  store(dir / "g", f, size, overlap, gr, opt);
  auto g = open(dir / "g", cache);
  std::uint64_t hs = f.hash(); for(U x : {size[0], size[1], size[2], (U)opt, cache, overlap, (U)gk}) hs = mc::mix(hs, x); U nq = 0;
  for(double dt : dts) for(double t = 0; t <= n[2] - 1; t += lattice) for(double r = 0; r <= n[0] - 1; r += lattice) for(double z = 0; z <= n[1] - 1; z += lattice) {
    U most = (U)std::floor((n[2] - 1 - t) / dt) + 1;
    nq++; c.step(); c.state(mc::mix(hs, nq));
    check_query<K>(c, *g, f, gr, {r, z, t, dt, most}, (int)(nq % 3), 0);
    if(most > 1 && (r + z) * 2 < 2) for(U k = 1; k < most; k++) check_query<K>(c, *g, f, gr, {r, z, t, dt, most}, 2, k);
    if(nq % 7 == 0) { check_query<K>(c, *g, f, gr, {r, z, t, dt, 1}, 1, 0); check_query<K>(c, *g, f, gr, {r, z, t, dt, 0}, 1, 0); }
  }
}

// sequences of queries on the same object
template <class K> void history(Ctx& c, I3 n, int depth, std::vector<U> caches) {
  I3 size = c.pick(std::vector<I3>{{(U)1, (U)2, (U)2}, {(U)2, (U)1, (U)3}}); bool opt = c.choose(2); U cache = c.pick(caches); int kind = opt ? 3 : 0;
  auto dir = c.scratch(); Field f = field(n, kind); Grid gr; store(dir / "g", f, size, K::support, gr, opt);
  auto g = open(dir / "g", cache);
  const double T = n[2] - 1, R = n[0] - 1, Z = n[1] - 1;
  std::vector<Query> qs{{0, 0, 0, 0.5, (U)(2 * T + 1)}, {R, Z, T, 1, 1}, {0.5, 0.75, 0.25, 2.25, 3}, {R, 0, 1, 1, (U)T}, {R - 0.25, Z, T - 2, 0.5, 5}, {0, Z - 0.5, 2, 0.25, 9}};
  for(int k = 0; k < depth; k++) { const Query& q = qs[c.choose((int)qs.size())]; c.op("query %s", str(q).c_str()); check_query<K>(c, *g, f, gr, q, k % 3, 0); }
}

// steps and positions that are not exact in binary: chunk boundaries are hit only up to rounding
template <class K> void rounding(Ctx& c, U nt, std::vector<U> sizes, std::vector<double> steps, std::vector<double> dts, int starts) {
  U size = c.pick(sizes); double step = c.pick(steps); int off = c.choose(2); I3 n{(U)2, (U)2, nt};
  Grid gr{{0.0, -0.7, off ? 12.3 : 0.0}, {0.3, 0.1, step}};
  c.op("field %s in chunks of %zu, step %g, start %g", ::str(n).c_str(), size, step, gr.start[2]);
  auto dir = c.scratch(); Field f = field(n, 0); store(dir / "g", f, {(U)2, (U)2, size}, K::support, gr, false);
  auto g = open(dir / "g", 3); U nq = 0;
  for(double dt : dts) for(int s = 0; s < starts; s++) {
    double t = s * 0.1; if(t > nt - 1) continue;
    // the query as it arrives in single precision
    U most = (U)std::floor((nt - 1 - t) / dt * (1 + 1e-6)) + 1; Query q{0.1 * (s % 7), 0.3 * (s % 3), t, dt, most}; nq++; c.step();
    std::vector<float> before(q.n + 4, 0.5f); auto sig = inner<K>(c, *g, gr, q, 1, -2, 1, Green::RaiseError, before);
    for(U k = 0; k < before.size(); k++) {
      if(k < 2 || k >= q.n + 2) { c.check(sig[k] == before[k], "%s: output outside of the requested samples is changed", str(q).c_str()); continue; }
      double sc = 0, want = before[k] + interp<K>(f, q.r, q.z, t + (k - 2) * dt, 0, &sc) - 2 * interp<K>(f, q.r, q.z, t + (k - 2) * dt, 1, &sc);
      c.check(std::fabs(sig[k] - want) < 4e-3, "%s, step %g: sample %zu is %.7g, expected %.7g", str(q).c_str(), step, k - 2, sig[k], want);
    }
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C11"; h.level = "model_checking";
  h.assumptions = {"the overlap of the chunks holds the neighbouring samples (C08, C20) and is at least as wide as the kernel", "agreement within 2e-5 of the sum of the magnitudes for positions and times that are exact in single precision, 4e-3 otherwise"};
  std::vector<I3> sizes; for(U r : {1, 2, 3}) for(U z : {1, 2, 3}) for(U t : {1, 2, 3, 4, 6}) sizes.push_back({r, z, t});
  std::vector<I3> few{{(U)1, (U)1, (U)1}, {(U)2, (U)1, (U)2}, {(U)1, (U)2, (U)3}, {(U)3, (U)3, (U)6}}; std::vector<I3> lite{{(U)2, (U)1, (U)2}, {(U)3, (U)3, (U)3}};
  I3 n{(U)3, (U)3, (U)6}, nl{(U)2, (U)2, (U)12};
  std::vector<I3> longs{{(U)1, (U)2, (U)1}, {(U)2, (U)2, (U)2}, {(U)2, (U)1, (U)3}, {(U)2, (U)2, (U)5}};
  std::vector<double> dts{0.25, 0.5, 1, 1.5, 2, 2.75, 5}, dtf{0.5, 1, 1.75, 3};
  h.space("dense-keys", "3x3x6 samples, chunk sizes from 1 to the domain, half-cell positions, 7 sampling steps, all splittings", 4, [=](Ctx& c) { if(c.thorough) products<Keys>(c, n, sizes, {0}, {0, 1, 5}, {0, 1, 2}, 0.25, dts); else products<Keys>(c, n, c.lite ? lite : few, {0}, c.lite ? std::vector<U>{1} : std::vector<U>{0, 3}, c.lite ? std::vector<int>{0} : std::vector<int>{0, 1}, 0.5, c.lite ? dtf : dts); });
  h.space("dense-linear", "the same with the linear kernel", 4, [=](Ctx& c) { if(c.thorough) products<Linear>(c, n, sizes, {0}, {0, 1, 5}, {0, 1, 2}, 0.25, dts); else products<Linear>(c, n, c.lite ? lite : few, {0}, c.lite ? std::vector<U>{1} : std::vector<U>{0, 3}, c.lite ? std::vector<int>{0} : std::vector<int>{0, 2}, 0.5, c.lite ? dtf : dts); });
  h.space("null-keys", "2x2x12 samples, fields that vanish in some chunks", 4, [=](Ctx& c) { products<Keys>(c, nl, longs, c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{1, 3, 4, 5}, c.thorough ? std::vector<U>{0, 2, 20} : std::vector<U>{1}, {0}, 0.5, c.thorough ? dts : dtf); });
  h.space("null-linear", "the same with the linear kernel", 4, [=](Ctx& c) { products<Linear>(c, nl, longs, c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{2, 3, 4}, c.thorough ? std::vector<U>{0, 2, 20} : std::vector<U>{1}, {0}, 0.5, c.thorough ? dts : dtf); }, 1);
  h.space("history", "all sequences of 3 (5) out of 6 queries, cache depths 0 to 2", 4, [=](Ctx& c) { if(c.choose(2)) history<Keys>(c, {(U)3, (U)2, (U)6}, c.thorough ? 5 : c.lite ? 2 : 3, {0, 1, 2}); else history<Linear>(c, {(U)2, (U)3, (U)12}, c.thorough ? 5 : c.lite ? 2 : 3, {0, 1, 2}); });
  std::vector<double> steps{0.1, 0.3, 1.0 / 3, 0.7, 1.1, 3.3}, drift{0.1, 0.2, 0.3, 1.0 / 3, 0.6, 0.7, 0.9, 1.1, 1.7}; for(double x = 0.05; x < 4; x *= 1.037) drift.push_back(x);
  h.space("rounding-keys", "time steps and positions that are not exact in single precision, 16 samples in chunks of 1 to 6, 126 sampling steps", 3, [=](Ctx& c) { rounding<Keys>(c, 16, c.thorough ? std::vector<U>{1, 2, 3, 4, 5, 6, 7} : std::vector<U>{1, 3, 6}, steps, drift, c.thorough ? 100 : 12); }, 1);
  h.space("rounding-linear", "the same with the linear kernel", 3, [=](Ctx& c) { rounding<Linear>(c, 16, c.thorough ? std::vector<U>{1, 2, 3, 4, 5, 6, 7} : std::vector<U>{2, 5}, steps, drift, c.thorough ? 100 : 12); }, 1);
  return mc::run_main(h, argc, argv);
}
