// C12: queries that leave the stored domain.
#include "gf.hh"
using namespace gf;

// exactly one cell outside: rounding decides
static bool at_edge(double x, U n) { return x == -1 || x == n; }

template <class K> void check_query(Ctx& c, GF& g, const Field& f, const Grid& gr, const Query& q, int variant, Green::OutOfBoundsBehavior mode) {
  std::vector<float> before(q.n + 4); for(U k = 0; k < before.size(); k++) before[k] = 3.0f - 0.5f * (float)k;
  double sr = variant == 1 ? 0 : 1.5, sz = variant == 2 ? 0 : -2, w = variant == 0 ? 1 : -0.75;
  bool threw = false; std::vector<float> sig = inner<K>(c, g, gr, q, sr, sz, w, mode, before, &threw);
  const bool beyond = outside(q.r, f.n[0]) || outside(q.z, f.n[1]); U out = 0, edge = 0; 
  const bool edgy = at_edge(q.r, f.n[0]) || at_edge(q.z, f.n[1]), surely = (outside(q.r, f.n[0]) && !at_edge(q.r, f.n[0])) || (outside(q.z, f.n[1]) && !at_edge(q.z, f.n[1]));
  for(U k = 0; k < before.size(); k++) if(k < 2 || k >= q.n + 2) c.check(sig[k] == before[k], "%s: output outside of the requested samples is changed", str(q).c_str());
  for(U k = 0; k < q.n; k++) {
    double t = q.t + k * q.dt, got = sig[k + 2], want = before[k + 2], scale = 1e-2; bool o = beyond || outside(t, f.n[2]);
    if(o) { out++; if(!surely && (!outside(t, f.n[2]) || at_edge(t, f.n[2]))) edge++; }
    else want += w * (sr * interp<K>(f, q.r, q.z, t, 0, &scale) + sz * interp<K>(f, q.r, q.z, t, 1, &scale));
    bool same = std::fabs(got - want) <= 2e-5 * (3 * scale + std::fabs(want) + 1);
    if(o && !same && edgy && !surely && !outside(t, f.n[2])) { double in = before[k + 2] + w * (sr * interp<K>(f, q.r, q.z, t, 0, &scale) + sz * interp<K>(f, q.r, q.z, t, 1, &scale)); same = std::fabs(got - in) <= 2e-5 * (3 * scale + std::fabs(in) + 1); }
    // a query that is refused may or may not have added its valid samples
    if(threw && got == before[k + 2]) same = true;
    c.check(same, "%s, %s: sample %zu, which is %s the domain, is %.7g, expected %.7g", str(q).c_str(), mode == Green::Ignore ? "ignoring" : "raising", k, o ? "outside" : "inside", got, want);
  }
  if(mode == Green::Ignore) c.check(!threw, "%s: an error is reported although samples outside are to be ignored", str(q).c_str());
  else c.check(threw ? out > 0 : out == edge, "%s: %zu samples are outside, %s", str(q).c_str(), out, threw ? "an error is reported" : "no error is reported");
}

template <class K> void sweep(Ctx& c, I3 n, std::vector<I3> sizes, std::vector<int> kinds, std::vector<U> caches, double lattice, std::vector<double> dts) {
  I3 size = c.pick(sizes); int kind = c.pick(kinds); bool opt = kind != 0; U cache = c.pick(caches); U overlap = K::support + (U)c.choose(2); int gk = c.choose(2);
  Grid gr; if(gk == 1) gr = {{4.0, -10.0, 16.0}, {2.0, 0.5, 0.25}};
  c.op("field %s kind %d in chunks of %s, overlap %zu, cache depth %zu, grid %d", ::str(n).c_str(), kind, ::str(size).c_str(), overlap, cache, gk);
  auto dir = c.scratch(); Field f = field(n, kind); store(dir / "g", f, size, overlap, gr, opt);
  auto g = open(dir / "g", cache); U nq = 0;
  std::uint64_t hs = f.hash(); for(U x : {size[0], size[1], size[2], (U)opt, cache, overlap, (U)gk}) hs = mc::mix(hs, x);
  // all positions on a grid that extends beyond the domain on all sides, all runs of samples that reach far beyond its end
  for(double dt : dts) for(double t = -3; t <= n[2] + 1; t += lattice) for(double r = -2; r <= n[0] + 1; r += lattice) for(double z = -2; z <= n[1] + 1; z += lattice) {
    bool in = !outside(r, n[0]) && !outside(z, n[1]);
    if(!in && t > 0) continue;
    U most = (U)std::floor((n[2] + 2 - t) / dt) + 1; nq++; c.step(); c.state(mc::mix(hs, nq));
    for(auto mode : {Green::Ignore, Green::RaiseError}) {
      check_query<K>(c, *g, f, gr, {r, z, t, dt, most}, (int)(nq % 3), mode);
      if(in && nq % 5 == 0) for(U k = 0; k < most; k++) check_query<K>(c, *g, f, gr, {r, z, t, dt, k}, (int)(nq % 3), mode);
    }
  }
}

// sequences of queries on one object: a query that leaves the domain has no effect on later ones
template <class K> void history(Ctx& c, I3 n, int depth) {
  I3 size = c.pick(std::vector<I3>{{(U)2, (U)2, (U)2}, {(U)1, (U)2, (U)3}}); int kind = c.choose(2) * 3; U cache = (U)c.choose(3);
  auto dir = c.scratch(); Field f = field(n, kind); Grid gr; store(dir / "g", f, size, K::support, gr, kind != 0);
  auto g = open(dir / "g", cache); const double R = n[0], Z = n[1], T = n[2];
  std::vector<Query> qs{{0, 0, -2, 0.5, 9}, {R, 0, 0, 1, 3}, {0.5, Z - 1, T - 1, 0.5, 5}, {0, -1, 0, 1, 2}, {0.5, 0.5, 0, 0.5, (U)(2 * T - 2)}, {R - 1, 0, -4, 3, 6}};
  for(int k = 0; k < depth; k++) { const Query& q = qs[c.choose((int)qs.size())]; auto mode = c.choose(2) ? Green::RaiseError : Green::Ignore; c.op("query %s", str(q).c_str()); check_query<K>(c, *g, f, gr, q, k % 3, mode); }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C12"; h.level = "model_checking";
  h.assumptions = {"a position is outside the stored domain if it is at least one cell before the first or after the last sample; closer positions interpolate into the zero (or mirrored) margin that is stored with the chunks", "a sample exactly one cell outside may be treated either way (rounding decides)"};
  I3 n{(U)2, (U)2, (U)4}, nt{(U)3, (U)2, (U)6};
  std::vector<I3> few{{(U)1, (U)2, (U)1}, {(U)2, (U)1, (U)3}, {(U)2, (U)2, (U)4}}; std::vector<I3> many; for(U r : {1, 2, 3}) for(U z : {1, 2}) for(U t : {1, 2, 3, 4, 6}) many.push_back({r, z, t});
  std::vector<double> dts{0.5, 1, 1.75, 4, 7}, dtt{0.25, 0.5, 1, 1.25, 1.75, 2, 3, 5, 9};
  h.space("sweep-keys", "2x2x4 samples in chunks of 3 sizes, positions from 3 cells before to 1 cell after the domain in steps of half a cell, 5 sampling steps, both modes", 4, [=](Ctx& c) { if(c.thorough) sweep<Keys>(c, nt, many, {0, 1, 3, 4}, {0, 1, 4}, 0.25, dtt); else sweep<Keys>(c, n, few, c.lite ? std::vector<int>{0} : std::vector<int>{0, 3}, {1}, 0.5, dts); });
  h.space("sweep-linear", "the same with the linear kernel", 4, [=](Ctx& c) { if(c.thorough) sweep<Linear>(c, nt, many, {0, 1, 3, 4}, {0, 1, 4}, 0.25, dtt); else sweep<Linear>(c, n, few, c.lite ? std::vector<int>{0} : std::vector<int>{0, 4}, {1}, 0.5, dts); });
  h.space("history", "all sequences of 2 (4) out of 6 queries in 2 modes, cache depths 0 to 2", 4, [=](Ctx& c) { if(c.choose(2)) history<Keys>(c, {(U)3, (U)2, (U)4}, c.thorough ? 4 : 2); else history<Linear>(c, {(U)2, (U)3, (U)6}, c.thorough ? 4 : 2); });
  return mc::run_main(h, argc, argv);
}
