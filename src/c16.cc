// C16: downsampling of tiles onto a global lattice.
#include "dm.hh"
#include "NDVecArrayOperations.hh"
using namespace dm;

static float value(U gi, U k) { return (float)((gi * 3 + k) % 8191) + 0.5f; }
template <U D> U gid(const Ind<D>& g) { U h = 0; for(U i = 0; i < D; i++) h = h * 37 + g[i]; return h; }

// the tile that holds the global range [lo, hi)
template <U D, U V> struct Tile {
  Arr<D, V> big; std::unique_ptr<Arr<D, V>> view; Ind<D> lo, hi;
  Tile(const Ind<D>& lo, const Ind<D>& hi, bool as_view) : big(as_view ? Ind<D>(hi - lo + U(3)) : Ind<D>(hi - lo), -1.0f), lo(lo), hi(hi) {
    if(as_view) view = std::make_unique<Arr<D, V>>(big.View(Ind<D>(U(1)), Ind<D>(hi - lo + U(1))));
    each<D>(lo, hi, [&](const Ind<D>& g) { for(U k = 0; k < V; k++) get()[Ind<D>(g - lo)][k] = value(gid<D>(g), k); });
  }
  Arr<D, V>& get() { return view ? *view : big; }
};
// one tile; returns the range on the coarse lattice
template <U D, U V> std::pair<Ind<D>, Ind<D>> one(Ctx& c, Tile<D, V>& t, const Ind<D>& f, Arr<D, V>& out) {
  c.step();
  Ind<D> start(U(77)), elo, ehi, shape = t.hi - t.lo;
  // multiples of the factor inside of the range, found one by one
  for(U i = 0; i < D; i++) { U n = 0, first = 0; for(U g = t.lo[i]; g < t.hi[i]; g++) if(g % f[i] == 0) { if(!n) first = g / f[i]; n++; } if(!n) { first = t.lo[i] / f[i] + 1; } elo[i] = first; ehi[i] = first + n; }
  Ind<D> sh = Downsampling::get_downsampled_shape<D>(t.lo, shape, f);
  c.check(sh == Ind<D>(ehi - elo), "tile %s to %s, factors %s: the announced shape is %s, not %s", str<U, D>(t.lo).c_str(), str<U, D>(t.hi).c_str(), str<U, D>(f).c_str(), str<U, D>(sh).c_str(), str<U, D>(Ind<D>(ehi - elo)).c_str());
  Downsampling::downsample<float, D, V>(t.get(), t.lo, f, out, start);
  c.check(out.GetShape() == sh, "tile %s to %s, factors %s: the shape is %s, announced was %s", str<U, D>(t.lo).c_str(), str<U, D>(t.hi).c_str(), str<U, D>(f).c_str(), str<U, D>(Ind<D>(out.GetShape())).c_str(), str<U, D>(sh).c_str());
  bool empty = false; for(U i = 0; i < D; i++) if(sh[i] == 0) empty = true;
  for(U i = 0; i < D; i++) if(sh[i] || !empty) c.check(start[i] == elo[i], "tile %s to %s, factors %s: starts at %s on the coarse lattice, not %s", str<U, D>(t.lo).c_str(), str<U, D>(t.hi).c_str(), str<U, D>(f).c_str(), str<U, D>(start).c_str(), str<U, D>(elo).c_str());
  if(!empty) { c.nontrivial(); each<D>(elo, ehi, [&](const Ind<D>& d) { for(U k = 0; k < V; k++) { float w = value(gid<D>(Ind<D>(d * f)), k), g = out[Ind<D>(d - elo)][k]; c.observe_f(g); c.check(g == w, "tile %s to %s, factors %s: component %zu at %s of the coarse lattice is %g, not %g", str<U, D>(t.lo).c_str(), str<U, D>(t.hi).c_str(), str<U, D>(f).c_str(), k, str<U, D>(d).c_str(), g, w); } }); }
  // the input stays as it was
  each<D>(t.lo, t.hi, [&](const Ind<D>& g) { for(U k = 0; k < V; k++) c.check(t.get()[Ind<D>(g - t.lo)][k] == value(gid<D>(g), k), "the input has changed at %s", str<U, D>(g).c_str()); });
  return {elo, ehi};
}
// every tile position, shape and factor
template <U D, U V> void tiles(Ctx& c, U maxstart, U maxshape, U maxf) {
  Ind<D> lo = pick_ind<D>(c, 0, maxstart), sh = pick_ind<D>(c, 1, maxshape); bool view = c.flag();
  Tile<D, V> t(lo, lo + sh, view); Arr<D, V> out(Ind<D>(U(1)));
  each<D>(Ind<D>(U(1)), Ind<D>(maxf + 1), [&](const Ind<D>& f) { c.state(hash_ind<D>(f, hash_ind<D>(sh, hash_ind<D>(lo, V * 2 + view)))); one<D, V>(c, t, f, out); });
}
// all ways to cut each axis: the coarse tiles fit together exactly
template <U D, U V> void cover(Ctx& c, const Ind<D>& full, U maxf) {
  Ind<D> f = pick_ind<D>(c, 1, maxf); std::vector<U> cut[D];
  for(U i = 0; i < D; i++) { cut[i] = {0}; U m = c.choose(1 << (full[i] - 1)); for(U k = 1; k < full[i]; k++) if(m >> (k - 1) & 1) cut[i].push_back(k); cut[i].push_back(full[i]); }
  std::string s; for(U i = 0; i < D; i++) { s += i ? " x " : ""; for(U k : cut[i]) s += std::to_string(k) + " "; } c.op("tiles with boundaries %s, factors %s", s.c_str(), str<U, D>(f).c_str());
  std::map<std::array<U, D>, int> seen; Arr<D, V> out(Ind<D>(U(2)), 3.0f); Ind<D> nt; for(U i = 0; i < D; i++) nt[i] = cut[i].size() - 1; std::uint64_t h = hash_ind<D>(f, 5); for(auto& v : cut) for(U k : v) h = mc::mix(h, k); c.state(h);
  each<D>(Ind<D>(U(0)), nt, [&](const Ind<D>& k) {
    Ind<D> lo, hi; for(U i = 0; i < D; i++) { lo[i] = cut[i][k[i]]; hi[i] = cut[i][k[i] + 1]; }
    Tile<D, V> t(lo, hi, false); one<D, V>(c, t, f, out);
    Ind<D> start; Downsampling::downsample<float, D, V>(t.get(), lo, f, out, start);
    each<D>(Ind<D>(U(0)), Ind<D>(out.GetShape()), [&](const Ind<D>& i) { std::array<U, D> a; for(U x = 0; x < D; x++) a[x] = start[x] + i[x]; seen[a]++; });
  });
  U expect = 1; for(U i = 0; i < D; i++) expect *= (full[i] - 1) / f[i] + 1;
  c.check(seen.size() == expect, "%zu points of the coarse lattice are covered, not %zu", (U)seen.size(), expect);
  for(auto& [a, n] : seen) c.check(n == 1, "a point of the coarse lattice is covered %d times", n);
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C16"; h.level = "model_checking";
  h.assumptions = {"tiles are not empty and factors are positive", "where a tile holds no point of the coarse lattice, only the empty shape is compared"};
  h.space("tiles-1d", "all positions 0-12 (20), shapes 1-8 (16) and factors 1-9 (17), also as views", 2, [](Ctx& c) { U x = c.thorough ? 2 : 1; if(c.choose(2)) tiles<1, 2>(c, 12 * x, 8 * x, 9 * x); else tiles<1, 1>(c, 12 * x, 8 * x, 9 * x); });
  h.space("tiles-2d", "all positions 0-4 (6), shapes 1-4 (6) and factors 1-4 (7)", 3, [](Ctx& c) { U x = c.thorough ? 6 : c.lite ? 3 : 4; tiles<2, 2>(c, x, x, c.thorough ? 7 : x); });
  h.space("tiles-3d", "all positions 0-2 (4), shapes 1-3 (4) and factors 1-3 (5)", 4, [](Ctx& c) { if(c.thorough) tiles<3, 2>(c, 3, 4, 5); else tiles<3, 1>(c, c.lite ? 1 : 2, c.lite ? 2 : 3, 3); });
  h.space("cover-1d", "all ways to cut 9 (12) samples into tiles, factors 1-10 (13)", 2, [](Ctx& c) { U n = c.thorough ? 12 : 9; cover<1, 1>(c, Ind<1>{n}, n + 1); });
  h.space("cover-2d", "all grids of cuts of 5x4 (7x5) samples, factors 1-4 (6)", 3, [](Ctx& c) { if(c.thorough) cover<2, 2>(c, Ind<2>{(U)7, (U)5}, 6); else cover<2, 2>(c, Ind<2>{(U)5, (U)4}, c.lite ? 3 : 4); });
  h.space("cover-3d", "all grids of cuts of 3x3x3 (4x3x4) samples, factors 1-3 (4)", 4, [](Ctx& c) { if(c.thorough) cover<3, 1>(c, Ind<3>{(U)4, (U)3, (U)4}, 4); else cover<3, 1>(c, Ind<3>{(U)3, (U)3, (U)3}, 3); }, 1);
  return mc::run_main(h, argc, argv);
}
