// C20: margins of cylindrically symmetric arrays.
#include "gf.hh"
using namespace gf;
using Cyl = SpatialSymmetry::Cylindrical<float>;

static void source(Sys<3, 2>& s, const I3& origin, const I3& shape, const I3& src, int zeros) {
  U n = 0; for(auto& [a, b] : tiling<3>(origin, I3(origin + shape), src)) { int z = zeros && n++ % 3 == 1; s.reg({ind<3>(a), I3(ind<3>(b) - ind<3>(a)), 0}, z, zeros ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
}

// rebuild in place with the cylindrical rule
static void margins(Ctx& c, std::vector<I3> shapes, std::vector<I3> origins, std::vector<I3> srcs, U maxsize, U maxoverlap) {
  outside_is_zero = mirror_axis = true;
  I3 shape = c.pick(shapes), origin = c.pick(origins), src = c.pick(srcs), size = pick_ind<3>(c, 1, maxsize); U overlap = c.range(0, maxoverlap); int zeros = c.choose(2);
  c.op("array %s at %s in chunks of %s, rebuilt as chunks of %s with overlap %zu%s", ::str(shape).c_str(), ::str(origin).c_str(), ::str(src).c_str(), ::str(size).c_str(), overlap, zeros ? ", some of them all zero" : "");
  auto dir = c.scratch(); Sys<3, 2> s(c, dir / "a", 1, ser_default<3>()); source(s, origin, shape, src, zeros);
  s.d -> RebuildChunks(size, dir / "tmp", overlap, Cyl::boundary_evaluator, zeros ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
  verify<3, 2>(c, *s.d, s.l, 2); s.close();
  check_chunks<3, 2>(c, s.dir, s.l, tiling<3>(origin, I3(origin + shape), size), overlap, SInd<3>(0), 1);
  outside_is_zero = mirror_axis = false;
}
// partitions rebuilt one by one, all of them within one process (stale contents of buffers), then merged
static void parts(Ctx& c, I3 shape, std::vector<I3> sizes, std::vector<I3> outs, U maxoverlap) {
  outside_is_zero = mirror_axis = true;
  I3 size = c.pick(sizes), out = c.pick(outs); U overlap = c.range(1, maxoverlap); int zeros = c.choose(2); int axis = c.choose(3); I3 lo(U(0));
  if(shape[axis] < 2) c.prune();
  U cut = c.range(1, shape[axis] - 1); bool swap = c.choose(2);
  c.op("array %s, cut along axis %d at %zu, rebuilt as chunks of %s with overlap %zu, moved to %s", ::str(shape).c_str(), axis, cut, ::str(size).c_str(), overlap, ::str(out).c_str());
  auto dir = c.scratch(); Sys<3, 2> s(c, dir / "a", 2, ser_default<3>()); source(s, lo, shape, {(U)2, (U)1, (U)2}, zeros);
  I3 a1 = shape, b0(U(0)); a1[axis] = cut; b0[axis] = cut;
  std::set<std::pair<Key<3>, Key<3>>> tiles;
  for(int k = 0; k < 2; k++) {
    bool first = (k == 0) != swap; I3 from = first ? lo : b0, to = first ? a1 : shape, at = from + out;
    s.d -> RebuildChunksPartial(from, to, at, size, dir / (k ? "q" : "p"), overlap, Cyl::boundary_evaluator, zeros ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    for(auto& [x, y] : tiling<3>(from, to, size)) tiles.insert({key<3>(I3(ind<3>(x) + out)), key<3>(I3(ind<3>(y) + out))});
  }
  { DArr<3, 2> m(dir / "m", 1, I3(U(1)), ser_default<3>()); m.Import(dir / "p"); m.Import(dir / "q"); m.Flush(); }
  verify<3, 2>(c, *s.d, s.l, 4);
  check_chunks<3, 2>(c, dir / "m", s.l, tiles, overlap, out.template as_type<int>(), 1);
  outside_is_zero = mirror_axis = false;
}
// Green's functions made this way, near the axis and the edges
template <class K> void functions(Ctx& c, I3 n, std::vector<I3> sizes, double lattice) {
  I3 size = c.pick(sizes), src = c.pick(std::vector<I3>{{(U)2, (U)2, (U)3}, {(U)1, (U)1, (U)2}}); int kind = c.choose(2) * 3; U overlap = K::support + (U)c.choose(2);
  c.op("field %s kind %d in chunks of %s, rebuilt as chunks of %s with overlap %zu", ::str(n).c_str(), kind, ::str(src).c_str(), ::str(size).c_str(), overlap);
  auto dir = c.scratch(); Field f = field(n, kind); Grid gr;
  {
    Quiet q; Distributed_RZT_ErEz_Array d(dir / "g", 1, RZTVector<std::size_t>(U(1)), RZTVector<std::size_t>(ser_default<3>()));
    for(auto& [a, b] : tiling<3>(I3(U(0)), n, src)) { I3 lo = ind<3>(a), hi = ind<3>(b); Arr<3, 2> x(I3(hi - lo)); each<3>(I3(U(0)), I3(hi - lo), [&](const I3& i) { for(U k = 0; k < 2; k++) x[i][k] = f.at(I3(i + lo), k); }); d.RegisterChunk(x, lo, ChunkHints::ENABLE_OPT); }
    d.RebuildChunks(size, dir / "tmp", overlap, Cyl::boundary_evaluator, ChunkHints::ENABLE_OPT);
    RZTCoordVector s{0, 0, 0}, iv{1, 1, 1}, e{(float)n[0] - 1, (float)n[1] - 1, (float)n[2] - 1}; GF make(s, e, iv, std::move(d));
  }
  auto g = open(dir / "g", 3); U nq = 0;
  for(double r = -0.75; r < n[0]; r += lattice) for(double z = -0.75; z < n[1]; z += lattice) for(double t : {-0.75, -0.25, 0.5}) {
    Query q{r, z, t, 0.75, (U)((n[2] - 0.25 - t) / 0.75) + 1}; double sr = nq % 2 ? 1 : -0.5, sz = nq % 3 ? 1 : 0; nq++; c.step();
    auto sig = inner<K>(c, *g, gr, q, sr, sz, 1, Green::RaiseError, std::vector<float>(q.n + 4));
    for(U k = 0; k < q.n; k++) { double sc = 0.01, want = sr * interp<K>(f, r, z, t + k * 0.75, 0, &sc) + sz * interp<K>(f, r, z, t + k * 0.75, 1, &sc); c.check(std::fabs(sig[k + 2] - want) <= 2e-5 * (3 * sc + 1), "%s: sample %zu is %.7g, expected %.7g", str(q).c_str(), k, sig[k + 2], want); }
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C20"; h.level = "model_checking";
  h.assumptions = {"the array starts at r = 0 and covers a box without gaps", "both field components are mirrored with their sign, as the stored convention is"};
  auto box = [](U a, U b, U c) { return I3{a, b, c}; }; I3 o(U(0));
  std::vector<I3> all; for(U r = 1; r <= 4; r++) for(U z = 1; z <= 2; z++) for(U t = 1; t <= 3; t++) all.push_back(box(r, z, t));
  std::vector<I3> few{box(1, 1, 1), box(1, 2, 2), box(2, 1, 2), box(3, 2, 2), box(4, 1, 1), box(2, 2, 3)};
  h.space("margins", "24 domain shapes up to 4x2x3, all chunk sizes up to 3 (4) per axis, overlaps 0-3 (4), arrays that start anywhere along z and t", 4, [=](Ctx& c) { if(c.thorough) margins(c, all, {o, box(0, 2, 0), box(0, 1, 3)}, {box(2, 2, 2), box(1, 1, 1), box(3, 1, 2)}, 4, 4); else margins(c, c.lite ? few : all, {o, box(0, 2, 1)}, {box(2, 2, 2)}, c.lite ? 2 : 3, 3); });
  h.space("parts", "two partitions, cut anywhere, rebuilt in both orders and moved", 4, [=](Ctx& c) { if(c.thorough) parts(c, box(4, 3, 4), {box(1, 1, 1), box(2, 1, 3), box(3, 2, 2), box(4, 4, 4), box(1, 3, 2)}, {o, box(0, 1, 2)}, 4); else parts(c, box(3, 2, 3), {box(1, 1, 1), box(2, 1, 2), box(3, 2, 2)}, {o, box(0, 1, 2)}, 3); });
  h.space("functions-keys", "inner products near the axis and the edges", 3, [=](Ctx& c) { functions<Keys>(c, box(3, 2, 5), {box(1, 1, 2), box(2, 2, 3), box(3, 2, 5)}, c.thorough ? 0.125 : 0.25); });
  h.space("functions-linear", "the same with the linear kernel", 3, [=](Ctx& c) { functions<Linear>(c, box(2, 3, 5), {box(1, 1, 2), box(2, 2, 3), box(3, 2, 5)}, c.thorough ? 0.125 : 0.25); });
  return mc::run_main(h, argc, argv);
}
