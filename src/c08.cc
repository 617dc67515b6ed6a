// C08: rebuilding the chunks of an array.
#include "rb.hh"
using namespace rb;

// mirror the index at the faces of [lo, hi)
template <U D> Ind<D> mirrored(const SInd<D>& i, const Ind<D>& lo, const Ind<D>& hi) { Ind<D> r; for(U d = 0; d < D; d++) { int x = i[d]; while(x < (int)lo[d] || x >= (int)hi[d]) { if(x < (int)lo[d]) x = 2 * (int)lo[d] - 1 - x; else x = 2 * (int)hi[d] - 1 - x; } r[d] = x; } return r; }

// everything below a directory, and what has changed there
using Listing = std::map<std::string, std::string>;
static Listing listing(const fs::path& dir) { Listing r; if(fs::exists(dir)) for(auto& e : fs::recursive_directory_iterator(dir)) { std::string x; if(e.is_regular_file()) { std::ifstream f(e.path(), std::ios::binary); x.assign(std::istreambuf_iterator<char>(f), {}); } else x = "(directory)"; r[e.path().lexically_relative(dir).string()] = x; } return r; }
static void compare_listing(Ctx& c, const Listing& a, const Listing& b) {
  for(auto& [n, x] : a) { auto i = b.find(n); c.check(i != b.end(), "%s, which was in the temporary directory before, is gone", n.c_str()); c.check(i -> second == x, "%s, which was in the temporary directory before, has been changed", n.c_str()); }
  for(auto& [n, x] : b) c.check(a.count(n), "%s is left behind in the temporary directory", n.c_str());
}
// rebuild d in place and check everything that can be seen afterwards
template <U D, U V> void rebuild(Ctx& c, Sys<D, V>& s, const Ind<D>& size, U overlap, int kind, fs::path tmp) {
  Logical<D, V>& l = s.l; Ind<D> lo, hi; l.extent(lo, hi); const bool was = fs::exists(tmp); const auto before = listing(tmp);
  c.op("rebuild as chunks of %s with overlap %zu, evaluator %d", str(size).c_str(), overlap, kind);
  using view_t = typename DArr<D, V>::view_t;
  if(kind == 0) s.d -> RebuildChunks(size, tmp, overlap, [&](DArr<D, V>& d, const SInd<D>& i, view_t e) {
    c.check(&d == s.d.get(), "the evaluator is given another array");
    Ind<D> m = mirrored<D>(i, lo, hi); read<D, V>(c, d, l, m, "the evaluator's reading of");
    Eval<D, V>{c, l}.fill(i, e);
  });
  else if(kind == 1) s.d -> RebuildChunks(size, tmp, overlap, [&](Arr<D, V>& chunk, const SInd<D>& cs, const SInd<D>& ce, const SInd<D>& i, view_t e) {
    Ind<D> sh = (ce - cs).template as_type<U>();
    c.check(chunk.GetShape() == sh, "the evaluator is told that a chunk of shape %s reaches from %s to %s", str(chunk.GetShape()).c_str(), str(cs).c_str(), str(ce).c_str());
    // all elements inside the array are already there
    for(U d = 0; d < D; d++) c.check(i[d] >= cs[d] && i[d] < ce[d], "the evaluator is asked for %s, outside of the chunk", str(i).c_str());
    each<D>(Ind<D>(U(0)), sh, [&](const Ind<D>& j) { SInd<D> g = j.template as_type<int>() + cs; bool in = true; for(U d = 0; d < D; d++) in &= g[d] >= (int)lo[d] && g[d] < (int)hi[d]; if(in) check_value<D, V>(c, expected<D, V>(l, g), chunk[j], j, "the evaluator's view of"); });
    Ind<D> li = (i - cs).template as_type<U>();
    e[0] = 4711.0f; c.check(chunk[li][0] == 4711.0f, "the evaluator is given the element of another index than %s", str(i).c_str());
    Eval<D, V>{c, l}.fill(i, e);
  });
  else s.d -> RebuildChunks(size, tmp);
  s.chunks.clear();
  if(was) compare_listing(c, before, listing(tmp)); else c.check(!fs::exists(tmp), "the temporary directory is left behind");
}
template <U D, U V> void all_checks(Ctx& c, Sys<D, V>& s, const Ind<D>& size, U overlap, int how) {
  Ind<D> lo, hi; s.l.extent(lo, hi);
  verify<D, V>(c, *s.d, s.l, how);
  s.close();
  check_chunks<D, V>(c, s.dir, s.l, tiling<D>(lo, hi, size), overlap, SInd<D>(0), 1);
  s.open(1); verify<D, V>(c, *s.d, s.l, 4 - how);
}

template <U D, U V> void rechunk(Ctx& c, Ind<D> shape, Ind<D> origin, U maxsrc, U maxsize, U maxoverlap, bool twice, std::vector<U> caches) {
  Ind<D> src = pick_ind<D>(c, 1, maxsrc), size = pick_ind<D>(c, 1, maxsize); U overlap = c.range(0, maxoverlap);
  for(U d = 0; d < D; d++) if(src[d] > shape[d]) c.prune();
  int kind = c.choose(overlap == 0 ? 3 : 2); U cache = c.pick(caches);
  c.op("array %s at %s in chunks of %s, cache depth %zu", str(shape).c_str(), str(origin).c_str(), str(src).c_str(), cache);
  auto dir = c.scratch();
  Sys<D, V> s(c, dir / "a", cache, ser_default<D>());
  U n = 0; for(auto& [a, b] : tiling<D>(origin, Ind<D>(origin + shape), src)) s.reg({ind<D>(a), Ind<D>(ind<D>(b) - ind<D>(a)), n++ % 3 == 2 ? U(1) : U(0)});
  rebuild<D, V>(c, s, size, overlap, kind, dir / "tmp");
  if(twice) { Ind<D> size2 = pick_ind<D>(c, 1, maxsize); U ov2 = c.range(0, maxoverlap); rebuild<D, V>(c, s, size2, ov2, c.choose(2), dir / "tmp"); all_checks<D, V>(c, s, size2, ov2, 2); }
  else all_checks<D, V>(c, s, size, overlap, 0);
}

// the domain shape is an input as well
template <U D, U V> void shapes(Ctx& c, U maxshape, U maxsize, U maxoverlap) { Ind<D> sh = pick_ind<D>(c, 1, maxshape); rechunk<D, V>(c, sh, Ind<D>(U(0)), 2, maxsize, maxoverlap, false, {1}); }

// operations before and after rebuilding
template <U D, U V> void history(Ctx& c, U lay, int depth, std::vector<U> caches) {
  auto slots = layouts<D>()[lay]; U cache = c.pick(caches);
  auto dir = c.scratch();
  Sys<D, V> s(c, dir / "a", cache, ser_default<D>());
  int rebuilds = 0;
  for(int k = 0; k < 2; k++) s.reg(slots[k]);
  for(int n = 0; n < depth; n++) {
    auto o = ops<D, V>(s, c, slots, 0, n == 0);
    if(s.l.contiguous()) for(U k = 0; k < 3; k++) o.push_back([&, k] { Ind<D> size(U(1)); size[0] = k + 1; size[D - 1] = 2; rebuild<D, V>(c, s, size, k, (int)k % 2, dir / "tmp"); rebuilds++; });
    if(n + 1 == depth && !rebuilds) { o.erase(o.begin(), o.end() - (s.l.contiguous() ? 3 : 1)); if(!s.l.contiguous()) c.prune(); }
    o[c.choose((int)o.size())]();
  }
  verify<D, V>(c, *s.d, s.l, 2); verify<D, V>(c, *s.d, s.l, 3);
  s.close(); s.open(1); verify<D, V>(c, *s.d, s.l, 4); verify<D, V>(c, *s.d, s.l, 0);
}

// the temporary directory is also used for other things: another array, one of its rebuilds, files of somebody else
template <U D, U V> void shared(Ctx& c) {
  auto dir = c.scratch(); int what = c.choose(4); Ind<D> size = pick_ind<D>(c, 1, 3); U overlap = c.range(0, 2), cache = c.pick({0, 1, 3}); Ind<D> o(U(0));
  fs::path tmp = dir / "tmp"; c.op("the temporary directory holds %s", what == 0 ? "nothing" : what == 1 ? "a file and a directory" : what == 2 ? "another array" : "another array in the process of being written");
  std::unique_ptr<Sys<D, V>> other; if(what) fs::create_directory(tmp);
  if(what == 1) { std::ofstream(tmp / "notes.txt") << "keep"; fs::create_directories(tmp / "more" / "deep"); std::ofstream(tmp / "more" / "index.bin") << "x"; }
  if(what >= 2) { other = std::make_unique<Sys<D, V>>(c, tmp, what == 2 ? 0 : 3, ser_default<D>()); U n = 0; for(auto& [a, b] : tiling<D>(o, Ind<D>(U(3)), Ind<D>(U(2)))) other -> reg({ind<D>(a), Ind<D>(ind<D>(b) - ind<D>(a)), n++ % 2}); if(what == 2) other -> close(); }
  Sys<D, V> s(c, dir / "a", cache, ser_default<D>()); U n = 0; for(auto& [a, b] : tiling<D>(o, Ind<D>(U(4)), Ind<D>(U(3)))) s.reg({ind<D>(a), Ind<D>(ind<D>(b) - ind<D>(a)), n++ % 3 == 2 ? U(1) : U(0)});
  rebuild<D, V>(c, s, size, overlap, c.choose(2), tmp); all_checks<D, V>(c, s, size, overlap, 0);
  if(what >= 2) { if(what == 3) { verify<D, V>(c, *other -> d, other -> l, 2); other -> close(); } other -> open(1); verify<D, V>(c, *other -> d, other -> l, 0); }
}
// all sets of cells of a grid as chunks: arrays with gaps cannot be rebuilt and lose nothing, those without can
template <U D, U V> void gaps(Ctx& c, Ind<D> cells) {
  auto dir = c.scratch(); Ind<D> origin(U(c.choose(2) * 2)), shape(U(1)); shape[D - 1] = 2;
  Sys<D, V> s(c, dir / "a", c.pick({(U)1, (U)3}), ser_default<D>()); bool optimize = c.flag();
  each<D>(Ind<D>(U(0)), cells, [&](const Ind<D>& i) { if(!c.flag()) return; Ind<D> p = origin + i * shape; s.reg({p, shape}, s.chunks.size() == 1 && optimize, optimize ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); });
  if(s.chunks.empty()) return;
  bool threw = false, good = s.l.contiguous(); U overlap = s.chunks.size() % 2;
  c.op("rebuild an array %s gaps", good ? "without" : "with");
  try { rebuild<D, V>(c, s, Ind<D>(U(2)), overlap, 0, dir / "tmp"); } catch(const std::exception&) { threw = true; }
  c.check(threw == !good, good ? "rebuilding an array without gaps is refused" : "rebuilding an array with gaps is not reported as an error");
  if(good) all_checks<D, V>(c, s, Ind<D>(U(2)), overlap, 0); else { verify<D, V>(c, *s.d, s.l, 2); c.nontrivial(); }
  s.close(); s.open(1); verify<D, V>(c, *s.d, s.l, 3);
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C08"; h.level = "model_checking";
  h.assumptions = {"the array covers a box without gaps", "requested chunk sizes are finite and positive"};
  Ind<2> o2(U(0)), s33{(U)3, (U)3}, s43{(U)4, (U)3}, s54{(U)5, (U)4}; Ind<3> o3(U(0));
  h.space("rechunk-2d", "4x3 (5x4) elements, all regular source tilings up to 2 (3), requested sizes 1-4 (6) per axis, overlap 0-2 (5), all evaluators, three cache depths", 4, [=](Ctx& c) { if(c.thorough) rechunk<2, 2>(c, s54, o2, 3, 6, 5, false, {0, 1, 3}); else rechunk<2, 2>(c, c.lite ? s33 : s43, o2, 2, c.lite ? 2 : 5, 2, false, c.lite ? std::vector<U>{1} : std::vector<U>{0, 1, 3}); });
  h.space("shapes-2d", "all shapes up to 3x3 (5x5), requested sizes 1-3 (6), overlap 0-4", 4, [=](Ctx& c) { if(c.thorough) shapes<2, 2>(c, 5, 6, 4); else shapes<2, 2>(c, c.lite ? 2 : 3, c.lite ? 2 : 3, 4); });
  h.space("shapes-1d", "all shapes up to 6, requested sizes 1-7, overlap 0-7", 3, [](Ctx& c) { shapes<1, 2>(c, 6, 7, 7); });
  h.space("shapes-3d", "all shapes up to 2x2x2 (3x3x3), requested sizes 1-2 (3), overlap 0-1 (2)", 5, [](Ctx& c) { if(c.thorough) shapes<3, 2>(c, 3, 3, 2); else shapes<3, 2>(c, 2, 2, 1); }, 1);
  h.space("twice-2d", "two rebuilds in a row", 4, [=](Ctx& c) { rechunk<2, 2>(c, s43, o2, c.thorough ? 2 : 1, c.thorough ? 4 : 3, c.thorough ? 2 : 1, true, {1}); }, 1);
  h.space("offset-2d", "arrays that do not start at the origin", 4, [=](Ctx& c) { Ind<2> o{(U)c.range(0, 2), (U)c.range(1, 3)}; rechunk<2, 2>(c, s33, o, 2, 3, c.thorough ? 3 : 2, false, {1}); });
  h.space("history-2d", "two chunks, all histories of 2 (4) operations with rebuilding in between", 3, [](Ctx& c) { int l = c.choose(2); history<2, 2>(c, l, c.thorough ? 4 : c.lite ? 2 : 3, {0, 2}); });
  h.space("history-3d", "three dimensions, all histories of 2 (3) operations", 3, [](Ctx& c) { int l = 0; history<3, 2>(c, l, c.thorough ? 3 : 2, {1}); });
  h.space("shared", "temporary directories that hold other things", 3, [](Ctx& c) { if(c.flag()) shared<2, 2>(c); else shared<1, 1>(c); });
  h.space("gaps", "all arrays made of the cells of a grid, with and without gaps", 4, [](Ctx& c) { switch(c.choose(3)) { case 0: gaps<1, 2>(c, {(U)4}); break; case 1: gaps<2, 2>(c, c.lite ? Ind<2>{(U)2, (U)2} : c.thorough ? Ind<2>{(U)3, (U)3} : Ind<2>{(U)2, (U)3}); break; case 2: gaps<3, 1>(c, c.thorough ? Ind<3>{(U)2, (U)2, (U)2} : Ind<3>{(U)1, (U)2, (U)2}); break; } });
  return mc::run_main(h, argc, argv);
}
