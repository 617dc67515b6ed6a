// C06: histories that are interrupted by closing and reopening the array, and by independent readers.
#include "dm.hh"
using namespace dm;

template <U D, U V> void reader(Sys<D, V>& s, Ctx& c, int how, U depth) {
  c.op("independent reader with cache depth %zu", depth);
  DArr<D, V> r(s.dir, depth, Ind<D>(U(1)), s.ser);
  verify<D, V>(c, r, s.l, how);
}
template <U D, U V> void reopen(Sys<D, V>& s, Ctx& c, U depth, bool simple = false) {
  c.op("close, open with %s %zu", simple ? "default parameters and cache depth" : "cache depth", depth);
  s.close();
  if(simple) { s.cache = depth; s.d = std::make_unique<DArr<D, V>>(s.dir, depth); } else s.open(depth);
}

template <U D, U V> void history(Ctx& c, U lay, int depth, int nreg, std::vector<U> caches, Ind<D> ser, U second_axis, bool simple) {
  auto slots = layouts<D>()[lay];
  U cache = c.pick(caches);
  c.op("cache depth %zu", cache);
  Sys<D, V> s(c, c.scratch() / "a", cache, ser);
  for(int k = 0; k < nreg; k++) s.reg(slots[k]);
  for(int n = 0; n < depth; n++) {
    auto o = ops<D, V>(s, c, slots, second_axis);
    for(U d : caches) o.push_back([&, d] { reopen<D, V>(s, c, d); });
    if(simple) o.push_back([&] { reopen<D, V>(s, c, 1, true); });
    if(n > 0 && n + 1 < depth) o.push_back([&] { s.flush(); reader<D, V>(s, c, 2, 1); });
    o[c.choose((int)o.size())]();
    c.state(mc::mix(s.l.hash(), s.cache));
  }
  int end = c.choose(3);
  if(end == 0) { reopen<D, V>(s, c, 1); verify<D, V>(c, *s.d, s.l, 2); }
  else if(end == 1) { s.flush(); reader<D, V>(s, c, 3, 2); verify<D, V>(c, *s.d, s.l, 2); reopen<D, V>(s, c, 0); verify<D, V>(c, *s.d, s.l, 0); }
  else { verify<D, V>(c, *s.d, s.l, 2); reopen<D, V>(s, c, 3); verify<D, V>(c, *s.d, s.l, 4); reopen<D, V>(s, c, 1); verify<D, V>(c, *s.d, s.l, 3); }
}

// chunks registered in two or three sittings, many of them; everything read in different orders
template <U V> void sittings(Ctx& c, U na, U nb) {
  Ind<2> n{na, nb}; std::vector<Slot<2>> t;
  each<2>(Ind<2>(U(0)), n, [&](const Ind<2>& i) { t.push_back({Ind<2>{i[0] * 2, i[1]}, Ind<2>{(U)2, (U)1}}); });
  U d1 = c.pick({(U)0, (U)1, (U)4, (U)100}), d2 = c.pick({(U)0, (U)1, (U)4, (U)100});
  U cut1 = c.range(0, (int)t.size()), cut2 = c.range((int)cut1, (int)t.size());
  bool append = c.flag();
  Sys<2, V> s(c, c.scratch() / "a", d1, ser_default<2>());
  for(U k = 0; k < t.size(); k++) {
    if(k == cut1) reopen<2, V>(s, c, d2);
    if(k == cut2) reopen<2, V>(s, c, d1);
    s.reg(t[k]);
    if(append && k % 3 == 2 && s.template can_append<0>(k / 2, 1) && s.chunks[k / 2].start[0] == 2 * (na - 1)) s.template append<0>(k / 2, 1);
  }
  verify<2, V>(c, *s.d, s.l, 2); verify<2, V>(c, *s.d, s.l, 4);
  reopen<2, V>(s, c, d2);
  verify<2, V>(c, *s.d, s.l, 0); verify<2, V>(c, *s.d, s.l, 3);
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C06"; h.level = "model_checking";
  h.assumptions = {"one writer at a time", "an independent reader is closed before the writer continues", "the process is not killed while it writes", "chunks do not overlap each other"};
  Ind<2> elem{(U)1, (U)1};
  h.space("from-empty-2d", "all histories of 4 (5) operations including close/reopen with cache depth 0, 1 or 2", 3, [](Ctx& c) { history<2, 2>(c, 0, c.thorough ? 5 : c.lite ? 3 : 4, 0, {0, 1, 2}, ser_default<2>(), 0, true); });
  h.space("one-chunk-2d", "one chunk present, all histories of 4 (5) operations", 3, [](Ctx& c) { history<2, 2>(c, 1, c.thorough ? 5 : c.lite ? 2 : 4, 1, c.thorough ? std::vector<U>{0, 1, 2} : std::vector<U>{0, 2}, ser_default<2>(), 0, true); });
  h.space("two-chunks-2d", "two chunks present, gaps and overlap, all histories of 3 (5) operations", 3, [](Ctx& c) { history<2, 2>(c, 2, c.thorough ? 5 : c.lite ? 2 : 3, 2, {1, 3}, ser_default<2>(), 0, true); });
  h.space("three-chunks-2d", "three chunks present, all histories of 3 (4) operations", 3, [](Ctx& c) { history<2, 2>(c, 0, c.thorough ? 4 : 3, 3, {0, 1, 2}, ser_default<2>(), 0, true); }, 1);
  h.space("three-chunks-3d", "three dimensions, all histories of 2 (3) operations", 3, [](Ctx& c) { int l = c.choose(2); history<3, 2>(c, l, c.thorough ? 3 : 2, 3, {0, 1, 2}, ser_default<3>(), 0, true); });
  h.space("both-axes", "slices along both axes, all histories of 3 (5) operations", 3, [elem](Ctx& c) { history<2, 1>(c, 1, c.thorough ? 5 : 3, 1, {0, 2}, elem, 1, false); });
  h.space("sittings", "3x4 (4x5) chunks registered in up to three sittings, all cut points, four cache depths each", 3, [](Ctx& c) { if(c.thorough) sittings<2>(c, 4, 5); else sittings<2>(c, c.lite ? 2 : 3, 3); });
  return mc::run_main(h, argc, argv);
}
