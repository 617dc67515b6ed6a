// C05: distributed array against an index -> value map, for all operation histories within the bounds.
#include "dm.hh"
using namespace dm;

template <U D, U V> void history(Ctx& c, U lay, int depth, int maxcache, bool registered, Ind<D> ser, U second_axis) {
  auto slots = layouts<D>()[lay];
  U cache = c.range(0, maxcache);
  c.op("cache depth %zu", cache);
  Sys<D, V> s(c, c.scratch() / "a", cache, ser);
  if(registered) { bool rev = c.flag(); for(U k = 0; k < slots.size(); k++) s.reg(slots[rev ? slots.size() - 1 - k : k]); }
  for(int n = 0; n < depth; n++) { auto o = ops<D, V>(s, c, slots, second_axis); o[c.choose((int)o.size())](); c.state(mc::mix(s.l.hash(), cache)); }
  int how = c.choose(registered ? 3 : 2);
  how = how == 0 ? 2 : how == 1 ? 3 : 4;
  c.op("verify %d", how);
  verify<D, V>(c, *s.d, s.l, how);
}

// all orders of registering the chunks of a tiling, read in all chunk orders
template <U D, U V> void orders(Ctx& c, const std::vector<Slot<D>>& tiles, int maxcache) {
  U cache = c.range(0, maxcache);
  Sys<D, V> s(c, c.scratch() / "a", cache, ser_default<D>());
  std::vector<Slot<D>> left = tiles, done;
  while(!left.empty()) { int k = c.choose((int)left.size()); s.reg(left[k]); done.push_back(left[k]); left.erase(left.begin() + k); }
  left = done;
  while(!left.empty()) { int k = c.choose((int)left.size()); Ind<D> hi = left[k].start + left[k].shape; each<D>(left[k].start, hi, [&](const Ind<D>& i) { read<D, V>(c, *s.d, s.l, i); }); left.erase(left.begin() + k); }
  verify<D, V>(c, *s.d, s.l, 3); verify<D, V>(c, *s.d, s.l, 4); verify<D, V>(c, *s.d, s.l, 2);
}

// many chunks (several levels of the spatial index), swapped, appended to, extracted in all box-shaped regions
template <U V> void many(Ctx& c, U na, U nb) {
  U cache = c.pick({(U)0, (U)1, (U)5, (U)1000});
  Sys<2, V> s(c, c.scratch() / "a", cache, ser_default<2>());
  Ind<2> n{na, nb}, ext{(U)c.range(1, 2), (U)c.range(1, 2)};
  int order = c.choose(3), ops = c.choose(6);
  std::vector<Slot<2>> t; each<2>(Ind<2>(U(0)), n, [&](const Ind<2>& i) { t.push_back({Ind<2>{i[0] * ext[0], i[1] * ext[1]}, ext}); });
  for(U k = 0; k < t.size(); k++) s.reg(t[order == 0 ? k : order == 1 ? t.size() - 1 - k : (k * 5) % t.size()]);
  if(ops & 1) s.template swap<0, 1>();
  if(ops & 2) for(U k = 0; k < s.chunks.size(); k++) if(s.template can_append<0>(k, 1)) s.template append<0>(k, 1);
  if(ops & 4) s.template swap<0, 1>();
  shape<2, V>(c, *s.d, s.l);
  loop<2, V>(c, *s.d, s.l);
  Ind<2> lo, hi; s.l.extent(lo, hi);
  U step = c.thorough ? 1 : 2;
  for(U a = 0; a < hi[0]; a += step) for(U b = a + 1; b <= hi[0]; b += 2 * step) for(U e = 0; e < hi[1]; e += 2 * step) for(U f = e + 1; f <= hi[1]; f += 3 * step) fill<2, V>(c, *s.d, s.l, {a, e}, {b, f}, 0);
  for(int k = 0; k < 3; k++) read_all<2, V>(c, *s.d, s.l, k);
  verify<2, V>(c, *s.d, s.l, 3);
}

// a chunk of several elements per axis, all extraction regions
template <U D, U V> void regions(Ctx& c, const std::vector<Slot<D>>& tiles) {
  Sys<D, V> s(c, c.scratch() / "a", c.pick({(U)0, (U)1, (U)2}), ser_default<D>());
  for(auto& t : tiles) s.reg(t);
  Ind<D> lo, hi; s.l.extent(lo, hi);
  Ind<D> a, b;
  for(U d = 0; d < D; d++) { a[d] = c.range(lo[d], hi[d] - 1); b[d] = c.range(a[d] + 1, hi[d]); }
  U off = c.choose(3);
  c.op("extract %s..%s", str(a).c_str(), str(b).c_str());
  fill<D, V>(c, *s.d, s.l, a, b, off);
  fill<D, V>(c, *s.d, s.l, lo, hi, 0);
}

template <U V> void shape_far(Ctx& c, Sys<2, V>& s, const std::vector<Slot<2>>& slots) {
  dm::shape<2, V>(c, *s.d, s.l); read_all<2, V>(c, *s.d, s.l, 2);
  for(auto& sl : slots) { Ind<2> lo(sl.start), hi(sl.start + sl.shape); for(U k = 0; k < 2; k++) { if(lo[k]) lo[k]--; hi[k]++; } fill<2, V>(c, *s.d, s.l, lo, hi, 0); each<2>(lo, hi, [&](const Ind<2>& i) { read<2, V>(c, *s.d, s.l, i); }); }
  // where the elements would be if indices were cut off
  for(auto& [k, v] : s.l.m) for(int b : {8, 16, 31, 32, 40}) for(U d = 0; d < 2; d++) { Ind<2> i = ind<2>(k); i[d] += (U)1 << b; if(!s.l.has(i)) read<2, V>(c, *s.d, s.l, i); }
  c.state(s.l.hash()); c.step();
}
// chunks far from each other and from the origin, where narrower index arithmetic would wrap around
template <U V> void far(Ctx& c) {
  std::vector<U> xs; for(int b : {8, 15, 16, 24, 31, 32, 33, 40}) for(U x : {(U(1) << b) - 1, U(1) << b, (U(1) << b) + 1}) xs.push_back(x);
  if(c.lite) xs = {65535, 65536, 4294967295, 4294967296};
  Ind<2> p(U(0)); int how = c.choose(4); U x = how < 3 ? c.pick(xs) : 0;
  if(how < 2) p[how] = x; else if(how == 2) { p[0] = x; p[1] = x > ((U)1 << 24) ? 3 : x; } else p = c.pick(std::vector<Ind<2>>{{(U)5, (U)42}, {(U)42, (U)5}, {(U)5, (U)10922}, {(U)10922, (U)5}, {(U)1, (U)1073741824}, {(U)5, (U)715827882}, {(U)715827882, (U)5}, {(U)255, (U)65537}, {(U)65535, (U)65537}});      // the extent holds as many elements as the two chunks do, but for a power of two
  Ind<2> shape(U(1 + c.choose(2))); bool first = c.flag(); U overlap = c.choose(2) && x < ((U)1 << 20);
  Sys<2, V> s(c, c.scratch() / "a", c.pick({(U)0, (U)2}), ser_default<2>());
  std::vector<Slot<2>> slots{{Ind<2>(U(0)), shape}, {p, shape, overlap}}; if(first) std::swap(slots[0], slots[1]); if(how != 3 && p[0]) { Slot<2> m{p, shape}; m.start[0] += shape[0]; slots.push_back(m); }
  for(auto& sl : slots) s.reg(sl); shape_far<V>(c, s, slots);
  c.op("swap axes 0 and 1"); s.template swap<0, 1>(); for(auto& sl : slots) { std::swap(sl.start[0], sl.start[1]); } shape_far<V>(c, s, slots);
  s.close(); s.open(1); shape_far<V>(c, s, slots); c.nontrivial();
}

// a slice of any shape offered at any place along either axis: it continues a chunk that can take it, or it is refused and nothing changes
template <U V, U axis> void offer(Ctx& c, Sys<2, V>& s, Ind<2> at, Ind<2> shape) {
  int k = -1; Ind<2> hi = at + shape;
  for(U q = 0; q < s.chunks.size(); q++) {
    auto& ch = s.chunks[q]; bool fits = !ch.overlap;
    for(U d = 0; d < 2; d++) fits &= d == axis ? at[d] == ch.start[d] + ch.shape[d] : at[d] == ch.start[d] && shape[d] == ch.shape[d];
    if(fits) k = q;
  }
  if(k >= 0 && !s.l.free(at, hi)) c.prune();      // chunks do not overlap each other
  bool must = k >= 0 && s.template can_append<axis>(k, shape[axis]);
  Arr<2, V> a(shape); auto l = s.l; fresh<2, V>(a, l, at, shape, 0, s.counter, 0);
  c.op("offer %s along axis %zu at %s", str(shape).c_str(), axis, str(at).c_str());
  bool done = true; std::string what; try { s.d -> template AppendSlice<axis>(at, a); } catch(const std::exception& e) { done = false; what = e.what(); }
  c.check(k >= 0 || !done, "a slice %s is accepted along axis %zu at %s, where it continues no chunk", str(shape).c_str(), axis, str(at).c_str());
  c.check(done || !must, "a slice that continues a chunk is refused: %s", what.c_str());
  if(done) { s.l = l; s.chunks[k].shape[axis] += shape[axis]; } else c.nontrivial();
  c.observe(done); c.state(s.l.hash()); c.step();
}
template <U V> void offers(Ctx& c, Ind<2> ser, int depth) {
  std::vector<Slot<2>> slots = c.flag() ? std::vector<Slot<2>>{{{(U)1, (U)1}, {(U)2, (U)2}}, {{(U)4, (U)1}, {(U)1, (U)2}, 1}} : std::vector<Slot<2>>{{{(U)0, (U)0}, {(U)2, (U)2}}, {{(U)1, (U)3}, {(U)2, (U)1}}};
  Sys<2, V> s(c, c.scratch() / "a", c.range(0, 2), ser);
  for(auto& sl : slots) s.reg(sl);
  auto between = [&](bool swaps) { switch(c.choose(swaps ? 6 : 4)) {
    case 0: break; case 1: s.flush(); break; case 2: s.touch(0); break;
    case 3: if(s.template can_append<0>(0, 1)) s.template append<0>(0, 1); else if(s.template can_append<1>(0, 1)) s.template append<1>(0, 1); break;
    case 4: s.touch_last(1); s.touch(0); break;
    default: s.template swap<0, 1>(); } };
  for(int n = 0; n < depth; n++) {
    between(n == 0);
    Ind<2> at, shape;
    if(depth > 1) {      // at or next to the end of a chunk
      U k = c.choose(2), ax = c.choose(2); at = s.chunks[k].start; shape = s.chunks[k].shape; at[ax] += shape[ax]; shape[ax] = 1;
      switch(c.choose(7)) { case 1: shape[ax] = 2; break; case 2: at[ax]--; break; case 3: at[ax]++; break; case 4: at[1 - ax]++; break; case 5: shape[1 - ax]++; break; case 6: if(shape[1 - ax] == 1) c.prune(); shape[1 - ax]--; break; default: break; }
      if(ax == 0) offer<V, 0>(c, s, at, shape); else offer<V, 1>(c, s, at, shape);
      continue;
    }
    for(U d = 0; d < 2; d++) { at[d] = c.range(0, c.thorough ? 6 : 5); shape[d] = c.range(1, c.thorough ? 3 : c.lite ? 1 : 2); }
    if(c.flag()) offer<V, 1>(c, s, at, shape); else offer<V, 0>(c, s, at, shape);
  }
  if(depth == 1 || c.thorough) between(false);
  verify<2, V>(c, *s.d, s.l, c.choose(2) ? 3 : 1);
  s.close(); s.open(1); verify<2, V>(c, *s.d, s.l, 2);
}

// the same in three dimensions: slices of every shape at the end of a chunk
template <U axis> void offer3(Ctx& c, Sys<3, 1>& s, int k, Ind<3> shape) {
  auto& ch = s.chunks[k]; Ind<3> at = ch.start; at[axis] += ch.shape[axis]; bool fits = true; for(U d = 0; d < 3; d++) fits &= d == axis || shape[d] == ch.shape[d];
  const bool must = fits && s.can_append<axis>(k, shape[axis]); Arr<3, 1> a(shape); auto l = s.l; fresh<3, 1>(a, l, at, shape, 0, s.counter, 0);
  c.op("offer %s along axis %zu at %s", str(shape).c_str(), axis, str(at).c_str());
  bool done = true; try { s.d -> AppendSlice<axis>(at, a); } catch(const std::exception&) { done = false; }
  c.check(fits || !done, "a slice %s is accepted along axis %zu by a chunk %s", str(shape).c_str(), axis, str(ch.shape).c_str()); c.check(done || !must, "a slice that continues a chunk is refused");
  if(done) { s.l = l; ch.shape[axis] += shape[axis]; } c.observe(done); c.state(s.l.hash()); c.step();
}
static void offers3(Ctx& c) {
  Ind<3> ser = c.pick({ser_default<3>(), Ind<3>{INF(), INF(), (U)1}, Ind<3>((U)1)}), shape, first; for(U d = 0; d < 3; d++) { shape[d] = c.range(1, 3); first[d] = c.pick(std::vector<U>{1, 2, 3}); } if(!c.thorough && count<3>(first) != 6 && count<3>(first) != 4) c.prune();
  Sys<3, 1> s(c, c.scratch() / "a", c.range(0, c.thorough ? 2 : 1), ser); s.reg({Ind<3>{(U)0, (U)1, (U)2}, first}); int how = c.choose(3); if(how == 1) s.flush(); else if(how == 2) s.touch(0);
  switch(c.choose(3)) { case 0: offer3<0>(c, s, 0, shape); break; case 1: offer3<1>(c, s, 0, shape); break; default: offer3<2>(c, s, 0, shape); }
  if(s.can_append<0>(0, 1)) s.append<0>(0, 1); verify<3, 1>(c, *s.d, s.l, 3); s.close(); s.open(1); verify<3, 1>(c, *s.d, s.l, 1); c.nontrivial();
}

static std::vector<Slot<2>> tiles2() { return {{{(U)0, (U)0}, {(U)2, (U)3}}, {{(U)0, (U)3}, {(U)4, (U)1}}, {{(U)2, (U)0}, {(U)2, (U)1}}, {{(U)2, (U)1}, {(U)2, (U)2}, 1}}; }
static std::vector<Slot<3>> tiles3() { return {{{(U)0, (U)0, (U)0}, {(U)1, (U)2, (U)3}}, {{(U)1, (U)0, (U)0}, {(U)2, (U)2, (U)1}}, {{(U)1, (U)0, (U)1}, {(U)2, (U)2, (U)2}, 1}}; }

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C05"; h.level = "model_checking";
  h.assumptions = {"chunks do not overlap each other", "slices are appended along an axis that the serialization chunks admit, to chunks without overlap", "finite, normal values"};
  Ind<2> col{INF(), (U)1}, elem{(U)1, (U)1};
  h.space("from-empty-2d-columns", "all histories of 4 (5) operations on three chunks side by side, cache depths 0-2 (0-3)", 3, [](Ctx& c) { history<2, 2>(c, 0, c.thorough ? 5 : c.lite ? 3 : 4, c.thorough ? 3 : 2, false, ser_default<2>(), 0); });
  h.space("from-empty-2d-rows", "the same with chunks on top of each other", 3, [](Ctx& c) { history<2, 2>(c, 1, c.thorough ? 5 : c.lite ? 3 : 4, c.thorough ? 3 : 2, false, ser_default<2>(), 0); }, 1);
  h.space("from-empty-2d-scattered", "the same with gaps, an offset and an overlap", 3, [](Ctx& c) { history<2, 2>(c, 2, c.thorough ? 5 : 4, c.thorough ? 3 : 2, false, ser_default<2>(), 0); }, 1);
  h.space("registered-2d-columns", "all histories of 4 (5) operations after three chunks have been registered in two orders, cache depths 0-2 (4)", 3, [](Ctx& c) { history<2, 2>(c, 0, c.thorough ? 5 : c.lite ? 2 : 4, c.thorough ? 4 : 2, true, ser_default<2>(), 0); });
  h.space("registered-2d-rows", "the same with chunks on top of each other", 3, [](Ctx& c) { history<2, 2>(c, 1, c.thorough ? 5 : 3, c.thorough ? 4 : 3, true, ser_default<2>(), 0); }, 1);
  h.space("registered-2d-axis1", "serialization chunks that admit slices along the second axis only", 3, [col](Ctx& c) { history<2, 1>(c, 1, c.thorough ? 5 : 3, 2, true, col, 1); }, 1);
  h.space("registered-2d-both-axes", "serialization chunks of single elements, slices along both axes", 3, [elem](Ctx& c) { history<2, 2>(c, 1, c.thorough ? 5 : c.lite ? 2 : 3, 2, true, elem, 1); });
  h.space("registered-3d", "all histories of 3 (4) operations in three dimensions", 3, [](Ctx& c) { int l = c.choose(2); history<3, 2>(c, l, c.thorough ? 4 : c.lite ? 2 : 3, 3, true, ser_default<3>(), 0); });
  h.space("from-empty-1d", "all histories of 4 (6) operations in one dimension", 3, [](Ctx& c) { history<1, 3>(c, 0, c.thorough ? 6 : 4, 2, false, ser_default<1>(), 0); });
  h.space("orders", "all orders of registering and of reading four chunks, cache depths 0-4", 4, [](Ctx& c) { orders<2, 2>(c, tiles2(), c.thorough ? 5 : 3); });
  h.space("orders-3d", "all orders of registering and of reading three chunks, cache depths 0-3", 4, [](Ctx& c) { orders<3, 2>(c, tiles3(), 3); });
  h.space("regions-2d", "all extraction regions of a 4x4 domain in four chunks", 4, [](Ctx& c) { regions<2, 2>(c, tiles2()); });
  h.space("regions-3d", "all extraction regions of a 3x2x3 domain in three chunks", 5, [](Ctx& c) { regions<3, 2>(c, tiles3()); });
  h.space("far", "two or three chunks that are up to 2^40 elements apart, at the distances where narrower index arithmetic would wrap around", 3, [](Ctx& c) { far<2>(c); });
  h.space("offered-slices", "slices of every shape offered at every place near two chunks, along both axes, to cached, flushed, appended and swapped chunks, followed by other operations", 3, [](Ctx& c) { offers<1>(c, ser_default<2>(), 1); });
  h.space("offered-slices-elements", "the same with serialization chunks of single elements", 3, [elem](Ctx& c) { offers<2>(c, elem, 1); }, 1);
  h.space("offered-slices-axis1", "the same with serialization chunks for the second axis", 3, [col](Ctx& c) { offers<1>(c, col, 1); }, 1);
  h.space("offered-slices-twice", "two slices offered at or next to the ends of the chunks, of fitting and of other shapes, with other operations in between", 3, [](Ctx& c) { offers<1>(c, Ind<2>{(U)2, INF()}, 2); }, 1);
  h.space("offered-slices-3d", "slices of every shape offered at the ends of a chunk in three dimensions", 3, offers3, 1);
  h.space("many", "tilings of 6x7 (9x13) chunks, three registration orders, swaps and appends on every chunk", 3, [](Ctx& c) { if(c.thorough) many<2>(c, 9, 13); else many<2>(c, 6, 7); });
  return mc::run_main(h, argc, argv);
}
