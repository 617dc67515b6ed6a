// C07: importing, moving and clearing libraries.
#include "dm.hh"
using namespace dm;

static int nfiles(const fs::path& d) { int n = 0; for(auto& e : fs::directory_iterator(d)) { (void)e; n++; } return n; }

// three libraries with disjoint places for their chunks
template <U D, U V> struct World {
  Ctx& c; fs::path root; int nmoves = 0;
  struct Lib { std::unique_ptr<Sys<D, V>> s; Logical<D, V> disk; bool has_index = false, dirty = false; U depth; std::vector<Slot<D>> slots; U next = 0; std::string name; };
  std::vector<Lib> libs;
  World(Ctx& c, std::vector<U> depths, std::vector<std::vector<Slot<D>>> slots) : c(c), root(c.scratch()) {
    for(U k = 0; k < depths.size(); k++) { Lib b; b.depth = depths[k]; b.slots = slots[k]; b.name = std::string(1, 'A' + k); libs.push_back(std::move(b)); libs[k].s = std::make_unique<Sys<D, V>>(c, root / libs[k].name, depths[k], ser_default<D>()); }
  }
  void reg(Lib& b, int null = 0) { c.op("%s:", b.name.c_str()); b.s -> reg(b.slots[b.next++], null); b.dirty = true; }
  void flush(Lib& b) { c.op("%s:", b.name.c_str()); b.s -> flush(); b.disk = b.s -> l; b.has_index = true; b.dirty = false; }
  void reopen(Lib& b, U depth) { c.op("%s: close, open with cache depth %zu", b.name.c_str(), depth); b.s -> close(); b.disk = b.s -> l; b.has_index = true; b.dirty = false; b.s -> open(depth); }
  bool can_import(Lib& to, Lib& from) {
    if(from.dirty || !from.has_index) return false;
    for(auto& [k, v] : from.disk.m) if(to.s -> l.m.count(k)) return false;
    return true;
  }
  void adopt(Lib& to, Lib& from) {
    for(auto& [k, v] : from.disk.m) to.s -> l.m[k] = v;
    for(auto& ch : from.s -> chunks) to.s -> chunks.push_back(ch);
    to.dirty = true;
  }
  void import_copy(Lib& to, Lib& from) {
    c.op("%s: import %s", to.name.c_str(), from.name.c_str());
    auto before = snapshot(from.s -> dir);
    to.s -> d -> Import(from.s -> dir);
    adopt(to, from);
    c.check(snapshot(from.s -> dir) == before, "importing a copy changes the imported directory");
  }
  void import_move(Lib& to, Lib& from) {
    c.op("%s: import %s and remove it", to.name.c_str(), from.name.c_str());
    U depth = from.s -> cache;
    from.s -> close();
    to.s -> d -> Import(from.s -> dir, true);
    adopt(to, from);
    c.check(nfiles(from.s -> dir) == 0, "importing with removal leaves %d files behind", nfiles(from.s -> dir));
    from.disk = {}; from.s -> l = {}; from.s -> chunks.clear(); from.has_index = false; from.dirty = false;
    from.s -> open(depth);
  }
  void move(Lib& b, bool existing) {
    fs::path dest = root / ("moved" + std::to_string(nmoves++));
    c.op("%s: move to %s directory", b.name.c_str(), existing ? "an existing" : "a new");
    if(existing) fs::create_directory(dest);
    fs::path old = b.s -> dir;
    b.s -> d -> Move(dest);
    c.check(!fs::exists(old), "moving leaves the old directory behind");
    c.check(b.s -> d -> GetWorkdir() == dest, "the array does not report its new location");
    b.s -> dir = dest; b.disk = b.s -> l; b.has_index = true; b.dirty = false;
  }
  void independent(Lib& b, int how, U depth) { DArr<D, V> r(b.s -> dir, depth, Ind<D>(U(1)), b.s -> ser); verify<D, V>(c, r, b.disk, how); }
};

template <U D, U V> void history(Ctx& c, std::vector<std::vector<Slot<D>>> slots, int depth, int nreg, bool full, std::vector<std::vector<U>> depths) {
  World<D, V> w(c, c.pick(depths), slots);
  for(int k = 0; k < nreg; k++) for(auto& b : w.libs) if(b.next < b.slots.size()) w.reg(b);
  for(int n = 0; n < depth; n++) {
    std::vector<std::function<void()>> o;
    for(auto& b : w.libs) {
      auto* p = &b;
      if(b.next < b.slots.size()) o.push_back([&w, p] { w.reg(*p); });
      if(b.dirty || !b.has_index) o.push_back([&w, p] { w.flush(*p); });
    }
    for(auto& t : w.libs) for(auto& f : w.libs) if(&t != &f && w.can_import(t, f) && (full || &t < &f)) {
      auto *a = &t, *b = &f;
      o.push_back([&w, a, b] { w.import_copy(*a, *b); });
      o.push_back([&w, a, b] { w.import_move(*a, *b); });
    }
    for(auto& b : w.libs) {
      auto* p = &b;
      if(&b == &w.libs[2] && !full) continue;
      o.push_back([&w, p, n] { w.move(*p, n % 2); });
      o.push_back([&w, p] { w.reopen(*p, p -> s -> cache == 1 ? 3 : 1); });
      if(!b.s -> chunks.empty()) { o.push_back([p] { p -> s -> touch(0); }); U last = b.s -> chunks.size() - 1; if(last) o.push_back([p, last] { p -> s -> touch_last(last); }); }
      if(b.s -> template can_append<0>(0, 1) && full) o.push_back([p] { p -> s -> template append<0>(0, 1); p -> dirty = true; });
    }
    o[c.choose((int)o.size())]();
    for(auto& b : w.libs) c.state(mc::mix(b.s -> l.hash(), mc::mix(b.disk.hash(), mc::hash_str(b.name))));
  }
  int how = c.choose(2) ? 2 : 3;
  c.op("verify %d", how);
  for(auto& b : w.libs) if(b.has_index && !b.dirty) w.independent(b, how, 1);
  for(auto& b : w.libs) verify<D, V>(c, *b.s -> d, b.s -> l, how);
  for(auto& b : w.libs) { w.reopen(b, 2); verify<D, V>(c, *b.s -> d, b.s -> l, how); }
}

// many libraries imported one after the other into one array, in all orders
template <U D, U V> void merge(Ctx& c, std::vector<std::vector<Slot<D>>> parts) {
  U depth = c.pick({(U)0, (U)1, (U)4});
  bool move = c.flag(), reread = c.flag(), preload = c.flag();
  auto dir = c.scratch(); int counter = 0;
  std::vector<Logical<D, V>> content(parts.size());
  for(U k = 0; k < parts.size(); k++) {
    Sys<D, V> s(c, dir / ("part" + std::to_string(k)), depth, ser_default<D>());
    s.counter = counter; for(auto& t : parts[k]) s.reg(t); counter = s.counter;
    content[k] = s.l;
  }
  Sys<D, V> m(c, dir / "merged", depth, ser_default<D>());
  std::vector<U> left; for(U k = 0; k < parts.size(); k++) left.push_back(k);
  while(!left.empty()) {
    U j = c.choose((int)left.size()), k = left[j]; left.erase(left.begin() + j);
    c.op("import part %zu%s", k, move ? " and remove it" : "");
    m.d -> Import(dir / ("part" + std::to_string(k)), move);
    for(auto& [a, b] : content[k].m) m.l.m[a] = b;
    if(reread) verify<D, V>(c, *m.d, m.l, 2);
  }
  if(preload) { c.op("close, open"); m.close(); m.open(depth); }
  verify<D, V>(c, *m.d, m.l, 4); verify<D, V>(c, *m.d, m.l, 3); verify<D, V>(c, *m.d, m.l, 0);
  if(!move) for(U k = 0; k < parts.size(); k++) { DArr<D, V> r(dir / ("part" + std::to_string(k)), 1, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, r, content[k], 2); }
}

// moving and importing between file systems
template <U D, U V> void across(Ctx& c, std::vector<Slot<D>> slots) {
  fs::path a = c.scratch() / "a", b = c.scratch_elsewhere() / "b";
  bool import = c.flag(), swap = c.flag(), rm = c.flag(); U depth = c.range(0, 2);
  c.op("%s %s", import ? "import" : "move", swap ? "there" : "back"); if(swap) std::swap(a, b);
  Sys<D, V> s(c, a, depth, ser_default<D>());
  for(auto& t : slots) s.reg(t);
  if(!import) { s.d -> Move(b); c.check(!fs::exists(a), "moving leaves the old directory behind"); verify<D, V>(c, *s.d, s.l, 2); s.close(); }
  else {
    s.close(); Sys<D, V> m(c, b, depth, ser_default<D>()); m.d -> Import(a, rm); verify<D, V>(c, *m.d, s.l, 3);
    c.check(nfiles(a) == (rm ? 0 : 1 + (int)slots.size()), "importing leaves %d files behind", nfiles(a)); m.close();
  }
  Sys<D, V> r(c, b, 1, ser_default<D>()); verify<D, V>(c, *r.d, s.l, 2);
  r.close(); std::error_code ec; fs::remove_all(swap ? a.parent_path() : b.parent_path(), ec);
}

// clearing and deleting, observed at the library itself
template <U D, U V> void clearing(Ctx& c, std::vector<Slot<D>> slots, int depth) {
  using Lib = ChunkLibrary<NDVecArray, float, D, V>;
  U cache = c.range(0, 2); c.op("cache depth %zu", cache);
  auto dir = c.scratch(); fs::path d = dir / "a"; fs::create_directory(d);
  { std::ofstream f(d / "note.txt"); f << "keep"; }
  { std::ofstream f(dir / "elsewhere.chunk"); f << "keep"; }
  auto l = std::make_unique<Lib>(d, cache, Ind<D>(U(1)), ser_default<D>());
  Logical<D, V> ref; int counter = 0;
  auto check_all = [&] {
    Ind<D> s = l -> GetShape(), want = ref.shape();
    c.check(s == want, "the shape is reported as %s, expected %s", str(s).c_str(), str(want).c_str());
    for(auto& sl : slots) each<D>(sl.start, Ind<D>(sl.start + sl.shape), [&](const Ind<D>& i) {
      if(ref.has(i)) check_value<D, V>(c, ref.m.at(key<D>(i)), (*l)[i], i, "reading");
      else { bool threw = false; try { (*l)[i]; } catch(const std::exception&) { threw = true; } c.check(threw, "element %s is still readable", str(i).c_str()); }
    });
    c.check(fs::exists(d / "note.txt") && fs::exists(dir / "elsewhere.chunk"), "a file that does not belong to the library has been removed");
  };
  for(int n = 0; n < depth; n++) {
    std::vector<std::function<void()>> o;
    for(auto& s : slots) if(ref.free(s.start, Ind<D>(s.start + s.shape))) { o.push_back([&] { c.op("register at %s", str(s.start).c_str()); Arr<D, V> a(s.shape); fresh<D, V>(a, ref, s.start, s.shape, 0, counter, 0); l -> RegisterChunk(a, s.start, Ind<D>(s.start + s.shape), 0); }); }
    o.push_back([&] { c.op("clear"); l -> ClearLibrary(); ref = {}; int k = 0; for(auto& e : fs::directory_iterator(d)) k += e.path().extension() == ".chunk"; c.check(k == 0, "%d chunk files survive clearing", k); });
    o.push_back([&] { c.op("flush"); l -> FlushLibrary(); });
    o.push_back([&] { c.op("close, open"); l.reset(); l = std::make_unique<Lib>(d, (U)1, Ind<D>(U(1)), ser_default<D>()); });
    if(!ref.m.empty()) o.push_back([&] { c.op("read"); Ind<D> i = ind<D>(ref.m.begin() -> first); check_value<D, V>(c, ref.m.begin() -> second, (*l)[i], i, "reading"); });
    if(!ref.m.empty()) o.push_back([&] { c.op("swap"); l -> template SwapAxes<0, D - 1>(); l -> template SwapAxes<0, D - 1>(); });
    o[c.choose((int)o.size())]();
    c.state(mc::mix(ref.hash(), cache));
  }
  check_all();
  l.reset(); l = std::make_unique<Lib>(d, (U)2, Ind<D>(U(1)), ser_default<D>()); check_all();
  fs::remove(d / "note.txt");
  c.op("delete"); l -> DeleteLibrary(); c.check(!fs::exists(d), "the directory survives deleting the library");
  c.check(fs::exists(dir / "elsewhere.chunk"), "a file outside the library has been removed");
}

static Slot<2> s2(U a, U b, U p, U q, U ov = 0) { return {{a, b}, {p, q}, ov}; }
int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C07"; h.level = "model_checking";
  h.assumptions = {"imported arrays have been flushed or closed and do not overlap the array they are imported into", "the destination of a move is a new or an empty directory whose parent exists", "an array whose removal is requested is closed when it is imported"};
  std::vector<std::vector<Slot<2>>> sl = {{s2(0, 0, 2, 1), s2(0, 1, 1, 2)}, {s2(9, 0, 1, 3), s2(30, 0, 2, 2, 1)}, {s2(0, 5, 1, 1)}};
  std::vector<std::vector<U>> some = {{1, 1, 1}, {0, 2, 1}}, more = {{1, 1, 1}, {0, 2, 1}, {3, 0, 0}, {2, 3, 2}};
  h.space("from-empty", "three empty libraries, all histories of 4 (5) operations", 3, [=](Ctx& c) { history<2, 2>(c, sl, c.thorough ? 5 : c.lite ? 2 : 4, 0, false, c.thorough ? more : some); });
  h.space("filled", "three libraries with one chunk each, all histories of 3 (4) operations, imports and moves in all directions", 3, [=](Ctx& c) { history<2, 2>(c, sl, c.thorough ? 4 : c.lite ? 2 : 3, 1, true, c.thorough ? more : some); });
  h.space("merge-2d", "four parts merged in all orders, copied or removed", 3, [](Ctx& c) { merge<2, 2>(c, {{s2(0, 0, 1, 2), s2(1, 0, 1, 2)}, {s2(0, 2, 2, 1)}, {s2(2, 0, 2, 1), s2(2, 1, 1, 2), s2(3, 1, 1, 2)}, {}}); });
  h.space("merge-3d", "three parts merged in all orders, copied or removed", 3, [](Ctx& c) { using S = Slot<3>; merge<3, 2>(c, {{S{{(U)0, (U)0, (U)0}, {(U)2, (U)1, (U)2}}}, {S{{(U)0, (U)1, (U)0}, {(U)1, (U)1, (U)2}}, S{{(U)1, (U)1, (U)0}, {(U)1, (U)1, (U)2}, 1}}, {S{{(U)0, (U)0, (U)2}, {(U)2, (U)2, (U)1}}}}); });
  h.space("across-file-systems", "moves and imports between two file systems", 1, [](Ctx& c) { across<2, 2>(c, {s2(0, 0, 1, 2), s2(1, 0, 2, 2)}); });
  h.space("clearing", "all histories of 5 (7) operations with clearing, refilling and reopening", 3, [](Ctx& c) { clearing<2, 2>(c, {s2(0, 0, 1, 2), s2(1, 0, 2, 2)}, c.thorough ? 7 : c.lite ? 3 : 5); });
  return mc::run_main(h, argc, argv);
}
