// C28: what has been flushed survives a process that is killed at any point while it adds chunks, and can be read at any time meanwhile.
#include "gf.hh"
#include "jobs.hh"
using namespace gf;
template <U D, U V> using Dist = DArr<D, V>;

// at every point at which the process could be killed, what is in the directory is one of the contents that are possible at that moment
template <U D, U V> struct Observer {
  Ctx& c; fs::path dir, copy; const int later; std::vector<Logical<D, V>> possible; std::string broken; U points = 0, distinct = 0; std::function<void(const char*)> fn; std::set<std::uint64_t> seen; const Ind<D> ser; Sys<D, V>* sys = nullptr;
  Observer(Ctx& c, const fs::path& dir, const fs::path& copy, int later, Ind<D> ser) : c(c), dir(dir), copy(copy), later(later), ser(ser) { possible.push_back({}); fn = [this](const char* what) { look(what); }; fsp::which = fsp::everything; fsp::torn = true; fsp::watch = &fn; }
  ~Observer() { fsp::watch = nullptr; fsp::torn = false; fsp::which = fsp::changes; }
  static bool equal(Dist<D, V>& d, const Logical<D, V>& l, const Logical<D, V>& all) {
    if(d.GetShape() != l.shape()) return false;
    for(auto& [k, v] : all.m) {
      Ind<D> i = ind<D>(k); if(!l.has(i)) { bool threw = false; try { d[i]; } catch(const std::exception&) { threw = true; } if(!threw) return false; continue; }
      try { auto e = d[i]; for(U q = 0; q < V; q++) { float x = e[q]; if(!same(x, l.m.at(k)[q])) return false; } } catch(const std::exception&) { return false; }
    }
    return true;
  }
  void look(const char* what) {
    points++; if(!broken.empty() || !fs::exists(dir)) return;
    auto now = snapshot(dir); std::uint64_t h = possible.size(); for(auto& p : possible) h = mc::mix(h, p.hash()); for(auto& [n, b] : now) h = mc::mix(h, std::hash<std::string>()(n + "\n" + b));
    if(!seen.insert(h).second) return;
    distinct++; Quiet q; fs::path at = copy / std::to_string(distinct); fs::create_directories(at); for(auto& [n, b] : now) { std::ofstream f(at / n, std::ios::binary); f << b; }
    Logical<D, V> all = possible.back(), is; bool found = false;
    { Dist<D, V> d(at, 1, Ind<D>(U(1)), ser); for(auto& p : possible) if(equal(d, p, all)) { found = true; is = p; } }
    if(!found) { broken = std::string(what) + ": the " + std::to_string(now.size()) + " files hold none of the " + std::to_string(possible.size()) + " contents that are possible"; return; }
    c.state(mc::mix(is.hash(), std::hash<std::string>()(what)));
    if(later) proceed(at, is, what);
  }
  // work goes on with what is left
  void proceed(const fs::path& at, Logical<D, V> l, const char* what) {
    { Dist<D, V> d(at, 1, Ind<D>(U(1)), ser);
      if(later == 1 || later == 2) { Ind<D> p(U(0)), s(U(1)); p[0] = 40; int n = 900; Arr<D, V> a(s); fresh<D, V>(a, l, p, s, 0, n, 0); d.RegisterChunk(a, p); if(later == 2) d.Flush(); }
      // a slice is appended to a chunk again, or this is refused
      if(later == 5) for(auto& ch : sys -> chunks) {
        Ind<D> p = ch.start, n = ch.shape; if(!l.has(p)) continue; while(l.has(p)) p[0]++; n[0] = 1; if(!l.free(p, Ind<D>(p + n))) continue;
        Logical<D, V> next = l; int k = 700; Arr<D, V> a(n); fresh<D, V>(a, next, p, n, 0, k, 0); bool done = false; try { d.template AppendSlice<0>(p, a); done = true; } catch(const std::exception&) { } if(done) l = next; }
      if(later == 3) { d.Move(fs::path(at.string() + "m")); }
      if(later == 4) { fs::path more = copy.parent_path() / "further"; if(!fs::exists(more)) { Dist<D, V> m(more, 0, Ind<D>(U(1)), ser); Ind<D> p(U(0)); p[0] = 50; m.RegisterChunk(Arr<D, V>(Ind<D>(U(1)), 7.0f), p); } d.Import(more); Ind<D> p(U(0)); p[0] = 50; std::array<float, V> v; v.fill(7.0f); l.m[key<D>(p)] = v; } }
    fs::path to = later == 3 ? fs::path(at.string() + "m") : at;
    Dist<D, V> d(to, 2, Ind<D>(U(1)), ser); if(!equal(d, l, l)) broken = std::string(what) + ": work cannot go on with what is left";
    if(later == 3 && fs::exists(at)) broken = std::string(what) + ": what is left cannot be moved";
  }
};

template <U D, U V> void history(Ctx& c, U lay, int depth, int maxcache, int later, bool start, bool appends = false, bool first = false) {
  auto slots = layouts<D>()[lay]; Ind<D> ser = ser_default<D>(); if(first) { ser = Ind<D>(U(1)); ser[0] = 2; } const fs::path dir = c.scratch() / "a";
  { Quiet q; Dist<D, V> m(c.scratch() / "more", 0, Ind<D>(U(1)), ser); Ind<D> p(U(0)); p[0] = 30; m.RegisterChunk(Arr<D, V>(Ind<D>(U(1)), 7.0f), p); }
  U next = 0; Sys<D, V> s(c, dir, c.range(0, maxcache), ser); Observer<D, V> o(c, dir, c.scratch() / "copies", later, ser); bool imported = false; o.sys = &s;
  std::set<U> nulls; auto reg = [&](int kind) { if(kind == 1) nulls.insert(s.chunks.size()); auto sl = slots[next++]; if(kind == 2) sl.overlap = 1;
    // the content after this operation becomes possible with it, and everything since the last flush is possible until then
    auto l = s.l; { Sys<D, V>* t = &s; Arr<D, V> a(Ind<D>(sl.shape + 2 * sl.overlap)); int n = t -> counter; fresh<D, V>(a, l, sl.start, sl.shape, sl.overlap, n, kind == 1); } o.possible.push_back(l);
    s.reg(sl, kind == 1, kind ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); };
  auto flushed = [&] { o.possible = {s.l}; };
  if(start) { reg(0); s.flush(); flushed(); }
  for(int k = 0; k < depth; k++) {
    std::vector<std::function<void()>> ops{[&] { s.flush(); flushed(); }, [&] { U depth = c.range(0, 1); c.op("close, open with cache depth %zu", depth); s.close(); flushed(); s.open(depth); }};
    while(appends && next < slots.size() && !s.can_register(slots[next])) next++;
    if(next < slots.size()) for(int kind = 0; kind < 3; kind++) ops.push_back([&, kind] { reg(kind); });
    auto can = [&](auto ax) { constexpr U A = decltype(ax)::value; for(U ch = 0; ch < s.chunks.size(); ch++) if(!nulls.count(ch) && s.template can_append<A>(ch, 1)) ops.push_back([&, ch] {
      auto l = s.l; Ind<D> lo = s.chunks[ch].start, n = s.chunks[ch].shape; lo[A] += n[A]; n[A] = 1; { Arr<D, V> a(n); int k = s.counter; fresh<D, V>(a, l, lo, n, 0, k, 0); } o.possible.push_back(l); s.template append<A>(ch, 1); }); };
    if(appends) { can(std::integral_constant<U, 0>()); if constexpr(D > 1) can(std::integral_constant<U, 1>()); }
    if(!s.l.m.empty()) { if(!s.chunks.empty()) ops.push_back([&] { s.touch(0); }); ops.push_back([&] { Ind<D> lo, hi; s.l.extent(lo, hi); c.op("extract everything"); fill<D, V>(c, *s.d, s.l, lo, hi, 0); }); }
    if(!imported) ops.push_back([&] { c.op("import"); imported = true; auto l = s.l; Ind<D> p(U(0)); p[0] = 30; std::array<float, V> v; v.fill(7.0f); l.m[key<D>(p)] = v; o.possible.push_back(l); s.l = l; s.d -> Import(c.scratch() / "more"); });
    ops[c.choose((int)ops.size())](); c.check(o.broken.empty(), "killed %s", o.broken.c_str()); 
  }
  c.op("close"); s.close(); flushed(); o.look("at the end"); c.check(o.broken.empty(), "killed %s", o.broken.c_str());
  for(U k = 0; k < o.points; k++) c.step(); c.observe(o.distinct); if(o.distinct > 2) c.nontrivial();
  fsp::watch = nullptr; s.open(2); verify<D, V>(c, *s.d, s.l, 0);
}

int main(int argc, char** argv) {
  mc::Harness h; h.property = "C28"; h.level = "model_checking";
  h.assumptions = {"the process is killed between two calls of the operating system (or within a write); what it has handed over by then is what is left", "axes are not swapped, nothing is cleared or moved away"};
  h.space("killed-1d", "histories of registering, importing, flushing, reopening and reading, killed at every operation on files", 3, [](Ctx& c) { history<1, 1>(c, 0, c.thorough ? 5 : c.lite ? 2 : 4, 2, 0, c.flag()); });
  h.space("killed-2d", "the same with chunks in two dimensions", 3, [](Ctx& c) { U l = c.choose(3); history<2, 2>(c, l, c.thorough ? 4 : 3, 1, 0, c.flag()); }, 1);
  h.space("killed-3d", "the same with chunks in three dimensions", 3, [](Ctx& c) { U l = c.choose(2); history<3, 1>(c, l, c.thorough ? 4 : 2, 1, 0, c.flag()); }, 1);
  h.space("appending-1d", "the same with slices that are appended to chunks, also to those that have been flushed", 3, [](Ctx& c) { history<1, 1>(c, 0, c.thorough ? 5 : 4, c.thorough ? 2 : 1, 0, true, true); }, 1);
  h.space("appending-2d", "the same in two dimensions", 3, [](Ctx& c) { U l = c.choose(3); bool first = c.flag(); history<2, 2>(c, l, c.thorough ? 4 : 3, 1, 0, true, true, first); }, 1);
  h.space("going-on", "the same, and work goes on with what is left: chunks are added, the library is moved or imported into", 3, [](Ctx& c) { int later = c.range(1, 4); history<2, 1>(c, 2, c.thorough ? 4 : 3, c.thorough ? 2 : 1, later, c.flag()); }, 1);
  h.space("appending-again", "the same with slices that are appended, and slices are appended to what is left", 3, [](Ctx& c) { if(c.flag()) history<2, 1>(c, 2, c.thorough ? 4 : 3, 1, 5, true, true); else history<1, 2>(c, 0, c.thorough ? 5 : 3, 1, 5, true, true); }, 1);
  return mc::run_main(h, argc, argv);
}
