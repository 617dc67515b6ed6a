// C29: what cannot be read or written in full is reported; nobody ever gets anything else than what was stored.
#include "rb.hh"
#include "mp.hh"
#include "SignalCalculator.hh"
#include "SignalExport.hh"
#include "AnalyticGreensFunctionCalculator.hh"
#include <fstream>
using namespace gf;
using Bytes = std::map<std::string, std::string>;
template <U D, U V> using Dist = DArr<D, V>;

struct Silent { Quiet q; std::streambuf* b; Silent() : b(std::cerr.rdbuf(nullptr)) { } ~Silent() { std::cerr.rdbuf(b); std::cerr.clear(); } };

// counts the operations of a kind and lets the n-th one (or all from the n-th one on) fail
struct Faults {
  enum Kind { once, from, halves }; bool reads; long at = -1; Kind kind = once; int err; long n = 0; bool fired = false, over = false; std::function<int(const char*, bool&)> fn;
  Faults(bool reads, long at = -1, Kind kind = once) : reads(reads), at(at), kind(kind), err(reads ? EIO : ENOSPC) { fn = [this](const char* w, bool& half) { return (*this)(w, half); }; }
  static bool is(bool reads, const char* w) { auto any = [&](std::initializer_list<const char*> l) { for(const char* x : l) if(!std::strcmp(x, w)) return true; return false; }; return reads ? any({"read", "open"}) : any({"write", "create", "rename", "fclose", "copy_file_range", "sendfile"}); }
  int operator()(const char* w, bool& half) {
    if(!is(reads, w)) return 0; long k = n++; if(at < 0 || over || k < at) return 0;
    if(kind == once) { if(k > at) return 0; fired = true; return err; }
    if(kind == halves) { if(k == at && !std::strcmp(w, "write")) half = true; fired = true; if(k > at) over = true; return err; }
    fired = true; return err;
  }
  struct On { On(Faults& f) { fsp::fault = &f.fn; } ~On() { fsp::fault = nullptr; } };
};

// either the right value or an error
template <U D, U V> bool element(Ctx& c, Dist<D, V>& d, const Logical<D, V>& l, const Ind<D>& i, bool must, const char* who) {
  std::array<float, V> got; bool ok = false; try { auto e = d[i]; for(U k = 0; k < V; k++) got[k] = e[k]; ok = true; } catch(const std::exception& e) { if(must) c.fail(std::string(who) + ": element " + str(i) + " is intact, but reading it ends in an error (" + e.what() + ")"); }
  if(ok) check_value<D, V>(c, l.m.at(key<D>(i)), got, i, who); return ok;
}
template <U D, U V> U elements(Ctx& c, Dist<D, V>& d, const Logical<D, V>& l, const std::function<bool(const Ind<D>&)>& must, const char* who) { U good = 0; std::uint64_t h = l.hash(); for(auto& [k, v] : l.m) { bool g = element<D, V>(c, d, l, ind<D>(k), must(ind<D>(k)), who); good += g; h = mc::mix(h, g); } c.state(h); return good; }
template <U D, U V> bool extract(Ctx& c, Dist<D, V>& d, const Logical<D, V>& l, bool must) {
  Ind<D> lo, hi; l.extent(lo, hi); Arr<D, V> a(Ind<D>(hi - lo), -5.0f);
  try { d.FillArray(a, lo, hi, Ind<D>(U(0))); } catch(const std::exception&) { c.check(!must, "extracting everything ends in an error, although all of it is intact"); return false; }
  for(auto& [k, v] : l.m) { auto e = a[Ind<D>(ind<D>(k) - lo)]; check_value<D, V>(c, v, e, ind<D>(k), "extracting"); } return true;
}

template <U D, U V> struct Stored { Logical<D, V> l; std::vector<Logical<D, V>> chunks; };
template <U D> std::vector<Slot<D>> places(int k) { auto l = layouts<D>(); return l[k % l.size()]; }
template <U D, U V> Stored<D, V> build(Ctx& c, const fs::path& dir, int layout, int n, int kind) {
  Silent q; Stored<D, V> r; Sys<D, V> s(c, dir, 1, ser_default<D>()); auto p = places<D>(layout);
  for(int k = 0; k < n; k++) { auto before = s.l.m; s.reg(p[k], kind == 1 && k == 1 ? 1 : kind == 1 ? 2 : 0, kind == 1 ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); Logical<D, V> x; for(auto& e : s.l.m) if(!before.count(e.first)) x.m.insert(e); r.chunks.push_back(x); }
  if(kind == 2) { s.flush(); s.close(); s.open(2); if(s.template can_append<0>(n - 1, 1)) { auto before = s.l.m; s.template append<0>(n - 1, 1); for(auto& e : s.l.m) if(!before.count(e.first)) r.chunks.back().m.insert(e); } }
  s.close(); r.l = s.l; return r;
}
static const char* index_name = "index.bin";
static std::vector<std::string> files(const fs::path& dir) { std::vector<std::string> r; for(auto& [n, b] : snapshot(dir)) r.push_back(n); std::sort(r.begin(), r.end(), [&](const auto& a, const auto& b) { auto x = fs::file_size(dir / a), y = fs::file_size(dir / b); return x != y ? x < y : a < b; }); return r; }
// removes a file, or cuts off its end; the result says how
static std::string damage(Ctx& c, const fs::path& file, bool few) {
  U size = fs::file_size(file); int k = few ? c.pick({0, 1, 2, 3, 4}) : c.choose((int)size + 1);
  if(few && k) { U at[5] = {0, 0, size / 3, size / 2, size - 1}; k = 1 + at[k]; }
  if(k == 0) { fs::remove(file); return "removed"; } fs::resize_file(file, k - 1); return "cut to " + std::to_string(k - 1) + " of " + std::to_string(size) + " bytes";
}
// which chunk is in this file: the one whose elements cannot be read without it (on an own copy)
template <U D, U V> int owner(Ctx& c, const fs::path& dir, const std::string& file, const fs::path& tmp, const Stored<D, V>& s) {
  Silent q; fs::copy(dir, tmp); fs::remove(tmp / file); int r = -1;
  { Dist<D, V> d(tmp, 1, Ind<D>(U(1)), ser_default<D>()); for(U k = 0; k < s.chunks.size(); k++) { bool bad = false; for(auto& e : s.chunks[k].m) try { auto x = d[ind<D>(e.first)]; bad |= !same(x[0], e.second[0]); } catch(const std::exception&) { bad = true; } if(bad) { c.check(r < 0, "a stored file holds more than one chunk"); r = k; } } }
  fs::remove_all(tmp); return r;
}
template <U D, U V> void cut_files(Ctx& c, bool few) {
  fs::path dir = c.scratch() / "a"; Stored<D, V> s = build<D, V>(c, dir, c.choose((int)layouts<D>().size()), c.range(1, 3), c.choose(3)); auto fl = files(dir); std::string f = fl[c.choose((int)fl.size())];
  bool index = true; for(auto& x : fl) index &= !(x == f && fs::path(x).extension() != fs::path(index_name).extension()); index = f == index_name;
  int chunk = index ? -1 : owner<D, V>(c, dir, f, c.scratch() / "t", s); std::string how = damage(c, dir / f, few); c.op("%s %s", index ? "the index is" : "a chunk is", how.c_str());
  Bytes before = snapshot(dir); auto intact = [&](const Ind<D>& i) { return !index && (chunk < 0 || !s.chunks[chunk].has(i)); }; int what = c.choose(4); U cache = c.pick({(U)0, (U)1, (U)3}); c.nontrivial(); c.observe(mc::mix(mc::mix(chunk + 1, what), cache)); Silent q;
  if(what == 3) {
    c.op("import into an array with content of its own"); fs::path o = c.scratch() / "o"; Logical<D, V> own; int counter = 500; Dist<D, V> d(o, cache, Ind<D>(U(1)), ser_default<D>()); Ind<D> lo, hi; s.l.extent(lo, hi); hi += 3; Arr<D, V> a(Ind<D>(U(2))); fresh<D, V>(a, own, hi, Ind<D>(U(2)), 0, counter, 0); d.RegisterChunk(a, hi);
    bool done = false; try { d.Import(dir); done = true; } catch(const std::exception&) { }
    for(auto& [k, v] : own.m) element<D, V>(c, d, own, ind<D>(k), true, "afterwards");
    if(done && !(index && how == "removed")) elements<D, V>(c, d, s.l, intact, "the imported array");
    if(!done) shape<D, V>(c, d, own);
    return;
  }
  std::unique_ptr<Dist<D, V>> d; try { d = std::make_unique<Dist<D, V>>(dir, cache, Ind<D>(U(1)), ser_default<D>()); } catch(const std::exception& e) { c.check(index, "opening ends in an error (%s) although the index is intact", e.what()); }
  if(d && index && how == "removed") { elements<D, V>(c, *d, s.l, intact, "without the index"); return; }
  if(d) {
    c.op("open with cache depth %zu, %s", cache, what == 0 ? "read all elements twice" : what == 1 ? "extract, then read" : "read backwards, iterate");
    shape<D, V>(c, *d, s.l);
    if(what == 0) for(int k = 0; k < 2; k++) elements<D, V>(c, *d, s.l, intact, "reading");
    if(what == 1) { extract<D, V>(c, *d, s.l, !index && chunk < 0); elements<D, V>(c, *d, s.l, intact, "reading"); extract<D, V>(c, *d, s.l, !index && chunk < 0); }
    if(what == 2) { for(auto it = s.l.m.rbegin(); it != s.l.m.rend(); ++it) element<D, V>(c, *d, s.l, ind<D>(it -> first), intact(ind<D>(it -> first)), "reading");
      if(s.l.contiguous()) try { d -> index_loop_over_elements([&](const Ind<D>& i, const auto& e) { c.check(s.l.has(i), "iterating visits %s, which is not stored", str(i).c_str()); check_value<D, V>(c, s.l.m.at(key<D>(i)), e, i, "iterating"); }); } catch(const std::exception&) { c.check(index || chunk >= 0, "iterating ends in an error although all chunks are intact"); } }
    d.reset();
  }
  c.check(snapshot(dir) == before, "a reader that meets damaged files changes what is stored");
}

// reading fails for a while
template <U D, U V> void unreadable(Ctx& c, int depth) {
  fs::path dir = c.scratch() / "a"; Stored<D, V> s = build<D, V>(c, dir, c.choose((int)layouts<D>().size()), c.range(1, 3), c.choose(3)); U cache = c.pick({(U)0, (U)1, (U)3}); std::vector<int> acts; for(int k = 0; k < depth; k++) { int a = c.choose(4); if(!a) break; acts.push_back(a); } if(acts.empty()) return;
  auto all = [](const Ind<D>&) { return true; };
  auto run = [&](Faults& f) {
    Faults::On on(f); Silent q; std::unique_ptr<Dist<D, V>> d; auto hit = [&] { bool h = f.fired; f.fired = false; return h; };
    auto open = [&] { d.reset(); try { d = std::make_unique<Dist<D, V>>(dir, cache, Ind<D>(U(1)), ser_default<D>()); } catch(const std::exception& e) { c.check(hit(), "opening ends in an error (%s) although everything can be read", e.what()); if(f.kind == Faults::from) f.over = true; hit(); d = std::make_unique<Dist<D, V>>(dir, cache, Ind<D>(U(1)), ser_default<D>()); } hit(); };
    open();
    for(int a : acts) {
      c.step(); bool ok = true; hit();
      if(a == 1) for(auto& [k, v] : s.l.m) { hit(); bool good = element<D, V>(c, *d, s.l, ind<D>(k), false, "reading"); c.check(good || hit(), "reading %s ends in an error although it can be read", str(ind<D>(k)).c_str()); }
      if(a == 2) { ok = extract<D, V>(c, *d, s.l, false); c.check(ok || hit(), "extracting ends in an error although everything can be read"); }
      if(a == 3) open();
    }
    f.over = true; shape<D, V>(c, *d, s.l); elements<D, V>(c, *d, s.l, all, "once the medium works again"); extract<D, V>(c, *d, s.l, true);
  };
  Faults count(true); run(count); if(!count.n) return; Bytes before = snapshot(dir);
  Faults f(true, c.choose((int)count.n), c.pick({Faults::once, Faults::from})); c.op("reading operation %ld fails%s, cache depth %zu, operations %s", f.at, f.kind == Faults::from ? " and all later ones" : "", cache, [&] { std::string t; for(int a : acts) t += a == 1 ? "read " : a == 2 ? "extract " : "reopen "; return t; }().c_str());
  run(f); c.nontrivial(); c.check(snapshot(dir) == before, "a reader that cannot read changes what is stored");
}

// the disk is full, or writing fails, at some point of a history of changes
template <U D, U V> struct World {
  Ctx& c; fs::path dir; std::vector<Slot<D>> p; Sys<D, V>* s = nullptr; Logical<D, V> safe, all; bool hurt = false, appended = false, unsafe_close = false; int next = 0;
};
template <U D, U V> void full(Ctx& c, int depth, bool reads = false) {
  int layout = c.choose((int)layouts<D>().size()); U cache = c.pick({(U)0, (U)1, (U)3}); std::vector<int> acts; { int regs = 0; for(int k = 0; k < depth; k++) { int a = c.choose(6); if(!a) break; if(a == 1 && ++regs > 3) { c.prune(); } if(a != 1 && !regs) c.prune(); acts.push_back(a); } } if(acts.empty()) return;
  static const char* names[] = {"", "register", "append", "flush", "read", "reopen"}; std::string text; for(int a : acts) text += std::string(names[a]) + " ";
  auto run = [&](Faults& f, const fs::path& dir) {
    auto p = places<D>(layout); std::unique_ptr<Sys<D, V>> s; Logical<D, V> safe; bool hurt = false, dirty = false; U next = 0; std::set<U> grown;   // hurt: some operation has reported that it failed
    auto sound = [&](const Ind<D>& i) { return !hurt || safe.has(i); };
    auto attempt = [&](auto&& op, bool ends = false) {
      f.fired = false; bool threw = false; std::string why; try { op(); } catch(const mc::Violation&) { throw; } catch(const std::exception& e) { threw = true; why = e.what(); }
      if(ends && f.fired) hurt = true;       // the end of an array's life cannot be reported as an error
      c.check(!threw || f.fired || hurt, "an operation ends in an error (%s) although nothing has failed", why.c_str()); if(threw) hurt = true; return !threw;
    };
    Faults::On on(f); Silent q; attempt([&] { s = std::make_unique<Sys<D, V>>(c, dir, cache, ser_default<D>()); }); if(!s) return;
    for(int a : acts) {
      c.step(); Logical<D, V> before = s -> l; auto chunks = s -> chunks;
      if(a == 1 && next < p.size() && s -> can_register(p[next])) { U k = next++; attempt([&] { s -> reg(p[k], 0); }); }
      if(a == 2) { U k = s -> chunks.size() - 1; if(!s -> chunks.empty() && s -> template can_append<0>(k, 1)) { for(auto it = safe.m.begin(); it != safe.m.end(); ) { Ind<D> i = ind<D>(it -> first); bool in = true; for(U d = 0; d < D; d++) in &= i[d] >= s -> chunks[k].start[d] && i[d] < s -> chunks[k].start[d] + s -> chunks[k].shape[d]; it = in ? safe.m.erase(it) : std::next(it); } attempt([&] { s -> template append<0>(k, 1); }); } }
      if(a == 3) { if(attempt([&] { s -> d -> Flush(); }) && !hurt) safe = s -> l; }
      if(a == 4) for(auto& [k, v] : s -> l.m) { f.fired = false; Ind<D> i = ind<D>(k); bool good = element<D, V>(c, *s -> d, s -> l, i, false, "reading"); c.check(good || f.fired || !sound(i), "reading %s ends in an error although nothing has failed", str(i).c_str()); if(!good && f.fired) hurt = true; }
      if(a == 5) { attempt([&] { s -> close(); }, true); if(!hurt) safe = s -> l; attempt([&] { s -> open(cache); }); if(!s -> d) break; }
    }
    if(s -> d) { attempt([&] { s -> close(); }, true); if(!hurt) safe = s -> l; }
    f.over = true; const Logical<D, V>& l = s -> l; if(l.m.empty()) return;
    Dist<D, V> d(dir, 2, Ind<D>(U(1)), ser_default<D>()); elements<D, V>(c, d, l, sound, hurt ? "after a reported error" : "without any reported error"); if(!hurt) { shape<D, V>(c, d, l); extract<D, V>(c, d, l, true); }
  };
  Faults count(reads); run(count, c.scratch() / "a"); if(!count.n) return;
  Faults f(reads, c.choose((int)count.n), reads ? c.pick({Faults::once, Faults::from}) : c.pick({Faults::once, Faults::from, Faults::halves})); c.op("%s; cache depth %zu; %s operation %ld fails%s", text.c_str(), cache, reads ? "reading" : "writing", f.at, f.kind == Faults::from ? ", and all later ones" : f.kind == Faults::halves ? " half way" : "");
  run(f, c.scratch() / "b"); c.nontrivial();
}

// operations that produce something new: they report an error, or all of it is there
struct Product { const char* name; std::function<void(const fs::path&)> make; std::function<void(const fs::path&)> look; };
static void produce(Ctx& c, const Product& p, bool reads) {
  fs::path a = c.scratch() / "a", b = c.scratch() / "b"; fs::create_directory(a); fs::create_directory(b); Silent q; Faults count(reads); { Faults::On on(count); p.make(a); } p.look(a); if(!count.n) return;
  Faults f(reads, c.choose((int)count.n), reads ? c.pick({Faults::once, Faults::from}) : c.pick({Faults::once, Faults::from, Faults::halves})); c.op("%s; %s operation %ld fails%s", p.name, reads ? "reading" : "writing", f.at, f.kind == Faults::from ? ", and all later ones" : f.kind == Faults::halves ? " half way" : "");
  bool threw = false; try { Faults::On on(f); p.make(b); } catch(const mc::Violation&) { throw; } catch(const std::exception&) { threw = true; }
  c.check(!threw || f.fired, "an error is reported although nothing has failed"); c.observe(threw); c.nontrivial(); c.state(mc::mix(mc::mix(std::hash<std::string>()(p.name), f.at), threw));
  if(!threw) try { p.look(b); } catch(const mc::Violation&) { throw; } catch(const std::exception& e) { c.fail(std::string("no error was reported, but the result cannot be used: ") + e.what()); }
}
template <U D, U V> Product rebuild(Ctx& c) {
  auto st = std::make_shared<Stored<D, V>>(); fs::path src = c.scratch() / "src"; int layout = c.choose(2), n = c.range(1, 3); *st = build<D, V>(c, src, layout, n, 0); U size = c.range(1, 2), overlap = c.range(0, 1); c.op("chunks of %zu, overlap %zu", size, overlap);
  Product p{"rebuild the chunks", [=](const fs::path& dir) {
    Dist<D, V> d(src, 1, Ind<D>(U(1)), ser_default<D>()); Ind<D> lo, hi; st -> l.extent(lo, hi);
    auto ev = [](Dist<D, V>&, const Vector<int, D>&, auto view) { for(U k = 0; k < V; k++) view[k] = 0.0f; }; d.RebuildChunksPartial(lo, hi, Ind<D>(size), dir / "r", overlap, ev); },
    [=, &c](const fs::path& dir) { Dist<D, V> d(dir / "r", 1, Ind<D>(U(1)), ser_default<D>()); elements<D, V>(c, d, st -> l, [](const Ind<D>&) { return true; }, "rebuilt"); shape<D, V>(c, d, st -> l); }};
  return p;
}
static void look_gf(Ctx& c, const fs::path& dir, const Field& f, const Grid& g) {
  GF d(dir, 2); GF::chunk_t out(RZTVector<std::size_t>(U(1)));
  d.fill_array<Linear>({(float)g.start[0], (float)g.start[1], (float)g.start[2]}, {(float)(g.start[0] + g.step[0] * (f.n[0] - 1)), (float)(g.start[1] + g.step[1] * (f.n[1] - 1)), (float)(g.start[2] + g.step[2] * (f.n[2] - 1))}, {f.n[0], f.n[1], f.n[2]}, out);
  each<3>(I3(U(0)), f.n, [&](const I3& i) { for(U k = 0; k < 2; k++) { double want = f.get(i[0], i[1], i[2], k); c.check(std::fabs(out[i][k] - want) <= 1e-3 * (std::fabs(want) + 1), "sample %s is %g, expected %g", str(i).c_str(), (double)out[i][k], want); } });
}
// what users of Green's functions do: the right result, or an error
static void use_gf(Ctx& c, GF& d, const fs::path& dir, const Field& f, const Grid& g, int what, U cache, bool must) {
  try {
    if(what == 0) { Query q{1.25, 1.5, 0.5, 0.5, 5}; bool threw = false; std::vector<float> y = gf::inner<Keys>(c, d, g, q, 1.0, 2.0, 1.0, Green::OutOfBoundsBehavior::Ignore, std::vector<float>(9, 0.0f), &threw); if(threw) throw std::runtime_error("inner product");
      for(U k = 0; k < q.n; k++) { double sc = 0, want = interp<Keys>(f, 1.25, 1.5, 0.5 + 0.5 * k, 0, &sc) + 2 * interp<Keys>(f, 1.25, 1.5, 0.5 + 0.5 * k, 1, &sc); c.check(std::fabs(y[k + 2] - want) <= 1e-4 * (sc + 1), "sample %zu is %g, expected %g", k, (double)y[k + 2], want); } }
    if(what == 1) { Quiet q; GF::chunk_t out(RZTVector<std::size_t>(U(1))); d.fill_array<Linear>({(float)g.start[0], (float)g.start[1], (float)g.start[2]}, {(float)(g.start[0] + g.step[0] * (f.n[0] - 1)), (float)(g.start[1] + g.step[1] * (f.n[1] - 1)), (float)(g.start[2] + g.step[2] * (f.n[2] - 1))}, {f.n[0], f.n[1], f.n[2]}, out);
      each<3>(I3(U(0)), f.n, [&](const I3& i) { for(U k = 0; k < 2; k++) { double want = f.get(i[0], i[1], i[2], k); c.check(std::fabs(out[i][k] - want) <= 1e-3 * (std::fabs(want) + 1), "sample %s is %g, expected %g", str(i).c_str(), (double)out[i][k], want); } }); }
    if(what == 2) { SignalCalculator s(dir, cache); std::vector<float> y(6, 0.0f); Seg sg{{1, 0, 1}, {2, 0, 1.5}, 0, 2, 1.5}; s.AccumulateSignal(segment(sg), 0, 0.5, 6, y);
      std::vector<double> want(6, 0), sc(6, 0), slack(6, 0); convolve<Keys>(f, g, sg, {0, 0.5, 6}, 1, want, sc, nullptr, &slack); for(U k = 0; k < 6; k++) c.check(std::fabs(y[k] - want[k]) <= 2e-4 * (sc[k] + 1) + slack[k], "sample %zu of the signal is %g, expected %g", k, (double)y[k], want[k]); }
  } catch(const mc::Violation&) { throw; } catch(const std::exception& e) { c.check(!must, "an error is reported (%s) although nothing is wrong", e.what()); }
}
static const char* uses[] = {"inner product", "sample a region", "signal of a track"};

int main(int argc, char** argv) {
  mc::Harness h; h.property = "C29"; h.level = "model_checking";
  h.assumptions = {"a file that cannot be read in full is missing, ends early, or an operation on it returns an error; contents are never altered otherwise", "writing fails as the operating system reports it: an operation returns an error, possibly after half of the data was taken"};
  h.space("cut files", "every file of small arrays removed or cut at every byte, then read in several ways or imported", 4, [](Ctx& c) { if(c.lite) { c.flag(); return; } if(c.flag()) cut_files<3, 2>(c, !c.thorough); else cut_files<2, 1>(c, false); });
  h.space("read errors", "all sequences of reading operations, every reading file operation failing once or for a while", 4, [](Ctx& c) { if(c.lite) { c.flag(); return; } if(c.flag()) unreadable<3, 2>(c, c.thorough ? 3 : 1); else unreadable<2, 1>(c, c.thorough ? 4 : 2); });
  h.space("full disk", "all histories of changes, every writing file operation failing once, half way or for good", 4, [](Ctx& c) { if(c.lite) { c.flag(); return; } if(c.thorough && c.flag()) full<3, 2>(c, 4); else full<2, 1>(c, c.thorough ? 6 : 4); });
  h.space("unreadable disk", "all histories of changes, every reading file operation failing once or for good", 4, [](Ctx& c) { if(c.lite) { c.flag(); return; } if(c.thorough && c.flag()) full<3, 2>(c, 4, true); else full<2, 1>(c, c.thorough ? 5 : 4, true); });
  h.space("new results", "rebuilding, Green's functions, analytic Green's functions and exported signals, every file operation failing once, half way or for good", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    int k = c.choose(4); bool reads = k == 0 && c.flag();
    if(k == 0) produce(c, rebuild<2, 1>(c), reads);
    if(k == 1) { Grid g; auto f = std::make_shared<Field>(field(I3{(U)3, (U)2, (U)4}, c.choose(3))); I3 size = c.pick(std::vector<I3>{{(U)2, (U)2, (U)3}, {(U)3, (U)2, (U)4}}); bool opt = c.flag(); produce(c, {"make a Green's function", [=](const fs::path& d) { store(d / "g", *f, size, 1, g, opt); }, [=, &c](const fs::path& d) { look_gf(c, d / "g", *f, g); }}, false); }
    if(k == 2) { fs::path ref = c.scratch() / "ref"; fs::create_directory(ref); auto make = [](const fs::path& d) { fs::create_directories(d / "t"); GreensFunctionCalculator::Analytic::ElectricDipole(d / "g", d / "t", RZCoordVector{0.0f, -2.0f}, RZCoordVector{2.0f, 2.0f}, 6.0f, 1.5f, 2.0f, 3, 0.5f, 2.0f, 4); }; { Silent q; make(ref); }
      auto values = [](const fs::path& d) { std::vector<float> r; GF probe(d / "g", 2); Distributed_RZT_ErEz_Array a(d / "g", 9, RZTVector<std::size_t>(U(1)), RZTVector<std::size_t>(ser_default<3>())); auto n = a.GetShape(); for(U i = 0; i < n[0]; i++) for(U j = 0; j < n[1]; j++) for(U l = 0; l < n[2]; l++) { auto e = a[RZTVector<std::size_t>{i, j, l}]; r.push_back(e[0]); r.push_back(e[1]); } return r; };
      std::vector<float> want; { Silent q; want = values(ref); }
      produce(c, {"compute an analytic Green's function", make, [=, &c](const fs::path& d) { auto got = values(d); c.check(got.size() == want.size(), "the result has %zu values instead of %zu", got.size(), want.size()); for(U i = 0; i < got.size(); i++) c.check(same(got[i], want[i]) || (got[i] != got[i] && want[i] != want[i]), "value %zu is %g instead of %g", i, (double)got[i], (double)want[i]); }}, false); }
    if(k == 3) { int n = c.pick({0, 1, 3, 600}); std::vector<float> t, v; for(int i = 0; i < n; i++) { t.push_back(0.5f * i); v.push_back(0.25f * (i % 7) - 1); } std::string want; { Silent q; fs::path r = c.scratch() / "ref.csv"; ExportSignal(t, v, r.string()); std::ifstream f(r); std::stringstream s; s << f.rdbuf(); want = s.str(); }
      produce(c, {"export a signal", [=](const fs::path& d) { ExportSignal(t, v, (d / "s.csv").string()); }, [=, &c](const fs::path& d) { std::ifstream f(d / "s.csv"); c.check((bool)f, "there is no file"); std::stringstream s; s << f.rdbuf(); c.check(s.str() == want, "the file has %zu bytes that are not the %zu bytes of the signal", s.str().size(), want.size()); }}, false); }
  });
  h.space("field simulation", "calculations with one or two jobs, every file operation failing once, half way or for good", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    auto s = std::make_shared<Setup>(); s -> jobs = c.range(1, 2); s -> nz = 3; s -> nr = 2; s -> zs0 = c.thorough ? c.choose(2) : 1; s -> zs1 = 3; s -> rs1 = 2; s -> overlap = c.thorough ? c.range(0, 1) : 1; s -> chunk = c.pick({(U)2, (U)5}); s -> cache = c.pick({(U)0, (U)2}); s -> calc_t = c.pick({(U)2, (U)5}); s -> calc_lin = c.thorough ? c.pick({(U)1, (U)3}) : 3;
    s -> parts = {{0, 2, 0, 2, 0}, {2, 3, 0, 2, s -> jobs - 1}}; bool reads = c.flag(); c.op("%s", str(*s).c_str());
    produce(c, {"calculate", [=, &c](const fs::path& d) { fs::create_directory(d / "l"); fs::create_directory(d / "g"); run_jobs(c, *s, d / "o", d / "l", d / "g", full_field, 0, 0, false); }, [=, &c](const fs::path& d) { content_check(c, *s, d / "o", full_field); coords_check(c, *s, d / "o", full_field); }}, reads);
  });
  h.space("moved arrays", "importing and moving arrays, every file operation failing once, half way or for good", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    int layout = c.choose((int)layouts<2>().size()), n = c.range(1, 3), kind = c.choose(3), what = c.choose(3); U cache = c.pick({(U)0, (U)2}); bool reads = c.flag(); auto l = std::make_shared<Logical<2, 1>>(build<2, 1>(c, c.scratch() / "src", layout, n, kind).l); fs::path src = c.scratch() / "src"; auto always = [](const Ind<2>&) { return true; };
    auto look = [=, &c](const fs::path& d) { Dist<2, 1> a(d / "t", 2, Ind<2>(U(1)), ser_default<2>()); elements<2, 1>(c, a, *l, always, "the result"); shape<2, 1>(c, a, *l); };
    produce(c, {what == 0 ? "import a copy" : what == 1 ? "import" : "move", [=](const fs::path& d) {
      fsp::Off off; fs::copy(src, d / "s"); fsp::inside--; struct On { ~On() { fsp::inside++; } } on;
      if(what == 2) { Dist<2, 1> a(d / "s", cache, Ind<2>(U(1)), ser_default<2>()); a.Move(d / "t"); a.Flush(); } else { Dist<2, 1> a(d / "t", cache, Ind<2>(U(1)), ser_default<2>()); a.Import(d / "s", what == 1); a.Flush(); } }, look}, reads);
  });
  h.space("large files", "chunks and indices larger than the buffers of a stream, every file operation failing once, half way or for good", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    U n = c.thorough ? c.pick({(U)1500, (U)2100, (U)5000}) : c.pick({(U)2100, (U)5000}), many = c.pick({(U)0, (U)70}); bool reads = c.flag(), opt = c.thorough && c.flag(), slice = c.flag(); if(slice && (reads || many)) return; auto l = std::make_shared<Logical<1, 1>>(); const Ind<1> ser = opt ? ser_default<1>() : Ind<1>(U(2800)); c.op("a chunk of %zu elements and %zu small ones", n, many);
    auto add = [=](Dist<1, 1>& d, Logical<1, 1>& m) { int k = 0; Ind<1> p(U(0)), s(n); { Arr<1, 1> a(s); fresh<1, 1>(a, m, p, s, 0, k, 0); d.RegisterChunk(a, p); }
      if(slice) { d.Flush(); Ind<1> q(n), t(U(1400)); Arr<1, 1> b(t); fresh<1, 1>(b, m, q, t, 0, k, 0); if(opt) d.template AppendSlice<0>(q, b); else d.RegisterChunk(b, q); }
      for(U i = 0; i < many; i++) { Ind<1> q(n + 1400 + i), one(U(1)); Arr<1, 1> b(one); fresh<1, 1>(b, m, q, one, 0, k, 0); d.RegisterChunk(b, q); } d.Flush(); };
    auto all = [=, &c](const fs::path& at) { Dist<1, 1> d(at, 1, Ind<1>(U(1)), ser); Ind<1> lo(U(0)), hi(n); Arr<1, 1> a(hi); d.FillArray(a, lo, hi, Ind<1>(U(0))); for(auto& [k, v] : l -> m) { Ind<1> i = ind<1>(k); if(i[0] < n) check_value<1, 1>(c, v, a[i], i, "extracting"); else { auto e = d[i]; check_value<1, 1>(c, v, e, i, "reading"); } } shape<1, 1>(c, d, *l); };
    fs::path src = c.scratch() / "src"; { Silent q; Dist<1, 1> d(src, 1, Ind<1>(U(1)), ser); add(d, *l); }
    if(reads) produce(c, {"read", [=](const fs::path&) { all(src); }, [](const fs::path&) { }}, true);
    else produce(c, {"write", [=](const fs::path& d) { Logical<1, 1> m; Dist<1, 1> a(d / "a", 1, Ind<1>(U(1)), ser); add(a, m); }, [=](const fs::path& d) { all(d / "a"); }}, false);
  });
  h.space("cut Green's functions", "every file of stored Green's functions removed or cut, then used", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    fs::path dir = c.scratch() / "g"; Grid g; Field f = field(I3{(U)4, (U)3, (U)4}, c.choose(2)); store(dir, f, c.flag() ? I3{(U)2, (U)3, (U)4} : I3{(U)4, (U)3, (U)4}, 2, g, false);
    auto fl = files(dir); std::string n = fl[c.choose((int)fl.size())]; bool fine = c.thorough || fs::file_size(dir / n) < 200; std::string how = damage(c, dir / n, !fine); bool chunk = fs::path(n).stem().string().size() > 30; c.op("%s is %s", chunk ? "a chunk" : n.c_str(), how.c_str()); int what = c.choose(3); U cache = c.pick({(U)1, (U)4}); c.nontrivial(); Silent q; c.op("%s", uses[what]);
    for(int k = 0; k < 2; k++) { std::unique_ptr<GF> d; try { d = std::make_unique<GF>(dir, cache); } catch(const std::exception& e) { c.check(!chunk, "opening ends in an error (%s) although index and description are intact", e.what()); if(what != 2) continue; }
      if(d) c.check(chunk, "the %s is %s, but opening reports nothing", n.c_str(), how.c_str()); if(d) { use_gf(c, *d, dir, f, g, what, cache, false); use_gf(c, *d, dir, f, g, what, cache, false); } else { bool threw = false; try { SignalCalculator s(dir, cache); } catch(const std::exception&) { threw = true; } c.check(threw, "the signal calculator reports nothing"); } }
  });
  h.space("unreadable Green's functions", "using Green's functions while reading operations fail", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    fs::path dir = c.scratch() / "g"; Grid g; Field f = field(I3{(U)4, (U)3, (U)4}, c.choose(2)); store(dir, f, c.flag() ? I3{(U)2, (U)2, (U)3} : I3{(U)4, (U)3, (U)4}, 2, g, c.flag()); int what = c.choose(3); U cache = c.pick({(U)1, (U)4}); c.op("%s", uses[what]); Silent q;
    auto run = [&](Faults& x) { Faults::On on(x); std::unique_ptr<GF> d; try { d = std::make_unique<GF>(dir, cache); } catch(const std::exception& e) { c.check(x.fired, "opening ends in an error (%s)", e.what()); x.over = true; d = std::make_unique<GF>(dir, cache); } use_gf(c, *d, dir, f, g, what, cache, x.at < 0); x.over = true; use_gf(c, *d, dir, f, g, what, cache, true); };
    Faults count(true); run(count); Faults x(true, c.choose((int)std::max(1l, count.n)), c.pick({Faults::once, Faults::from})); c.op("reading operation %ld fails%s", x.at, x.kind == Faults::from ? " and all later ones" : ""); run(x); c.nontrivial();
  });
  return mc::run_main(h, argc, argv);
}
