// C25: reading never disturbs what is stored, neither for others that read at the same time nor when the reader is killed.
#include "gf.hh"
#include "jobs.hh"
#include "SignalCalculator.hh"
using namespace gf;
template <U D, U V> using Dist = DArr<D, V>;
using Bytes = std::map<std::string, std::string>;

// the stored bytes may not change at any point at which somebody else could get in between, or the process could end
struct Guard {
  Ctx& c; fs::path dir; Bytes before; std::string broken; U points = 0; std::function<void(const char*)> fn;
  Guard(Ctx& c, const fs::path& dir) : c(c), dir(dir), before(snapshot(dir)) {
    fn = [this](const char* what) { look(what); }; fsp::which = fsp::everything; fsp::watch = &fn;
  }
  void look(const char* what) {
    points++; if(!broken.empty()) return; Bytes now = snapshot(dir);
    for(auto& [n, b] : before) if(!now.count(n)) { broken = std::string(what) + ": a stored file is gone"; return; } else if(now[n] != b) { broken = std::string(what) + ": a stored file of " + std::to_string(b.size()) + " bytes is different (" + std::to_string(now[n].size()) + " bytes)"; return; }
  }
  void done() {
    fsp::watch = nullptr; look("at the end"); c.check(broken.empty(), "reading changes what is stored, %s", broken.c_str());
    c.check(snapshot(dir).size() == before.size(), "reading leaves additional files behind"); for(U k = 0; k < points; k++) c.step(); c.observe(points);
  }
  ~Guard() { fsp::watch = nullptr; fsp::which = fsp::changes; }
};

template <U D> std::vector<Slot<D>> places(int k) { auto l = layouts<D>(); return l[k % l.size()]; }
// what is stored: up to three chunks, possibly written in two sessions, with appended slices, with chunks that are all zero
template <U D, U V> Logical<D, V> build(Ctx& c, const fs::path& dir, int layout, int n, int kind) {
  Quiet q; Sys<D, V> s(c, dir, 1, ser_default<D>()); auto p = places<D>(layout);
  for(int k = 0; k < n; k++) s.reg(p[k], kind == 1 && k == 1 ? 1 : 0, kind == 1 ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
  if(kind == 2) { s.flush(); s.close(); s.open(2); if(s.template can_append<0>(n - 1, 1)) s.template append<0>(n - 1, 1); }
  s.close(); return s.l;
}
template <U D, U V> struct Reader {
  Ctx& c; fs::path dir; const Logical<D, V>& l; std::unique_ptr<Dist<D, V>> d; U cache;
  void open() { Quiet q; d = std::make_unique<Dist<D, V>>(dir, cache, Ind<D>(U(1)), ser_default<D>()); }
  void close() { d.reset(); }
  int kinds() const { return 7; }
  void act(int k, const fs::path& other) {
    Ind<D> lo, hi; if(!l.m.empty()) l.extent(lo, hi);
    switch(k) {
      case 0: if(!l.m.empty()) { c.op("read the first element"); read<D, V>(c, *d, l, ind<D>(l.m.begin() -> first)); } break;
      case 1: c.op("read everything"); verify<D, V>(c, *d, l, 1); break;
      case 2: if(!l.m.empty()) { c.op("extract everything"); fill<D, V>(c, *d, l, lo, hi, 1); } break;
      case 3: c.op("shape, iterate"); shape<D, V>(c, *d, l); if(!l.m.empty()) loop<D, V>(c, *d, l); break;
      case 4: c.op("flush"); d -> Flush(); break;
      case 5: c.op("close, open"); close(); open(); break;
      case 6: { c.op("import into another array"); Quiet q; Dist<D, V> o(other, cache, Ind<D>(U(1)), ser_default<D>()); o.Import(dir); verify<D, V>(c, o, l, 0); break; }
    }
  }
};
template <U D, U V> void reading(Ctx& c, int depth) {
  fs::path dir = c.scratch() / "a"; int layout = c.choose((int)layouts<D>().size()), n = c.choose(4), kind = c.choose(n > 1 ? 3 : 1);
  Logical<D, V> l = build<D, V>(c, dir, layout, n, kind); U cache = c.pick({(U)0, (U)1, (U)3}); c.op("open with cache depth %zu", cache);
  Guard g(c, dir);
  { Reader<D, V> r{c, dir, l, nullptr, cache}; r.open(); int imports = 0; for(int k = 0; k < depth; k++) { int a = c.choose(r.kinds() + 1); if(a == 0) break; r.act(a - 1, c.scratch() / ("other" + std::to_string(imports++))); } r.close(); }
  g.done(); if(!l.m.empty()) c.nontrivial();
  { Quiet q; Dist<D, V> d(dir, 2, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, d, l, 0); }
}

// several readers, interrupted at file operations
template <U D, U V> void together(Ctx& c, int readers, int preempt) {
  fs::path dir = c.scratch() / "a"; int kind = c.choose(3); Logical<D, V> l = build<D, V>(c, dir, 0, 2, kind);
  int acts[3]; for(int k = 0; k < readers; k++) acts[k] = c.pick({1, 2, 6}); fs::path other = c.scratch();
  Bytes before = snapshot(dir);
  Jobs jobs(readers, preempt, true); fsp::which = fsp::changes; Quiet q;
  jobs.run(c, -1, [&](int j) { Reader<D, V> r{c, dir, l, nullptr, (U)(j == 0)}; r.open(); r.act(acts[j], other / ("other" + std::to_string(j))); r.close(); });
  c.check(snapshot(dir) == before, "readers at the same time change what is stored"); c.nontrivial();
  Dist<D, V> d(dir, 2, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, d, l, 0);
}

// readers that are open while somebody adds to the array: they keep what they know, and never undo what is added
template <U D, U V> void growing(Ctx& c, int steps, int nread) {
  fs::path dir = c.scratch() / "a"; auto p = places<D>(c.choose((int)layouts<D>().size())); const int n0 = c.choose(2); Quiet q;
  Sys<D, V> w(c, dir, c.pick({(U)0, (U)2}), ser_default<D>()); for(int k = 0; k < n0; k++) w.reg(p[k]);
  w.close(); Logical<D, V> disk = w.l; bool open = false; int next = n0;
  struct R { std::unique_ptr<Dist<D, V>> d; Logical<D, V> seen; }; std::vector<R> rs(nread);
  for(int k = 0; k < steps; k++) {
    std::vector<std::function<void()>> ops;
    if(!open) ops.push_back([&] { c.op("writer opens"); w.open(1); open = true; });
    else { if(next < (int)p.size()) ops.push_back([&] { c.op("writer:"); w.reg(p[next++]); }); ops.push_back([&] { c.op("writer:"); w.flush(); disk = w.l; }); ops.push_back([&] { c.op("writer closes"); w.close(); disk = w.l; open = false; }); }
    for(int j = 0; j < nread; j++) {
      R& r = rs[j];
      if(!r.d) { ops.push_back([&, j] { c.op("reader %d opens", j); r.d = std::make_unique<Dist<D, V>>(dir, j, Ind<D>(U(1)), ser_default<D>()); r.seen = disk; }); if(j == 0) continue; break; }
      ops.push_back([&, j] { c.op("reader %d reads everything", j); verify<D, V>(c, *r.d, r.seen, 2); });
      ops.push_back([&, j] { c.op("reader %d closes", j); r.d.reset(); });
    }
    int a = c.choose((int)ops.size() + 1); if(a == 0) break; ops[a - 1](); if(open && next > n0) c.nontrivial();
  }
  c.op("everybody closes"); bool first = c.flag(); if(first) { if(open) { w.close(); disk = w.l; } for(auto& r : rs) r.d.reset(); } else { for(auto& r : rs) r.d.reset(); if(open) { w.close(); disk = w.l; } }
  Dist<D, V> d(dir, 2, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, d, disk, 0);
}

// several processes that write in turns and stay open in between: who has flushed and only reads from then on destroys nothing
template <U D, U V> void turns(Ctx& c, int steps, int who) {
  fs::path dir = c.scratch() / "a"; auto p = places<D>(c.choose((int)layouts<D>().size())); Quiet q; int counter = 0;
  struct P { std::unique_ptr<Sys<D, V>> s; bool latest = false, dirty = false; }; std::vector<P> ps(who); Logical<D, V> disk; U next = 0;
  auto written = [&](int j) { disk = ps[j].s -> l; ps[j].dirty = false; for(int k = 0; k < who; k++) ps[k].latest = k == j; };
  { Sys<D, V> w(c, dir, 1, ser_default<D>()); int n = c.choose(2); for(int k = 0; k < n; k++) w.reg(p[next++]); counter = w.counter; w.close(); disk = w.l; }
  for(int n = 0; n < steps; n++) {
    std::vector<std::function<void()>> ops; bool dirty = false; for(auto& x : ps) dirty |= x.dirty;
    for(int j = 0; j < who; j++) {
      P& x = ps[j];
      if(!x.s) { ops.push_back([&, j] { P& x = ps[j]; c.op("%d opens", j); x.s = std::make_unique<Sys<D, V>>(c, dir, j == 0 ? 2 : 0, ser_default<D>()); x.s -> l = disk; x.latest = true; }); if(!ps[0].s) break; continue; }
      if(x.latest && (x.dirty || !dirty) && next < p.size()) ops.push_back([&, j] { c.op("%d:", j); ps[j].s -> counter = counter; ps[j].s -> reg(p[next++]); counter = ps[j].s -> counter; ps[j].dirty = true; });
      ops.push_back([&, j] { c.op("%d:", j); bool w = ps[j].dirty; ps[j].s -> flush(); if(w) written(j); });
      ops.push_back([&, j] { c.op("%d closes", j); bool w = ps[j].dirty; ps[j].s -> close(); if(w) written(j); ps[j] = P{}; });
      ops.push_back([&, j] { c.op("%d reads everything", j); verify<D, V>(c, *ps[j].s -> d, ps[j].s -> l, 2); });
    }
    int a = c.choose((int)ops.size() + 1); if(a == 0) break;
    std::map<std::string, std::string> before; bool clean = !dirty; if(clean) before = fs::exists(dir) ? snapshot(dir) : before;
    U regs = next; ops[a - 1]();
    dirty = false; for(auto& x : ps) dirty |= x.dirty;
    if(clean && !dirty && regs == next && !before.empty()) c.check(snapshot(dir) == before, "something that is not a change alters what is stored");
    if(next > 1) c.nontrivial();
  }
  bool dirty = false; for(auto& x : ps) dirty |= x.dirty;
  bool late = dirty && c.flag(); c.op("everybody closes%s", late ? ", those with changes first" : "");
  for(int k = 0; k < 2; k++) for(int j = 0; j < who; j++) if(ps[j].s && ps[j].dirty == ((k == 0) == late)) { bool w = ps[j].dirty; ps[j].s -> close(); if(w) written(j); ps[j] = P{}; }
  Dist<D, V> d(dir, 2, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, d, disk, 0);
}

// Green's functions
struct GReader {
  Ctx& c; fs::path dir; const Field& f; const Grid& g; std::unique_ptr<GF> d; U cache;
  void open() { Quiet q; d = std::make_unique<GF>(dir, cache); }
  template <class K> void product(double r, double z, double t) {
    Query q{r, z, t, 0.5, 5}; std::vector<float> y = inner(c, q);
    for(U k = 0; k < q.n; k++) { double sc = 0, want = interp<K>(f, r, z, t + 0.5 * k, 0, &sc) + 2 * interp<K>(f, r, z, t + 0.5 * k, 1, &sc); c.check(std::fabs(y[k + 2] - want) <= 1e-4 * (sc + 1), "sample %zu is %g, expected %g", k, (double)y[k + 2], want); c.observe_f(y[k + 2]); }
  }
  std::vector<float> inner(Ctx& c, const Query& q) { return gf::inner<Keys>(c, *d, g, q, 1.0, 2.0, 1.0, Green::OutOfBoundsBehavior::Ignore, std::vector<float>(9, 0.0f)); }
  void act(int k) {
    switch(k) {
      case 0: c.op("inner product inside"); product<Keys>(1.25, 1.5, 0.5); break;
      case 1: c.op("inner product at the edge"); product<Keys>(0.0, 0.5, -1.0); break;
      case 2: { c.op("sample a region"); Quiet q; GF::chunk_t out(RZTVector<std::size_t>(U(1))); d -> fill_array<Linear>({(float)g.start[0], (float)g.start[1], (float)g.start[2]}, {(float)(g.start[0] + g.step[0] * (f.n[0] - 1)), (float)(g.start[1] + g.step[1] * (f.n[1] - 1)), (float)(g.start[2] + g.step[2] * (f.n[2] - 1))}, {f.n[0], f.n[1], f.n[2]}, out);
        each<3>(I3(U(0)), f.n, [&](const I3& i) { for(U k = 0; k < 2; k++) { double want = f.get(i[0], i[1], i[2], k); c.check(std::fabs(out[i][k] - want) <= 1e-3 * (std::fabs(want) + 1), "sample %s is %g, expected %g", str(i).c_str(), (double)out[i][k], want); } }); break; }
      case 3: { c.op("signal of a track"); Quiet q; SignalCalculator s(dir, cache ? cache : 1); std::vector<float> y(6, 0.0f); Seg sg{{1, 0, 1}, {2, 0, 1.5}, 0, 2, 1.5}; s.AccumulateSignal(segment(sg), 0, 0.5, 6, y);
        std::vector<double> want(6, 0), sc(6, 0), slack(6, 0); convolve<Keys>(f, g, sg, {0, 0.5, 6}, 1, want, sc, nullptr, &slack); for(U k = 0; k < 6; k++) c.check(std::fabs(y[k] - want[k]) <= 2e-4 * (sc[k] + 1) + slack[k], "sample %zu of the signal is %g, expected %g", k, (double)y[k], want[k]); break; }
      case 4: c.op("close, open"); d.reset(); open(); break;
    }
  }
};
static Field stored_field(Ctx& c, const fs::path& dir, const Grid& g) {
  Field f = field(I3{(U)4, (U)3, (U)4}, c.choose(3)); store(dir, f, c.flag() ? I3{(U)2, (U)2, (U)3} : I3{(U)4, (U)3, (U)4}, 2, g, c.flag()); return f;
}

int main(int argc, char** argv) {
  mc::Harness h; h.property = "C25"; h.level = "model_checking";
  h.assumptions = {"a process that ends leaves behind what it had handed to the operating system; the moments before and after every file operation of the reader are the places where others get in between", "array readers do not run while a writer is in the middle of a flush"};
  h.space("reading", "all sequences of reading operations; what is stored is compared at every file operation", 4, [](Ctx& c) { if(c.flag()) reading<3, 2>(c, c.thorough ? 3 : c.lite ? 1 : 2); else reading<2, 1>(c, c.thorough ? 4 : c.lite ? 2 : 3); });
  h.space("several readers", "all schedules of two readers (thorough: three) with a bounded number of interruptions at file operations", 4, [](Ctx& c) { if(c.lite) { c.flag(); return; } together<2, 1>(c, c.thorough ? c.range(2, 3) : 2, c.thorough ? 2 : 1); }, 3);
  h.space("growing arrays", "all sequences of steps of a writer and of readers", 4, [](Ctx& c) { growing<2, 1>(c, c.thorough ? 7 : c.lite ? 4 : 6, 2); });
  h.space("taking turns", "all sequences of steps of two (thorough: three) processes that add chunks in turns, flush and stay open", 4, [](Ctx& c) { turns<2, 1>(c, c.thorough ? 7 : c.lite ? 3 : 5, c.thorough ? 3 : 2); });
  h.space("Green's functions", "sequences of reading operations on stored Green's functions; what is stored is compared at every file operation", 3, [](Ctx& c) {
    fs::path dir = c.scratch() / "g"; Grid g; Field f = stored_field(c, dir, g); U cache = c.pick({(U)1, (U)4}); Guard w(c, dir);
    { GReader r{c, dir, f, g, nullptr, cache}; r.open(); for(int k = 0; k < (c.thorough ? 3 : c.lite ? 1 : 2); k++) { int a = c.choose(6); if(a == 0) break; r.act(a - 1); } r.d.reset(); }
    w.done(); c.nontrivial(); { GReader r{c, dir, f, g, nullptr, 3}; r.open(); r.act(2); }
  });
  h.space("several signals", "all schedules of two calculations that share a Green's function", 3, [](Ctx& c) {
    if(c.lite) { c.flag(); return; }
    fs::path dir = c.scratch() / "g"; Grid g; Field f = stored_field(c, dir, g); Bytes before = snapshot(dir); int acts[2] = {c.pick({0, 2, 3}), c.pick({1, 3})};
    { Jobs jobs(2, c.thorough ? 2 : 1, true); fsp::which = fsp::changes; Quiet q; jobs.run(c, -1, [&](int j) { GReader r{c, dir, f, g, nullptr, (U)1}; r.open(); r.act(acts[j]); r.d.reset(); }); }
    c.check(snapshot(dir) == before, "calculations at the same time change what is stored"); c.nontrivial();
  });
  return mc::run_main(h, argc, argv);
}
