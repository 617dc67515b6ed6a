// C10: the all-zero optimization.
#include "gf.hh"
using namespace gf;

template <U D, U V> struct Opt {
  Ctx& c; Sys<D, V>& s; std::vector<bool> null;      // chunks held as all-zero
  // kind: 0 values, 1 zeros with optimization, 2 zeros without, 3 values with optimization, 4 some zeros with optimization
  void reg(const Slot<D>& sl, int kind) {
    bool zero = kind == 1 || kind == 2, hint = kind == 1 || kind >= 3;
    s.reg(sl, zero ? 1 : kind == 4 ? 2 : 0, hint ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    null.push_back(kind == 1);
  }
  template <U axis> void append(U k, bool zero, bool hint) {
    if(!null[k] && !hint) { s.template append<axis>(k, 1, zero); return; }
    auto& ch = s.chunks[k]; Ind<D> lo = ch.start, sh = ch.shape; lo[axis] += sh[axis]; sh[axis] = 1;
    Arr<D, V> a(sh); Logical<D, V> dummy; int cnt = 900; fresh<D, V>(a, dummy, lo, sh, 0, cnt, zero);
    c.op("append %s along axis %zu at %s%s%s", str(sh).c_str(), axis, str(lo).c_str(), zero ? " all zero" : "", hint ? " with optimization" : "");
    bool threw = false;
    try { s.d -> template AppendSlice<axis>(lo, a, hint ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); } catch(const std::exception&) { threw = true; }
    if(threw) return;       // refused, nothing may have changed
    for(auto& [key, v] : dummy.m) s.l.m[key] = v;
    ch.shape[axis] += 1;
  }
  void rebuild(const Ind<D>& size, U overlap, bool hint, fs::path tmp) {
    c.op("rebuild as chunks of %s with overlap %zu%s", str(size).c_str(), overlap, hint ? " with optimization" : "");
    Eval<D, V> ev{c, s.l};
    auto by_array = [&](DArr<D, V>&, const SInd<D>& i, typename DArr<D, V>::view_t e) { ev.fill(i, e); };
    s.d -> RebuildChunks(size, tmp, overlap, by_array, hint ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    s.chunks.clear(); null.clear();
  }
};

// every pattern of zero and nonzero chunks
template <U D, U V> void patterns(Ctx& c, Ind<D> shape, Ind<D> origin, Ind<D> src, int kinds, std::vector<U> sizes, U maxoverlap, std::vector<U> caches) {
  outside_is_zero = c.choose(2);
  U ov = c.range(0, 1), cache = c.pick(caches);
  auto dir = c.scratch();
  Sys<D, V> s(c, dir / "a", cache, ser_default<D>()); Opt<D, V> o{c, s};
  Ind<D> lo = origin, hi = origin + shape;
  for(auto& [a, b] : tiling<D>(lo, hi, src)) o.reg({ind<D>(a), Ind<D>(ind<D>(b) - ind<D>(a)), ov}, c.choose(kinds));
  verify<D, V>(c, *s.d, s.l, 3); verify<D, V>(c, *s.d, s.l, 4); verify<D, V>(c, *s.d, s.l, 2);
  if(c.choose(2)) { s.close(); s.open(cache); verify<D, V>(c, *s.d, s.l, 2); verify<D, V>(c, *s.d, s.l, 4); }
  Ind<D> size(c.pick(sizes)); U overlap = c.range(0, maxoverlap);
  if constexpr(D > 1) if(overlap == 1) { size[D - 1] = 1; }
  bool hint = c.choose(2);
  o.rebuild(size, overlap, hint, dir / "tmp");
  verify<D, V>(c, *s.d, s.l, 3); verify<D, V>(c, *s.d, s.l, 1);
  s.close();
  check_chunks<D, V>(c, s.dir, s.l, tiling<D>(lo, hi, size), overlap, SInd<D>(0), 1);
  s.open(cache); verify<D, V>(c, *s.d, s.l, 4); verify<D, V>(c, *s.d, s.l, 0);
  outside_is_zero = false;
}

// one chunk with the given values (including overlap), stored with and without the optimization
template <U D, U V> void store_values(Ctx& c, const Ind<D>& shape, U overlap, const std::vector<float>& v) {
  bool any = false; for(float x : v) any |= x != 0.0f; if(any) c.nontrivial();
  Ind<D> full = shape + 2 * overlap, start; for(U d = 0; d < D; d++) start[d] = d; Arr<D, V> a(full); U q = 0;
  each<D>(Ind<D>(U(0)), full, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) { a[i][k] = v[q]; c.op("%g", (double)v[q]); q++; } });
  c.check(a.IsAllNull() == !any, "an array is said to be %s", any ? "empty, but holds values" : "not empty, but is");
  auto dir = c.scratch(); { DArr<D, V> d(dir / "a", 1, Ind<D>(U(1)), ser_default<D>()); d.RegisterChunk(a, start, Ind<D>(start + shape), overlap, ChunkHints::ENABLE_OPT); }
  auto cmp = [&](const auto& e, const Ind<D>& f, const char* how) { U at = 0; for(U d = 0; d < D; d++) at = at * full[d] + f[d]; for(U k = 0; k < V; k++) { float x = e[k]; c.check(x == v[at * V + k], "%s gives %g instead of %g", how, (double)x, (double)v[at * V + k]); c.observe_f(x); } };
  DArr<D, V> d(dir / "a", 1, Ind<D>(U(1)), ser_default<D>());
  Arr<D, V> out(shape, -5.0f); d.FillArray(out, start, Ind<D>(start + shape), Ind<D>(U(0)));
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) { cmp(d[Ind<D>(start + i)], Ind<D>(i + overlap), "reading"); cmp(out[i], Ind<D>(i + overlap), "extracting"); });
  Peek<D, V> p(dir / "a", 1); U n = 0;
  p.chunks([&](const ChunkMetadata<D>& m, const Arr<D, V>& ch) { n++; c.check(ch.GetShape() == full, "the shape changes"); each<D>(Ind<D>(U(0)), full, [&](const Ind<D>& i) { cmp(ch[i], i, "the chunk"); }); });
  c.check(n == 1, "there are %zu chunks", n);
}
template <U D, U V> void values(Ctx& c, std::vector<Ind<D>> shapes, std::vector<float> alphabet) {
  Ind<D> shape = c.pick(shapes); std::vector<float> v(count<D>(shape) * V); for(float& x : v) x = c.pick(alphabet);
  store_values<D, V>(c, shape, 0, v);
}
// one or two nonzero components anywhere
template <U D, U V> void sparse(Ctx& c, std::vector<Ind<D>> shapes, U overlap) {
  Ind<D> shape = c.pick(shapes); std::vector<float> v(count<D>(Ind<D>(shape + 2 * overlap)) * V, 0.0f);
  v[c.choose((int)v.size())] = 5.0f; int k = c.choose((int)v.size() + 1); if(k) v[k - 1] += -5.0f;
  store_values<D, V>(c, shape, overlap, v);
}

template <U D, U V> void history(Ctx& c, U lay, int depth, std::vector<U> caches) {
  outside_is_zero = true;
  auto slots = layouts<D>()[lay]; U cache = c.pick(caches);
  auto dir = c.scratch();
  Sys<D, V> s(c, dir / "a", cache, ser_default<D>()); Opt<D, V> o{c, s};
  bool imported = false;
  for(int n = 0; n < depth; n++) {
    std::vector<std::function<void()>> ops;
    for(U k = 0; k < slots.size(); k++) if(s.can_register(slots[k])) { for(int kind : {1, 0, 2, 3}) ops.push_back([&, k, kind] { o.reg(slots[k], kind); }); if(n < 2) break; }
    for(U k = 0; k < s.chunks.size(); k++) {
      if(s.template can_append<0>(k, 1)) { ops.push_back([&, k] { o.template append<0>(k, false, false); }); ops.push_back([&, k] { o.template append<0>(k, true, false); }); if(k == 0) { ops.push_back([&, k] { o.template append<0>(k, true, true); }); ops.push_back([&, k] { o.template append<0>(k, false, true); }); } }
    }
    if(!s.chunks.empty()) {
      ops.push_back([&] { Ind<D> lo, hi; s.l.extent(lo, hi); c.op("extract everything"); fill<D, V>(c, *s.d, s.l, lo, hi, 1); });
      ops.push_back([&] { s.touch(s.chunks.size() - 1); });
      ops.push_back([&] { c.op("close and open"); s.close(); s.open(cache); });
      ops.push_back([&] { s.flush(); });
      if constexpr(D == 2) ops.push_back([&] { s.template swap<0, 1>(); });
      if(s.l.contiguous()) { ops.push_back([&] { Ind<D> size(U(2)); size[D - 1] = 1; o.rebuild(size, 1, true, dir / "tmp"); }); ops.push_back([&] { Ind<D> size(U(3)); o.rebuild(size, 0, true, dir / "tmp"); }); }
      if(!imported) ops.push_back([&] {
        // import a library with a zero chunk and another one
        imported = true; Ind<D> at(U(20)), sh(U(1)); Ind<D> at2 = at; at2[0]++;
        Sys<D, V> t(c, dir / "b", 1, ser_default<D>()); Opt<D, V> p{c, t}; c.op("in another library:");
        t.counter = 500; p.reg({at, sh, 1}, 1); p.reg({at2, sh, 0}, 0); t.close();
        c.op("import it"); s.d -> Import(dir / "b", true);
        for(auto& [k, v] : t.l.m) s.l.m[k] = v;
      });
    }
    ops[c.choose((int)ops.size())]();
  }
  if(s.l.m.empty()) c.prune();
  verify<D, V>(c, *s.d, s.l, 2); verify<D, V>(c, *s.d, s.l, 4); verify<D, V>(c, *s.d, s.l, 3);
  s.close(); s.open(1); verify<D, V>(c, *s.d, s.l, 3); verify<D, V>(c, *s.d, s.l, 0); verify<D, V>(c, *s.d, s.l, 4);
  outside_is_zero = false;
}

// Green's functions stored with and without the optimization give the same results
template <class K> void green(Ctx& c, I3 n, std::vector<I3> sizes, std::vector<int> kinds, std::vector<U> caches, bool fine) {
  I3 size = c.pick(sizes); int kind = c.pick(kinds); U cache = c.pick(caches), overlap = K::support + (U)c.choose(2); bool rebuilt = c.choose(2);
  c.op("field %s kind %d in chunks of %s, overlap %zu, cache depth %zu%s", ::str(n).c_str(), kind, ::str(size).c_str(), overlap, cache, rebuilt ? ", rebuilt" : "");
  auto dir = c.scratch(); Field f = field(n, kind); Grid gr; std::unique_ptr<GF> g[2];
  for(int opt = 0; opt < 2; opt++) {
    fs::path p = dir / (opt ? "with" : "without");
    if(!rebuilt) store(p, f, size, overlap, gr, opt);
    else {
      Quiet q; Distributed_RZT_ErEz_Array d(p, 1, RZTVector<std::size_t>(U(1)), RZTVector<std::size_t>(ser_default<3>()));
      for(auto& [a, b] : tiling<3>(I3(U(0)), n, {(U)2, (U)1, (U)2})) { I3 lo = ind<3>(a), hi = ind<3>(b); Arr<3, 2> x(I3(hi - lo)); each<3>(I3(U(0)), I3(hi - lo), [&](const I3& i) { for(U k = 0; k < 2; k++) x[i][k] = f.at(I3(i + lo), k); }); d.RegisterChunk(x, lo, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
      d.RebuildChunks(size, dir / "tmp", overlap, SpatialSymmetry::Cylindrical<float>::boundary_evaluator, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      RZTCoordVector s{0, 0, 0}, iv{1, 1, 1}, e{(float)n[0] - 1, (float)n[1] - 1, (float)n[2] - 1}; GF make(s, e, iv, std::move(d));
    }
    g[opt] = open(p, cache);
  }
  c.state(mc::mix(f.hash(), hash_ind<3>(size))); U nq = 0;
  auto differ = [&](const std::vector<float>& a, const std::vector<float>& b, const std::string& what) { for(U k = 0; k < a.size(); k++) c.check(same(a[k], b[k]) || std::fabs(a[k] - b[k]) <= 1e-6 * (1 + std::fabs(a[k])), "%s: value %zu is %.7g without and %.7g with the optimization", what.c_str(), k, a[k], b[k]); };
  for(double r = 0; r < n[0]; r += 0.5) for(double z = 0; z < n[1]; z += 0.5) for(double t = 0; t <= n[2] - 1; t += fine ? 0.25 : 0.5) for(double dt : {0.5, 1.25, 3.0}) {
    Query q{r, z, t, dt, (U)((n[2] - 1 - t) / dt) + 1}; std::vector<float> before(q.n + 4, 0.25f); nq++; c.step();
    differ(inner<K>(c, *g[0], gr, q, 1, nq % 2, 1, Green::RaiseError, before), inner<K>(c, *g[1], gr, q, 1, nq % 2, 1, Green::RaiseError, before), str(q));
  }
  for(double a : {0.0, 0.5}) for(double b : {0.75, 1.0}) for(double dur : {0.5, 2.5}) {
    Seg s{{a, 0, b}, {b * (n[0] - 1), 0.25, a * (n[1] - 1)}, 0.5, 0.5 + dur, 1}; std::vector<float> x[2]; c.step();
    for(int o = 0; o < 2; o++) { x[o].assign(12, 1.0f); g[o] -> apply_accumulate<K>(segment(s), -1.0f, 0.75f, std::min<U>(12, (U)((n[2] + 0.5) / 0.75)), x[o], Green::Ignore); }
    differ(x[0], x[1], str(s));
    std::vector<float> y[2]; for(int o = 0; o < 2; o++) { GF::chunk_t out(RZTVector<std::size_t>(U(1))); g[o] -> fill_array<K>({(float)a, (float)a, 0.0f}, {(float)(n[0] - 1), (float)b * (n[1] - 1), (float)(n[2] - 1)}, {(U)3, (U)2, (U)(5 + 2 * dur)}, out); y[o].assign(&out[I3(U(0))][0], &out[I3(U(0))][0] + out.GetNumberElements() * 2); }
    differ(y[0], y[1], "sampling onto a grid");
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C10"; h.level = "model_checking";
  h.assumptions = {"values do not include denormal numbers, which compare equal to zero in this build (-ffast-math)", "rebuilt arrays cover a box without gaps"};
  using I1 = Ind<1>; using I2 = Ind<2>; using I3 = Ind<3>;
  h.space("patterns-1d", "three chunks, every pattern of 5 kinds of chunks", 4, [](Ctx& c) { patterns<1, 2>(c, I1{(U)5}, I1{(U)(c.choose(2) * 3)}, I1{(U)2}, 5, {1, 2, 3, 7}, 2, c.thorough ? std::vector<U>{0, 1, 3} : std::vector<U>{(U)(c.lite ? 1 : 0)}); });
  h.space("patterns-2d", "2x2 chunks, every pattern", 4, [](Ctx& c) { if(c.thorough) patterns<2, 2>(c, I2{(U)3, (U)4}, I2{(U)0, (U)1}, I2{(U)2, (U)2}, 5, {1, 2, 3, 4}, 2, {0, 1, 3}); else patterns<2, 2>(c, I2{(U)3, (U)2}, I2{(U)0, (U)1}, I2{(U)2, (U)1}, c.lite ? 2 : 3, {1, 2}, 1, c.lite ? std::vector<U>{0} : std::vector<U>{0, 2}); });
  h.space("patterns-3d", "2x1x2 chunks", 4, [](Ctx& c) { patterns<3, 2>(c, I3{(U)2, (U)2, (U)2}, I3{(U)0, (U)0, (U)0}, I3{(U)1, (U)2, (U)1}, c.thorough ? 4 : 2, {1, 2}, 1, c.thorough ? std::vector<U>{0, 1} : std::vector<U>{1}); }, 1);
  h.space("history-2d", "all histories of 4 (5) operations, with refused ones", 4, [](Ctx& c) { U l = c.choose(c.lite ? 1 : 2); history<2, 2>(c, l, c.thorough ? 5 : c.lite ? 3 : 4, c.lite ? std::vector<U>{1} : std::vector<U>{0, 2}); });
  h.space("history-1d", "one dimension", 4, [](Ctx& c) { history<1, 2>(c, 0, c.thorough ? 6 : 4, {1}); }, 1);
  h.space("green", "inner products, signals and grids of 6 kinds of fields stored with and without the optimization", 4, [](Ctx& c) { std::vector<I3> few{{(U)1, (U)2, (U)2}, {(U)2, (U)1, (U)3}}, all; for(U r : {1, 2}) for(U z : {1, 2}) for(U t : {1, 2, 3, 4}) all.push_back({r, z, t}); std::vector<U> cs = c.thorough ? std::vector<U>{0, 1, 4} : std::vector<U>{1}; if(c.choose(2)) green<Keys>(c, {(U)2, (U)2, (U)8}, c.thorough ? all : few, {0, 1, 2, 3, 4, 5}, cs, c.thorough); else green<Linear>(c, {(U)2, (U)2, (U)8}, c.thorough ? all : few, {0, 1, 2, 3, 4, 5}, cs, c.thorough); }, 1);
  h.space("values", "one chunk, every assignment of values that are zero, opposite, very small or very large", 3, [](Ctx& c) {
    const std::vector<float> al{0.0f, 1.0f, -1.0f, 2e-38f, 3e38f, -3e38f}, few{0.0f, 1.0f, -1.0f};
    switch(c.choose(4)) {
      case 0: values<1, 2>(c, {I1{(U)1}, I1{(U)2}}, al); break;
      case 1: values<2, 1>(c, {I2{(U)2, (U)2}, I2{(U)1, (U)3}}, c.thorough ? al : few); break;
      case 2: values<3, 2>(c, {I3{(U)1, (U)1, (U)2}, I3{(U)1, (U)2, (U)1}, I3{(U)2, (U)1, (U)1}}, c.thorough ? al : few); break;
      case 3: values<3, 1>(c, {I3{(U)2, (U)2, (U)1}, I3{(U)1, (U)2, (U)2}}, few); break;
    }
  });
  h.space("few values", "one chunk with overlap in which one or two components anywhere are not zero", 3, [](Ctx& c) {
    switch(c.choose(3)) {
      case 0: sparse<1, 2>(c, {I1{(U)1}, I1{(U)4}}, c.range(0, 2)); break;
      case 1: sparse<2, 2>(c, {I2{(U)1, (U)2}, I2{(U)2, (U)1}, I2{(U)3, (U)3}}, c.range(0, c.thorough ? 2 : 1)); break;
      case 2: sparse<3, 2>(c, {I3{(U)1, (U)1, (U)1}, I3{(U)2, (U)1, (U)2}}, c.thorough ? c.range(0, 1) : 0); break;
    }
  });
  return mc::run_main(h, argc, argv);
}
