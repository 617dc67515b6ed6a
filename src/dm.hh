// A distributed array next to its logical content (an index -> value map).
#pragma once
#include "vf.hh"
#include <memory>
#include "NDVecArray.hh"
#include "DistributedNDVecArray.hh"

namespace dm {
  namespace fs = std::filesystem;
  template <U D, U V> using Arr = NDVecArray<float, D, V>;
  template <U D, U V> using DArr = DistributedNDVecArray<NDVecArray, float, D, V>;
  template <U D> using Key = std::array<U, D>;
  template <U D> Key<D> key(const Ind<D>& i) { Key<D> k; for(U d = 0; d < D; d++) k[d] = i[d]; return k; }
  template <U D> Ind<D> ind(const Key<D>& k) { Ind<D> i; for(U d = 0; d < D; d++) i[d] = k[d]; return i; }
  inline U INF() { return stor::INFTY; }
  template <U D> Ind<D> ser_default() { Ind<D> s(INF()); s[0] = 1; return s; }

  template <U D, U V> struct Logical {
    std::map<Key<D>, std::array<float, V>> m;
    bool has(const Ind<D>& i) const { return m.count(key<D>(i)) > 0; }
    bool free(const Ind<D>& lo, const Ind<D>& hi) const { bool f = true; each<D>(lo, hi, [&](const Ind<D>& i) { f &= !has(i); }); return f; }
    void extent(Ind<D>& lo, Ind<D>& hi) const {
      lo = Ind<D>(U(0)); hi = Ind<D>(U(0)); bool first = true;
      for(auto& [k, v] : m) { for(U d = 0; d < D; d++) { if(first || k[d] < lo[d]) lo[d] = k[d]; if(first || k[d] + 1 > hi[d]) hi[d] = k[d] + 1; } first = false; }
    }
    bool contiguous() const { Ind<D> lo, hi; extent(lo, hi); return !m.empty() && count<D>(Ind<D>(hi - lo)) == m.size(); }
    Ind<D> shape() const { Ind<D> lo, hi; extent(lo, hi); Ind<D> s(U(0)); if(contiguous()) s = hi - lo; return s; }
    template <U A, U B> void swap() { std::map<Key<D>, std::array<float, V>> n; for(auto& e : m) { Key<D> k = e.first; std::swap(k[A], k[B]); n[k] = e.second; } m = n; }
    std::uint64_t hash() const { std::uint64_t h = 7; for(auto& [k, v] : m) { for(U d = 0; d < D; d++) h = mc::mix(h, k[d]); for(float f : v) { std::uint32_t u; std::memcpy(&u, &f, 4); h = mc::mix(h, u); } } return h; }
  };

  inline bool same(float a, float b) { std::uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y || ((x << 1) == 0 && (y << 1) == 0); }

  // fill `arr` and the logical array with fresh values; null: 0 none, 1 all, 2 mixed
  template <U D, U V> void fresh(Arr<D, V>& a, Logical<D, V>& l, const Ind<D>& start, const Ind<D>& shape, U overlap, int& counter, int null) {
    a = 777.0f;
    U q = 0;
    each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) {
      std::array<float, V> v; counter++;
      bool z = null == 1 || (null == 2 && q % 2 == 0);
      for(U k = 0; k < V; k++) { v[k] = z ? 0.0f : (float)counter + 0.25f * (k + 1); a[Ind<D>(i + overlap)][k] = v[k]; }
      l.m[key<D>(Ind<D>(start + i))] = v; q++;
    });
    if(null == 1 && overlap) a = 0.0f;
  }

  template <U D, U V> void check_value(Ctx& c, const std::array<float, V>& want, const auto& e, const Ind<D>& i, const char* how) {
    for(U k = 0; k < V; k++) { float x = e[k]; c.check(same(x, want[k]), "%s element %s component %zu gives %g, expected %g", how, str(i).c_str(), k, (double)x, (double)want[k]); c.observe_f(x); }
  }
  template <U D, U V> void read(Ctx& c, DArr<D, V>& d, const Logical<D, V>& l, const Ind<D>& i, const char* how = "reading") {
    if(l.has(i)) { auto e = d[i]; check_value<D, V>(c, l.m.at(key<D>(i)), e, i, how); }
    else { bool threw = false; try { d[i]; } catch(const std::exception&) { threw = true; } c.check(threw, "reading element %s, which no chunk holds, is not reported as an error", str(i).c_str()); }
  }
  template <U D, U V> void fill(Ctx& c, DArr<D, V>& d, const Logical<D, V>& l, const Ind<D>& lo, const Ind<D>& hi, U off) {
    Ind<D> s = (hi - lo) + 2 * off; Arr<D, V> a(s, -5.0f);
    d.FillArray(a, lo, hi, Ind<D>(off));
    each<D>(Ind<D>(U(0)), s, [&](const Ind<D>& i) {
      bool in = true; for(U k = 0; k < D; k++) in &= i[k] >= off && i[k] < s[k] - off;
      std::array<float, V> want; want.fill(-5.0f); Ind<D> g = i;
      if(in) { g = (i - off) + lo; if(l.has(g)) want = l.m.at(key<D>(g)); }
      check_value<D, V>(c, want, a[i], g, in ? "extracting" : "extracting changes output");
    });
  }
  // all elements in map order / reverse order / interleaved
  template <U D, U V> void read_all(Ctx& c, DArr<D, V>& d, const Logical<D, V>& l, int order) {
    std::vector<Ind<D>> v; for(auto& [k, x] : l.m) v.push_back(ind<D>(k));
    U n = v.size();
    for(U j = 0; j < n; j++) read<D, V>(c, d, l, v[order == 0 ? j : order == 1 ? n - 1 - j : j % 2 ? n - 1 - j / 2 : j / 2]);
  }
  template <U D, U V> void shape(Ctx& c, DArr<D, V>& d, const Logical<D, V>& l) {
    Ind<D> s = d.GetShape(), w = l.shape();
    c.check(s == w, "the shape is reported as %s, expected %s", str(s).c_str(), str(w).c_str());
  }
  template <U D, U V> void loop(Ctx& c, DArr<D, V>& d, const Logical<D, V>& l) {
    Ind<D> lo, hi; l.extent(lo, hi);
    if(!l.contiguous()) return;

    std::set<Key<D>> seen;
    d.index_loop_over_elements([&](const Ind<D>& i, const auto& e) {
      c.check(l.has(i), "iteration visits %s, which no chunk holds", str(i).c_str());
      c.check(seen.insert(key<D>(i)).second, "iteration visits %s twice", str(i).c_str());
      check_value<D, V>(c, l.m.at(key<D>(i)), e, i, "iterating over");
    });
    c.check(seen.size() == l.m.size(), "iteration visits %zu of %zu elements", seen.size(), l.m.size());
  }
  template <U D, U V> void verify(Ctx& c, DArr<D, V>& d, const Logical<D, V>& l, int how) {
    shape<D, V>(c, d, l);
    if(l.m.empty()) { Ind<D> z(U(0)); read<D, V>(c, d, l, z); return; }
    Ind<D> lo, hi; l.extent(lo, hi);
    if(how <= 2) read_all<D, V>(c, d, l, how);
    else if(how == 3) fill<D, V>(c, d, l, lo, hi, 1);
    else loop<D, V>(c, d, l);
    // outside
    for(U k = 0; k < D; k++) { Ind<D> o = lo; o[k] = hi[k]; read<D, V>(c, d, l, o); if(lo[k]) { o = lo; o[k] = lo[k] - 1; read<D, V>(c, d, l, o); } }
    // holes
    if(!l.contiguous()) { int n = 0; each<D>(lo, hi, [&](const Ind<D>& i) { if(!l.has(i) && n++ < 3) read<D, V>(c, d, l, i); }); }
    shape<D, V>(c, d, l);
    c.state(l.hash());
  }

  // names and contents of all files in a directory
  inline std::map<std::string, std::string> snapshot(const fs::path& d) {
    std::map<std::string, std::string> r;
    for(auto& e : fs::directory_iterator(d)) { std::ifstream f(e.path(), std::ios::binary); std::stringstream s; s << f.rdbuf(); r[e.path().filename()] = s.str(); }
    return r;
  }

  template <U D> struct Slot { Ind<D> start, shape; U overlap = 0; };

  template <U D, U V> struct Sys {
    Ctx& c; fs::path dir; U cache; Ind<D> ser; std::unique_ptr<DArr<D, V>> d; Logical<D, V> l; int counter = 0;
    struct Chunk { Ind<D> start, shape; U overlap; };
    std::vector<Chunk> chunks;
    Sys(Ctx& c, fs::path dir, U cache, Ind<D> ser) : c(c), dir(dir), cache(cache), ser(ser) { open(cache); }
    void open(U depth) { cache = depth; d = std::make_unique<DArr<D, V>>(dir, depth, Ind<D>(U(1)), ser); }
    void close() { d.reset(); }
    bool can_register(const Slot<D>& s) { return l.free(s.start, Ind<D>(s.start + s.shape)); }
    void reg(const Slot<D>& s, int null = 0, ChunkHints h = ChunkHints::NONE) {
      Arr<D, V> a(Ind<D>(s.shape + 2 * s.overlap));
      fresh<D, V>(a, l, s.start, s.shape, s.overlap, counter, null);
      c.op("register %s at %s%s%s", str(s.shape).c_str(), str(s.start).c_str(), s.overlap ? " with overlap" : "", null == 1 ? " all zero" : "");
      if(s.overlap) d -> RegisterChunk(a, s.start, Ind<D>(s.start + s.shape), s.overlap, h); else d -> RegisterChunk(a, s.start, h);
      chunks.push_back({s.start, s.shape, s.overlap});
    }
    template <U axis> bool can_append(U k, U thick) {
      if(k >= chunks.size() || chunks[k].overlap) return false;
      const Ind<D>& sh = chunks[k].shape;
      if(ser[axis] > sh[axis]) return false;
      for(U d = 0; d < axis; d++) if(ser[d] < sh[d]) return false;
      for(U d = 0; d < D; d++) if(ser[d] < sh[d] && sh[d] % ser[d]) return false;     // serialization chunks must be complete
      Ind<D> lo = chunks[k].start, hi = lo + sh; lo[axis] = hi[axis]; hi[axis] += thick;
      return l.free(lo, hi);
    }
    template <U axis> void append(U k, U thick, int null = 0) {
      Chunk& ch = chunks[k]; Ind<D> lo = ch.start, s = ch.shape; lo[axis] += s[axis]; s[axis] = thick;
      Arr<D, V> a(s); fresh<D, V>(a, l, lo, s, 0, counter, null);
      c.op("append %s along axis %zu at %s%s", str(s).c_str(), axis, str(lo).c_str(), null == 1 ? " all zero" : "");
      d -> template AppendSlice<axis>(lo, a);
      ch.shape[axis] += thick;
    }
    template <U A, U B> void swap() {
      c.op("swap axes %zu and %zu", A, B); d -> template SwapAxes<A, B>(); l.template swap<A, B>();
      for(auto& k : chunks) { std::swap(k.start[A], k.start[B]); std::swap(k.shape[A], k.shape[B]); }
    }
    void flush() { c.op("flush"); d -> Flush(); }
    void touch(U k) { Ind<D> i = chunks[k].start; c.op("read %s, shape", str(i).c_str()); read<D, V>(c, *d, l, i); shape<D, V>(c, *d, l); }
    void touch_last(U k) { Ind<D> i = chunks[k].start + chunks[k].shape - 1; c.op("read %s", str(i).c_str()); read<D, V>(c, *d, l, i); }
  };

template <U D> std::vector<std::vector<Slot<D>>> layouts();
template <> inline std::vector<std::vector<Slot<1>>> layouts<1>() {
  return { {{{(U)0}, {(U)2}}, {{(U)2}, {(U)1}}, {{(U)3}, {(U)2}}} };
}
template <> inline std::vector<std::vector<Slot<2>>> layouts<2>() {
  std::vector<std::vector<Slot<2>>> r;
  r.push_back({{{(U)0, (U)0}, {(U)2, (U)1}}, {{(U)0, (U)1}, {(U)2, (U)2}}, {{(U)0, (U)3}, {(U)2, (U)1}}});    // columns
  r.push_back({{{(U)0, (U)0}, {(U)1, (U)2}}, {{(U)1, (U)0}, {(U)2, (U)2}}, {{(U)3, (U)0}, {(U)1, (U)2}}});    // rows
  r.push_back({{{(U)3, (U)2}, {(U)1, (U)1}}, {{(U)3, (U)4}, {(U)2, (U)2}}, {{(U)5, (U)7}, {(U)1, (U)2}, 1}}); // scattered, one with overlap
  return r;
}
template <> inline std::vector<std::vector<Slot<3>>> layouts<3>() {
  std::vector<std::vector<Slot<3>>> r;
  r.push_back({{{(U)0, (U)0, (U)0}, {(U)1, (U)2, (U)1}}, {{(U)0, (U)0, (U)1}, {(U)1, (U)2, (U)2}}, {{(U)0, (U)2, (U)0}, {(U)1, (U)1, (U)3}}});
  r.push_back({{{(U)1, (U)0, (U)2}, {(U)2, (U)1, (U)1}}, {{(U)1, (U)0, (U)3}, {(U)2, (U)1, (U)1}, 1}, {{(U)1, (U)1, (U)2}, {(U)2, (U)2, (U)2}}});
  return r;
}

// all operations that are possible now, simplest first
template <U D, U V> std::vector<std::function<void()>> ops(Sys<D, V>& s, Ctx& c, const std::vector<Slot<D>>& slots, U second_axis, bool swaps = true) {
  std::vector<std::function<void()>> ops;
  for(auto& sl : slots) if(s.can_register(sl)) ops.push_back([&] { s.reg(sl); });
  for(U k = 0; k < s.chunks.size(); k++) ops.push_back([&, k] { s.touch(k); });
  for(U k = 0; k < s.chunks.size(); k++) {
    U th = k == 2 ? 2 : 1;
    if(s.template can_append<0>(k, th)) ops.push_back([&, k, th] { s.template append<0>(k, th, k == 1 ? 2 : 0); });
    if constexpr(D > 1) if(second_axis == 1 && s.template can_append<1>(k, th)) ops.push_back([&, k, th] { s.template append<1>(k, th); });
  }
  if(!s.chunks.empty()) {
    ops.push_back([&] { s.flush(); });
    if constexpr(D == 2) if(swaps) ops.push_back([&] { s.template swap<0, 1>(); });
    if constexpr(D == 3) if(swaps) { ops.push_back([&] { s.template swap<0, 2>(); }); ops.push_back([&] { s.template swap<1, 2>(); }); }
    ops.push_back([&] { Ind<D> lo, hi; s.l.extent(lo, hi); c.op("extract everything"); fill<D, V>(c, *s.d, s.l, lo, hi, 0); });
  }
  if(s.chunks.size() > 1) ops.push_back([&] {
    Ind<D> lo, hi; s.l.extent(lo, hi); for(U d = 0; d < D; d++) if(hi[d] - lo[d] > 2) lo[d] += 1;
    c.op("extract %s..%s", str(lo).c_str(), str(hi).c_str()); fill<D, V>(c, *s.d, s.l, lo, hi, 1); });
  if(s.chunks.size() > 1 && s.l.contiguous()) ops.push_back([&] { c.op("shape and iteration"); shape<D, V>(c, *s.d, s.l); loop<D, V>(c, *s.d, s.l); });
  return ops;
}

}
