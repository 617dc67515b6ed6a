// Looking at rebuilt chunks, including their overlap.
#pragma once
#include "dm.hh"

namespace rb {
  using namespace dm;
  template <U D> using SInd = Vector<int, D>;

  // the library as a reader that evaluates chunks directly (such as a Green's function) sees it
  template <U D, U V> struct Peek : ChunkLibrary<NDVecArray, float, D, V> {
    using Base = ChunkLibrary<NDVecArray, float, D, V>;
    Peek(fs::path dir, U cache) : Base(dir, cache, Ind<D>(U(1)), ser_default<D>()) { }
    template <class F> void chunks(F&& f) {
      Ind<D> lo = this -> GetStartInd(), hi = this -> GetEndInd();
      auto metas = this -> m_index.GetChunks(lo, hi);
      for(const ChunkMetadata<D>& m : metas) f(m, this -> m_cache.RetrieveChunk(m));
    }
  };

  inline bool outside_is_zero = false, mirror_axis = false;
  template <U D, U V> float outside_value(const SInd<D>& i, U k) { if(outside_is_zero) return 0.0f; int h = 17; for(U d = 0; d < D; d++) h = h * 31 + i[d]; return -(float)(h % 9973 + 10000) - 0.125f * k; }

  // value of the element with (signed) global index i: logical content or boundary value
  template <U D, U V> std::array<float, V> expected(const Logical<D, V>& l, SInd<D> i) {
    if(mirror_axis && i[0] < 0) i[0] = -i[0];
    bool neg = false; Ind<D> u; for(U d = 0; d < D; d++) { neg |= i[d] < 0; u[d] = (U)i[d]; }
    if(!neg && l.has(u)) return l.m.at(key<D>(u));
    std::array<float, V> r; for(U k = 0; k < V; k++) r[k] = outside_value<D, V>(i, k); return r;
  }

  // tiles of [lo, hi)
  template <U D> std::set<std::pair<Key<D>, Key<D>>> tiling(const Ind<D>& lo, const Ind<D>& hi, const Ind<D>& size) {
    std::set<std::pair<Key<D>, Key<D>>> r;
    each<D>(lo, hi, [&](const Ind<D>& i) { Key<D> a, b; for(U d = 0; d < D; d++) { a[d] = lo[d] + (i[d] - lo[d]) / size[d] * size[d]; b[d] = std::min(a[d] + size[d], hi[d]); } r.insert({a, b}); });
    return r;
  }

  // every chunk in dir: placement, shape, overlap and all of its values
  template <U D, U V> void check_chunks(Ctx& c, fs::path dir, const Logical<D, V>& l, std::set<std::pair<Key<D>, Key<D>>> tiles, U overlap, const SInd<D>& shift, U cache) {
    Peek<D, V> p(dir, cache);
    U n = 0;
    p.chunks([&](const ChunkMetadata<D>& m, const Arr<D, V>& a) {
      n++;
      c.check(tiles.count({key<D>(m.start_ind), key<D>(m.end_ind)}) == 1, "there is a chunk %s..%s, which is not one of the requested tiles", str(m.start_ind).c_str(), str(m.end_ind).c_str());
      c.check(m.overlap == overlap, "chunk %s has overlap %zu, requested %zu", str(m.start_ind).c_str(), m.overlap, overlap);
      Ind<D> full = (m.end_ind - m.start_ind) + 2 * overlap;
      bool null = m.chunk_type == ChunkType::all_null;
      c.check(a.GetShape() == full, "chunk %s has shape %s, expected %s", str(m.start_ind).c_str(), str(a.GetShape()).c_str(), str(full).c_str());
      each<D>(Ind<D>(U(0)), full, [&](const Ind<D>& i) {
        SInd<D> g; for(U d = 0; d < D; d++) g[d] = (int)i[d] + (int)m.start_ind[d] - (int)overlap - shift[d];
        auto want = expected<D, V>(l, g); auto e = a[i];
        for(U k = 0; k < V; k++) { float x = e[k]; c.check(same(x, want[k]), "chunk %s holds at %s (index %s) component %zu the value %g, expected %g", str(m.start_ind).c_str(), str(i).c_str(), str(g).c_str(), k, (double)x, (double)want[k]); c.observe_f(x); }
      });
    });
    c.check(n == tiles.size(), "there are %zu chunks, expected %zu", n, tiles.size());
  }

  // the two kinds of boundary evaluators
  template <U D, U V> struct Eval {
    Ctx& c; const Logical<D, V>& l;
    void fill(const SInd<D>& i, auto& e) const {
      bool neg = false; Ind<D> u; for(U d = 0; d < D; d++) { neg |= i[d] < 0; u[d] = (U)i[d]; }
      c.check(neg || !l.has(u), "the boundary evaluator is asked for %s, which lies inside the array", str(i).c_str());
      for(U k = 0; k < V; k++) e[k] = outside_value<D, V>(i, k);
    }
  };
}
