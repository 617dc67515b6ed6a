// Helpers shared by the harnesses; independent of the code under test except for its Vector type.
#pragma once
#include "mc.hh"
#include "Vector.hh"

using U = std::size_t;
using mc::Ctx;
template <std::size_t D> using Ind = Vector<U, D>;

template <class V> std::string vstr(const V& v, std::size_t n) {
  std::ostringstream s; s << "("; for(std::size_t i = 0; i < n; i++) s << (i ? "," : "") << v[i]; s << ")"; return s.str();
}
template <class T, std::size_t D> std::string str(const Vector<T, D>& v) { return vstr(v, D); }

// every integer vector of [lo, hi), last axis fastest
template <std::size_t D, class F> void each(const Ind<D>& lo, const Ind<D>& hi, F&& f) {
  for(U i = 0; i < D; i++) if(lo[i] >= hi[i]) return;
  Ind<D> v = lo;
  while(true) {
    f((const Ind<D>&)v);
    U i = D; bool more = false;
    while(i-- > 0) { if(++v[i] < hi[i]) { more = true; break; } v[i] = lo[i]; }
    if(!more) return;
  }
}
template <std::size_t D> U count(const Ind<D>& s) { U n = 1; for(U i = 0; i < D; i++) n *= s[i]; return n; }
template <std::size_t D> U flat(const Ind<D>& i, const Ind<D>& s) { U r = 0; for(U d = 0; d < D; d++) r = r * s[d] + i[d]; return r; }
template <std::size_t D> bool inside(const Ind<D>& p, const Ind<D>& lo, const Ind<D>& hi) { for(U i = 0; i < D; i++) if(p[i] < lo[i] || p[i] >= hi[i]) return false; return true; }
template <std::size_t D> std::uint64_t hash_ind(const Ind<D>& v, std::uint64_t h = 1) { for(U i = 0; i < D; i++) h = mc::mix(h, v[i]); return h; }
template <std::size_t D> Ind<D> pick_ind(Ctx& c, U lo, U hi) { Ind<D> r; for(U i = 0; i < D; i++) r[i] = c.range(lo, hi); return r; }

// plain logical array: shape and values, last axis fastest, V components per element
template <std::size_t D, std::size_t V> struct Ref {
  Ind<D> shape; std::vector<float> v; std::vector<char> known;
  Ref() : shape() { }
  Ref(const Ind<D>& s) : shape(s), v(count<D>(s) * V, 0.0f), known(count<D>(s), 0) { }
  float& at(const Ind<D>& i, U k) { return v.at(flat<D>(i, shape) * V + k); }
  float at(const Ind<D>& i, U k) const { return v.at(flat<D>(i, shape) * V + k); }
  bool is_known(const Ind<D>& i) const { return known.at(flat<D>(i, shape)); }
  void set(const Ind<D>& i, U k, float x) { at(i, k) = x; known.at(flat<D>(i, shape)) = 1; }
  std::uint64_t hash() const { std::uint64_t h = hash_ind<D>(shape); for(float f : v) { std::uint32_t u; std::memcpy(&u, &f, 4); h = mc::mix(h, u); } return h; }
};
