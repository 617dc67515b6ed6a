// C17: index loops.
#include "dm.hh"
#include "IteratorUtils.hh"
using namespace dm;

template <class T, U D> using V = Vector<T, D>;
template <class T, U D> V<T, D> pick_v(Ctx& c, int lo, int hi) { V<T, D> r; for(U i = 0; i < D; i++) r[i] = (T)c.range(lo, hi); return r; }
template <class T, U D> std::string vs(const V<T, D>& v) { return vstr(v, D); }
// what has to be visited, in order: last axis fastest
template <class T, U D> std::vector<V<T, D>> all_of(const V<T, D>& lo, const V<T, D>& hi) {
  std::vector<V<T, D>> r; long n = 1; for(U i = 0; i < D; i++) n *= std::max<long>(0, (long)hi[i] - (long)lo[i]);
  for(long q = 0; q < n; q++) { V<T, D> v; long k = q; for(U i = D; i-- > 0;) { long e = (long)hi[i] - (long)lo[i]; v[i] = (T)((long)lo[i] + k % e); k /= e; } r.push_back(v); }
  return r;
}
template <class T, U D> std::uint64_t hv(const V<T, D>& v, std::uint64_t h) { for(U i = 0; i < D; i++) h = mc::mix(h, (std::uint64_t)(long)v[i]); return h; }

template <class T, U D> void elements(Ctx& c, int lo, int hi) {
  V<T, D> b = pick_v<T, D>(c, lo, hi), e = pick_v<T, D>(c, lo, hi); c.op("from %s to %s", vs<T, D>(b).c_str(), vs<T, D>(e).c_str());
  auto want = all_of<T, D>(b, e); U n = 0; c.step(); c.state(hv<T, D>(e, hv<T, D>(b, D)));
  auto visit = [&](const V<T, D>& i) { c.check(n < want.size(), "%s is visited after the last index", vs<T, D>(i).c_str()); c.check(i == want[n], "number %zu is %s instead of %s", n, vs<T, D>(i).c_str(), vs<T, D>(want[n]).c_str()); n++; };
  IteratorUtils::index_loop_over_elements(b, e, visit);
  c.check(n == want.size(), "%zu of %zu indices are visited", n, want.size()); c.observe(n);
  if(n) c.nontrivial();
}
template <class T, U D> void chunks(Ctx& c, int lo, int hi, int maxsize) {
  V<T, D> b = pick_v<T, D>(c, lo, hi), e = pick_v<T, D>(c, lo, hi); V<T, D> s = pick_v<T, D>(c, 1, maxsize);
  c.op("from %s to %s in chunks of %s", vs<T, D>(b).c_str(), vs<T, D>(e).c_str(), vs<T, D>(s).c_str()); c.step(); c.state(hv<T, D>(s, hv<T, D>(e, hv<T, D>(b, D))));
  // chunk numbers along each axis
  V<long, D> zero, cnt; for(U i = 0; i < D; i++) { zero[i] = 0; long len = std::max<long>(0, (long)e[i] - (long)b[i]); cnt[i] = 0; while(cnt[i] * (long)s[i] < len) cnt[i]++; }
  auto want = all_of<long, D>(zero, cnt); U n = 0;
  auto visit = [&](const V<T, D>& cb, const V<T, D>& ce) {
    c.check(n < want.size(), "a chunk at %s is visited after the last one", vs<T, D>(cb).c_str());
    for(U i = 0; i < D; i++) { long x = (long)b[i] + want[n][i] * (long)s[i], y = std::min<long>(x + (long)s[i], (long)e[i]); c.check((long)cb[i] == x && (long)ce[i] == y, "chunk %zu is %s to %s; along axis %zu it should be %ld to %ld", n, vs<T, D>(cb).c_str(), vs<T, D>(ce).c_str(), i, x, y); }
    n++;
  };
  IteratorUtils::index_loop_over_chunks(b, e, s, visit);
  c.check(n == want.size(), "%zu of %zu chunks are visited", n, want.size()); c.observe(n);
  if(n > 1) c.nontrivial();
}
// the worker receives its own copies or references: changing them does not disturb the loop
template <U D> void nested(Ctx& c, int hi) {
  Ind<D> b = pick_ind<D>(c, 0, 1), e = pick_ind<D>(c, 1, hi), s = pick_ind<D>(c, 1, 2); c.op("from %s to %s in chunks of %s, elements within chunks", str<U, D>(b).c_str(), str<U, D>(e).c_str(), str<U, D>(s).c_str());
  std::map<std::array<U, D>, int> seen; c.step(); c.state(hash_ind<D>(s, hash_ind<D>(e, hash_ind<D>(b, 77))));
  auto body = [&](const Ind<D>& i) { std::array<U, D> a; for(U k = 0; k < D; k++) a[k] = i[k]; seen[a]++; };
  auto outer = [&](const Ind<D>& cb, const Ind<D>& ce) { IteratorUtils::index_loop_over_elements(cb, ce, body); };
  IteratorUtils::index_loop_over_chunks(b, e, s, outer);
  U want = all_of<U, D>(b, e).size(); c.check(seen.size() == want, "%zu of %zu indices are visited", (U)seen.size(), want);
  for(auto& [a, n] : seen) { c.check(n == 1, "an index is visited %d times", n); for(U k = 0; k < D; k++) c.check(a[k] >= b[k] && a[k] < e[k], "an index outside of the range is visited"); }
}
// loops over arrays, and views of arrays
template <U D, U W> void arrays(Ctx& c, U top) {
  Ind<D> shape = pick_ind<D>(c, 1, top); int view = c.choose(2); Ind<D> full = view ? Ind<D>(shape + U(2)) : shape; Arr<D, W> big(full, -1.0f);
  Arr<D, W> v = big.View(Ind<D>(U(view ? 1 : 0)), Ind<D>(shape + U(view ? 1 : 0))); Arr<D, W>& a = view ? v : big;
  auto val = [&](const Ind<D>& i, U k) { return (float)(flat<D>(i, shape) * W + k + 1); };
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) { for(U k = 0; k < W; k++) a[i][k] = val(i, k); });
  auto want = all_of<U, D>(Ind<D>(U(0)), shape); U n = 0; int what = c.choose(5); c.op("%s%s, loop %d", view ? "view of shape " : "shape ", str<U, D>(shape).c_str(), what); c.step(); c.state(hash_ind<D>(shape, what * 2 + view + 100 * W));
  auto elem = [&](const Ind<D>& i, auto&& x) { for(U k = 0; k < W; k++) c.check(x[k] == val(i, k), "component %zu at %s is %g, not %g", k, str<U, D>(i).c_str(), (double)x[k], (double)val(i, k)); };
  if(what == 0) { a.loop_over_elements([&](typename Arr<D, W>::view_t x) { c.check(n < want.size(), "more elements than there are"); elem(want[n], x); n++; }); c.check(n == want.size(), "%zu of %zu elements are visited", n, want.size()); }
  else if(what == 1) { a.index_loop_over_elements([&](const Ind<D>& i, typename Arr<D, W>::view_t x) { c.check(n < want.size() && i == want[n], "number %zu is %s", n, str<U, D>(i).c_str()); elem(i, x); n++; }); c.check(n == want.size(), "%zu of %zu elements are visited", n, want.size()); }
  else if(what == 2) {
    each<D>(Ind<D>(U(0)), Ind<D>(shape + U(1)), [&](const Ind<D>& lo) { each<D>(Ind<D>(U(0)), Ind<D>(shape + U(1)), [&](const Ind<D>& hi) {
      auto w = all_of<U, D>(lo, hi); U m = 0; c.step();
      a.index_loop_over_elements(lo, hi, [&](const Ind<D>& i, typename Arr<D, W>::view_t x) { c.check(m < w.size() && i == w[m], "number %zu from %s to %s is %s", m, str<U, D>(lo).c_str(), str<U, D>(hi).c_str(), str<U, D>(i).c_str()); elem(i, x); m++; });
      c.check(m == w.size(), "%zu of %zu elements from %s to %s are visited", m, w.size(), str<U, D>(lo).c_str(), str<U, D>(hi).c_str());
    }); });
  }
  else if(what == 3) { IteratorUtils::index_loop_over_array_elements(a, [&](const Ind<D>& i) { c.check(n < want.size() && i == want[n], "number %zu is %s", n, str<U, D>(i).c_str()); n++; }); c.check(n == want.size(), "%zu of %zu indices are visited", n, want.size()); }
  else {
    // writing through the element changes exactly this element; sequential access picks the requested ones
    a.loop_over_elements([&](typename Arr<D, W>::view_t x) { for(U k = 0; k < W; k++) x[k] = x[k] + 1000; });
    each<D>(Ind<D>(U(0)), full, [&](const Ind<D>& i) { bool in = true; Ind<D> j = i; if(view) for(U k = 0; k < D; k++) { if(i[k] < 1 || i[k] >= shape[k] + 1) in = false; j[k]--; } for(U k = 0; k < W; k++) c.check(big[i][k] == (in ? val(j, k) + 1000 : -1.0f), "component %zu at %s is %g after adding to every element", k, str<U, D>(i).c_str(), (double)big[i][k]); });
    Ind<D> o = shape - U(1); o[D - 1] = 0; std::vector<U> pos; for(U k = shape[D - 1]; k-- > 0;) pos.push_back(k); pos.push_back(0); pos.push_back(0); U m = 0;
    a.apply_sequential(o, pos, [&](typename Arr<D, W>::view_t x) { Ind<D> i = o; i[D - 1] = pos[m++]; for(U k = 0; k < W; k++) c.check(x[k] == val(i, k) + 1000, "sequential access to %s", str<U, D>(i).c_str()); });
    c.check(m == pos.size(), "%zu of %zu positions are visited", m, pos.size());
  }
  if(want.size() > 1) c.nontrivial();
}
template <U D> void ranges(Ctx& c, int hi) {
  Ind<D> b = pick_ind<D>(c, 0, hi), e = pick_ind<D>(c, 0, hi); c.step(); c.state(hash_ind<D>(e, hash_ind<D>(b, D)));
  bool want = all_of<U, D>(b, e).empty(), got = IteratorUtils::empty_range(b, e); c.observe(got);
  c.check(got == want, "the range from %s to %s is reported as %sempty", str<U, D>(b).c_str(), str<U, D>(e).c_str(), got ? "" : "not ");
  if(!want) c.nontrivial();
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C17"; h.level = "model_checking";
  h.assumptions = {"chunk sizes are positive, and begin plus chunk size does not overflow"};
  h.space("elements", "all ranges (also empty and inverted) in 1-4 dimensions, also with negative indices", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(7)) { case 0: elements<U, 1>(c, 0, 9); break; case 1: elements<U, 2>(c, 0, 4 + 2 * x); break; case 2: elements<U, 3>(c, 0, (c.lite ? 2 : 3) + x); break; case 3: elements<int, 1>(c, -7, 7); break; case 4: elements<int, 2>(c, -3, 2 + x); break; case 5: elements<int, 3>(c, -1, 1 + x); break; default: elements<U, 4>(c, 0, c.lite ? 1 : 2); } });
  h.space("chunks", "all ranges and chunk sizes in 1-3 dimensions, also with negative indices", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(6)) { case 0: chunks<U, 1>(c, 0, 9 + 5 * x, 11 + 5 * x); break; case 1: chunks<U, 2>(c, 0, 4 + x, c.lite ? 3 : 5); break; case 2: chunks<U, 3>(c, 0, c.lite ? 2 : x ? 3 : 2, 3); break; case 3: chunks<int, 1>(c, -6, 6, 13); break; case 4: chunks<int, 2>(c, -2, 2, c.lite ? 3 : 5); break; default: chunks<int, 3>(c, -1, 1, c.lite ? 2 : 3); } });
  h.space("nested", "elements within chunks", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(4)) { case 0: nested<1>(c, 9); break; case 1: nested<2>(c, 4); break; case 2: nested<3>(c, 3); break; default: nested<4>(c, x ? 3 : 2); } });
  h.space("arrays", "all loops over arrays and views, all sub-ranges", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(6)) { case 0: arrays<1, 1>(c, 8); break; case 1: arrays<1, 3>(c, 6); break; case 2: arrays<2, 1>(c, 4 + x); break; case 3: arrays<2, 2>(c, 4); break; case 4: arrays<3, 2>(c, c.lite ? 2 : 3); break; default: arrays<3, 1>(c, (c.lite ? 2 : 3) + x); } });
  h.space("ranges", "which ranges are empty, in 1-4 dimensions", 3, [](Ctx& c) { switch(c.choose(4)) { case 0: ranges<1>(c, 9); break; case 1: ranges<2>(c, 5); break; case 2: ranges<3>(c, 3); break; default: ranges<4>(c, 2); } });
  return mc::run_main(h, argc, argv);
}
