// C19: boxes and index vectors.
#include "dm.hh"
#include "ChunkUtils.hh"
#include "Common.hh"
#include "MathUtils.hh"
using namespace dm;

template <class T, U D> using V = Vector<T, D>;
template <class T, U D> std::string vs(const V<T, D>& v) { return vstr(v, D); }
template <class T, U D> V<T, D> pick_v(Ctx& c, int lo, int hi) { V<T, D> r; for(U i = 0; i < D; i++) r[i] = (T)c.range(lo, hi); return r; }
template <class T, U D> std::uint64_t hv(const V<T, D>& v, std::uint64_t h) { for(U i = 0; i < D; i++) h = mc::mix(h, (std::uint64_t)(long)v[i]); return h; }
// every point of a box; the reference for everything below
template <class T, U D> std::set<std::array<long, D>> points(const V<T, D>& lo, const V<T, D>& sh) {
  std::set<std::array<long, D>> r; long n = 1; for(U i = 0; i < D; i++) n *= (long)sh[i];
  for(long q = 0; q < n; q++) { std::array<long, D> a; long k = q; for(U i = D; i-- > 0;) { a[i] = (long)lo[i] + k % (long)sh[i]; k /= (long)sh[i]; } r.insert(a); }
  return r;
}
template <class T, U D> void contains(Ctx& c, int lo, int hi, int ext) {
  auto s = pick_v<T, D>(c, lo, hi); auto n = pick_v<T, D>(c, 0, ext); auto p = points<T, D>(s, n); c.op("box at %s of shape %s", vs<T, D>(s).c_str(), vs<T, D>(n).c_str()); c.state(hv<T, D>(n, hv<T, D>(s, D)));
  V<long, D> x; long m = 1, w = hi + ext + 2 - (lo - 2); const long base = std::is_unsigned_v<T> ? 0 : lo - 2; for(U i = 0; i < D; i++) m *= w;
  for(long q = 0; q < m; q++) {
    V<T, D> v; std::array<long, D> a; long k = q; for(U i = 0; i < D; i++) { a[i] = base + k % w; v[i] = (T)a[i]; k /= w; } c.step();
    bool want = p.count(a), got = ChunkUtils::contains(s, n, v); c.check(got == want, "box at %s of shape %s is reported to%s contain %s", vs<T, D>(s).c_str(), vs<T, D>(n).c_str(), got ? "" : " not", vs<T, D>(v).c_str());
    if constexpr(std::is_same_v<T, U>) { BoundingBox<T, D> b(s, V<T, D>(s + n)); c.check(b.contains(v) == want, "bounding box from %s of shape %s: containing %s is wrong", vs<T, D>(s).c_str(), vs<T, D>(n).c_str(), vs<T, D>(v).c_str()); }
    c.observe(got);
  }
  if(!p.empty()) c.nontrivial();
}
template <class T, U D> void pairs(Ctx& c, int lo, int hi, int ext, int minext) {
  auto as = pick_v<T, D>(c, lo, hi); auto an = pick_v<T, D>(c, minext, ext); auto A = points<T, D>(as, an); c.op("box at %s of shape %s", vs<T, D>(as).c_str(), vs<T, D>(an).c_str());
  V<T, D> bs, bn; long w1 = hi - lo + 1, w2 = ext - minext + 1, m = 1; for(U i = 0; i < D; i++) m *= w1 * w2;
  for(long q = 0; q < m; q++) {
    long k = q; for(U i = 0; i < D; i++) { bs[i] = (T)(lo + k % w1); k /= w1; bn[i] = (T)(minext + k % w2); k /= w2; }
    c.step(); c.state(hv<T, D>(bn, hv<T, D>(bs, hv<T, D>(an, hv<T, D>(as, D)))));
    auto B = points<T, D>(bs, bn); std::set<std::array<long, D>> I; std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::inserter(I, I.end()));
    const std::string what = "boxes at " + vs<T, D>(as) + " of shape " + vs<T, D>(an) + " and at " + vs<T, D>(bs) + " of shape " + vs<T, D>(bn);
    if(!A.empty() && !B.empty()) {
      bool got = ChunkUtils::overlaps(as, an, bs, bn); c.check(got == !I.empty(), "%s: reported as%s overlapping", what.c_str(), got ? "" : " not"); c.observe(got);
    }
    if(!I.empty()) {
      V<T, D> os, on; ChunkUtils::get_chunk_overlap(as, an, bs, bn, os, on); auto O = points<T, D>(os, on); c.check(O == I, "%s: the common part is reported at %s of shape %s", what.c_str(), vs<T, D>(os).c_str(), vs<T, D>(on).c_str()); c.nontrivial();
    }
    if constexpr(std::is_same_v<T, U>) {
      BoundingBox<T, D> a(as, V<T, D>(as + an)), b(bs, V<T, D>(bs + bn));
      if(!A.empty() && !B.empty()) c.check(a.overlaps(b) == !I.empty() && b.overlaps(a) == !I.empty(), "%s: overlap of bounding boxes", what.c_str());
      c.check((U)a.volume() == A.size() && (U)b.volume() == B.size(), "%s: volume", what.c_str());
      c.check((U)a.compute_overlap_volume(b) == I.size(), "%s: the volume of the overlap is %zu instead of %zu", what.c_str(), (U)a.compute_overlap_volume(b), I.size());
      V<T, D> lo2, hi2; for(U i = 0; i < D; i++) { lo2[i] = std::min(as[i], bs[i]); hi2[i] = std::max<T>(as[i] + an[i], bs[i] + bn[i]); }
      BoundingBox<T, D> hull(a, b), e(a), z; e.extend(b); z.extend(a); z.extend(bs, V<T, D>(bs + bn)); BoundingBox<T, D> asg; asg = hull; BoundingBox<T, D> up(b); up.update(lo2, hi2);
      for(auto* x : {&hull, &e, &z, &asg, &up}) c.check(x -> start_coords == lo2 && x -> end_coords == hi2 && x -> shape == V<T, D>(hi2 - lo2), "%s: hull", what.c_str());
      U d2 = 0, mg = 0; for(U i = 0; i < D; i++) { long d = (long)((as[i] + as[i] + an[i]) / 2) - (long)((bs[i] + bs[i] + bn[i]) / 2); d2 += d * d; mg += an[i]; } c.check((U)b.compute_center_distance(a.compute_center()) == d2, "%s: distance of the centers", what.c_str()); c.check((U)a.margin() == mg, "%s: margin", what.c_str());
      // common part of a chunk and a region
      if(!I.empty()) { ChunkMetadata<D> meta(ChunkType::specified, "x", 0, as, an, 0); V<T, D> s = ChunkIndex<D>::get_overlap_start_ind(meta, bs), t = ChunkIndex<D>::get_overlap_end_ind(meta, V<T, D>(bs + bn)); c.check(points<T, D>(s, V<T, D>(t - s)) == I, "%s: common part of chunk and region", what.c_str()); }
    }
  }
}
// chunk records: where they start and end, and what growing and swapping axes does
template <U D> void records(Ctx& c) {
  auto s = pick_v<U, D>(c, 0, 2); auto n = pick_v<U, D>(c, 1, 3); U o = c.range(0, 2), g = c.range(0, 2); c.step(); c.state(hv<U, D>(n, hv<U, D>(s, o * 8 + g))); c.nontrivial();
  ChunkMetadata<D> m(ChunkType::specified, "f", 3, s, n, o); auto chk = [&](const ChunkMetadata<D>& m, V<U, D> s, V<U, D> n, const char* what) {
    c.check(m.start_ind == s && m.shape == n && m.end_ind == V<U, D>(s + n) && m.overlap == o && m.chunk_id == 3 && m.filepath == "f", "%s: start %s, shape %s, end %s", what, vs<U, D>(m.start_ind).c_str(), vs<U, D>(m.shape).c_str(), vs<U, D>(m.end_ind).c_str());
    // an index of the chunk becomes its position within the stored array, behind the overlap
    for(U i = 0; i < D; i++) for(U k = 0; k < n[i]; k++) c.check(s[i] + k - m.loc_ind_offset[i] == k + o, "%s: index %zu along axis %zu is at %zu in the stored array", what, s[i] + k, i, s[i] + k - m.loc_ind_offset[i]); };
  chk(m, s, n, "new record"); auto grow = [&](auto ax) { constexpr U A = decltype(ax)::value; auto x = m; x.template GrowChunk<A>(g); auto n2 = n; n2[A] += g; chk(x, s, n2, "grown record"); };
  grow(std::integral_constant<U, 0>()); grow(std::integral_constant<U, D - 1>());
  if constexpr(D > 1) { auto x = m; x.template SwapAxes<0, D - 1>(); auto s2 = s, n2 = n; std::swap(s2[0], s2[D - 1]); std::swap(n2[0], n2[D - 1]); chk(x, s2, n2, "record with swapped axes"); }
}
// elementwise operations
template <class T> const std::vector<T>& extremes() {
  static const std::vector<T> v = [] { std::vector<T> r{T(0), T(1), T(2), T(3), T(7), T(100), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::max() / 2), T(std::numeric_limits<T>::max() / 2 + 1)}; if(std::is_signed_v<T>) for(T x : {T(-1), T(-2), T(-100), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::min() + 1)}) r.push_back(x); return r; }(); return v;
}
template <class A, class B, U D> void minmax(Ctx& c, const char* name) {
  auto& xs = extremes<A>(); auto& ys = extremes<B>(); U p = c.choose((int)D); c.op("%s at position %zu", name, p);
  for(A x : xs) for(B y : ys) for(A x2 : {xs[3], xs.back()}) for(B y2 : {ys[4], ys.back()}) {
    V<A, D> a; V<B, D> b; for(U i = 0; i < D; i++) { a[i] = i == p ? x : x2; b[i] = i == p ? y : y2; }
    c.step(); c.state(mc::mix(mc::mix((std::uint64_t)x, (std::uint64_t)y), mc::mix((std::uint64_t)x2 * 31 + (std::uint64_t)y2, p + 7 * D + 100 * sizeof(A) + 10000 * sizeof(B))));
    auto lo = VectorUtils::min(a, b), hi = VectorUtils::max(a, b), ls = VectorUtils::min(a, y);
    for(U i = 0; i < D; i++) {
      __int128 u = (__int128)a[i], v = (__int128)b[i], s = (__int128)y; auto fits = [](__int128 k) { return k >= (__int128)std::numeric_limits<A>::min() && k <= (__int128)std::numeric_limits<A>::max(); };
      if(fits(std::min(u, v))) c.check((__int128)lo[i] == std::min(u, v), "%s: the smaller of %s and %s, element %zu", name, std::to_string(a[i]).c_str(), std::to_string(b[i]).c_str(), i);
      if(fits(std::max(u, v))) c.check((__int128)hi[i] == std::max(u, v), "%s: the larger of %s and %s, element %zu", name, std::to_string(a[i]).c_str(), std::to_string(b[i]).c_str(), i);
      if(fits(std::min(u, s))) c.check((__int128)ls[i] == std::min(u, s), "%s: the smaller of %s and the number %s, element %zu", name, std::to_string(a[i]).c_str(), std::to_string(y).c_str(), i);
    }
  }
  c.nontrivial();
}
template <class T, U D> void algebra(Ctx& c, int lo, int hi) {
  auto a = pick_v<T, D>(c, lo, hi), b = pick_v<T, D>(c, lo, hi); T s = (T)c.range(lo, hi); c.step(); c.state(hv<T, D>(a, hv<T, D>(b, (std::uint64_t)(long)s))); c.nontrivial();
  auto chk = [&](const V<T, D>& got, auto f, const char* what) { for(U i = 0; i < D; i++) { T w = f(i); c.check(got[i] == w, "%s of %s, %s, %s: element %zu is %s", what, vs<T, D>(a).c_str(), vs<T, D>(b).c_str(), std::to_string(s).c_str(), i, std::to_string(got[i]).c_str()); } };
  bool nzb = true; for(U i = 0; i < D; i++) nzb &= b[i] != 0; bool nzs = s != 0; V<T, D> r;
  chk(a + b, [&](U i) { return (T)(a[i] + b[i]); }, "+"); chk(a - b, [&](U i) { return (T)(a[i] - b[i]); }, "-"); chk(a * b, [&](U i) { return (T)(a[i] * b[i]); }, "*"); if(nzb && std::is_integral_v<T>) chk(a / b, [&](U i) { return (T)(a[i] / b[i]); }, "/");
  chk(a + s, [&](U i) { return (T)(a[i] + s); }, "+ number"); chk(a - s, [&](U i) { return (T)(a[i] - s); }, "- number"); chk(a * s, [&](U i) { return (T)(a[i] * s); }, "* number"); if(nzs && std::is_integral_v<T>) chk(a / s, [&](U i) { return (T)(a[i] / s); }, "/ number");
  r = a; r += b; chk(r, [&](U i) { return (T)(a[i] + b[i]); }, "+="); r = a; r -= b; chk(r, [&](U i) { return (T)(a[i] - b[i]); }, "-="); r = a; r *= b; chk(r, [&](U i) { return (T)(a[i] * b[i]); }, "*="); if(nzb && std::is_integral_v<T>) { r = a; r /= b; chk(r, [&](U i) { return (T)(a[i] / b[i]); }, "/="); }
  r = a; r += s; chk(r, [&](U i) { return (T)(a[i] + s); }, "+= number"); r = a; r -= s; chk(r, [&](U i) { return (T)(a[i] - s); }, "-= number"); r = a; r *= s; chk(r, [&](U i) { return (T)(a[i] * s); }, "*= number"); if(nzs && std::is_integral_v<T>) { r = a; r /= s; chk(r, [&](U i) { return (T)(a[i] / s); }, "/= number"); }
  bool eq = true, ge = true; T in = 0; for(U i = 0; i < D; i++) { eq &= a[i] == b[i]; ge &= a[i] >= b[i]; in += a[i] * b[i]; }
  c.check((a == b) == eq && (a != b) == !eq, "equality of %s and %s", vs<T, D>(a).c_str(), vs<T, D>(b).c_str()); c.check((a >= b) == ge, "%s >= %s", vs<T, D>(a).c_str(), vs<T, D>(b).c_str()); if(!std::is_unsigned_v<T> || D < 4) c.check(VectorUtils::inner(a, b) == in, "inner product of %s and %s", vs<T, D>(a).c_str(), vs<T, D>(b).c_str());
  V<T, D> k(a); k = b; c.check(k == b, "assignment"); k = s; chk(k, [&](U) { return s; }, "assignment of a number"); V<T, D> fill((T)s); chk(fill, [&](U) { return s; }, "construction from a number"); V<T, D> mv(std::move(k)); chk(mv, [&](U) { return s; }, "move"); r = a; chk(V<T, D>(std::span<T, D>(r.begin(), D)), [&](U i) { return a[i]; }, "construction from a view");
  chk(a.template as_type<double>().template as_type<T>(), [&](U i) { return a[i]; }, "conversion to floating point and back");
  for(U i = 0; i < D; i++) { r = a; r.at(i) = s; for(U j = 0; j < D; j++) c.check(r[j] == (j == i ? s : a[j]), "at(%zu)", i); }
  for(U i : {D, D + 1, ~U(0)}) { bool threw = false; try { r.at(i); } catch(const std::out_of_range&) { threw = true; } c.check(threw, "at(%zu) of a vector of %zu elements does not report an error", i, D); }
  if constexpr(std::is_floating_point_v<T>) {
    chk(VectorUtils::min(a, b), [&](U i) { return std::min(a[i], b[i]); }, "min"); chk(VectorUtils::max(a, b), [&](U i) { return std::max(a[i], b[i]); }, "max"); chk(VectorUtils::min(a, s), [&](U i) { return std::min(a[i], s); }, "min with a number"); chk(VectorUtils::max(a, s), [&](U i) { return std::max(a[i], s); }, "max with a number");
  }
}
static void rounding(Ctx& c, bool big) {
  int k = c.range(0, big ? 4000 : 400), j = c.range(0, 9); float x = (float)k / 8, y = (float)j / 4; Vector<float, 3> v{x, y, std::nextafter((float)k, 0.0f)}; if(k == 0) v[2] = 0; c.step(); c.state(mc::mix(k, j)); c.nontrivial();
  auto up = VectorUtils::ceil_nonneg(v), dn = VectorUtils::floor_nonneg(v);
  for(U i = 0; i < 3; i++) { U f = 0; while((float)(f + 1) <= v[i]) f++; U g = (float)f == v[i] ? f : f + 1; c.check(dn[i] == f && up[i] == g, "%.9g is rounded to %zu and %zu", v[i], dn[i], up[i]); c.check(MathUtils::is_integer(v[i]) == (f == g), "%.9g is%s an integer", v[i], f == g ? "" : " not"); }
  U q = j + 1, m = 0; while(m * q < (U)k) m++; c.check(MathUtils::IntDivCeil(k, q) == m, "%d / %zu, rounded up, is %zu", k, q, MathUtils::IntDivCeil(k, q));
}
// the names of the coordinates
static void names(Ctx& c) {
  c.step(); c.nontrivial(); c.state(1);
  RZVector<float> rz{1.0f, 2.0f}; ZRVector<float> zr{1.0f, 2.0f}; RZTVector<float> rzt{1.0f, 2.0f, 3.0f}; TZRVector<float> tzr{1.0f, 2.0f, 3.0f}; XYZVector<float> xyz{1.0f, 2.0f, 3.0f}; XYZTVector<float> xyzt{1.0f, 2.0f, 3.0f, 4.0f};
  const auto &crz = rz; const auto& czr = zr; const auto& crzt = rzt; const auto& ctzr = tzr; const auto& cxyz = xyz; const auto& cxyzt = xyzt;
  c.check(rz.r() == 1 && rz.z() == 2 && crz.r() == 1 && crz.z() == 2 && RZVector<float>::r(rz) == 1 && RZVector<float>::z(rz) == 2, "r, z");
  c.check(zr.z() == 1 && zr.r() == 2 && czr.z() == 1 && czr.r() == 2 && ZRVector<float>::r(zr) == 2 && ZRVector<float>::z(zr) == 1, "z, r");
  c.check(rzt.r() == 1 && rzt.z() == 2 && rzt.t() == 3 && crzt.r() == 1 && crzt.z() == 2 && crzt.t() == 3, "r, z, t"); c.check(tzr.t() == 1 && tzr.z() == 2 && tzr.r() == 3 && ctzr.t() == 1 && ctzr.z() == 2 && ctzr.r() == 3, "t, z, r");
  c.check(xyz.x() == 1 && xyz.y() == 2 && xyz.z() == 3 && cxyz.x() == 1 && cxyz.y() == 2 && cxyz.z() == 3, "x, y, z"); c.check(xyzt.x() == 1 && xyzt.y() == 2 && xyzt.z() == 3 && xyzt.t() == 4 && cxyzt.x() == 1 && cxyzt.y() == 2 && cxyzt.z() == 3 && cxyzt.t() == 4, "x, y, z, t");
  auto v = rzt.rz_view(); c.check(v[0] == 1 && v[1] == 2, "r, z part"); auto w = tzr.zr_view(); c.check(w[0] == 2 && w[1] == 3, "z, r part"); auto z = tzr.zr(); c.check(z.z() == 2 && z.r() == 3, "copy of the z, r part");
  RZTVector<float> j(rz, 9.0f); c.check(j.r() == 1 && j.z() == 2 && j.t() == 9, "r, z joined with t"); TZRVector<float> k(9.0f, zr); c.check(k.t() == 9 && k.z() == 1 && k.r() == 2, "t joined with z, r");
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C19"; h.level = "model_checking";
  h.assumptions = {"sums of start and extent do not overflow", "the common part is asked for only if there is one", "the smaller or larger number is compared only if the result type can represent it"};
  h.space("contains", "all boxes and points in 1-3 dimensions, unsigned and signed", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(6)) { case 0: contains<U, 1>(c, 0, 7, 7); break; case 1: contains<U, 2>(c, 0, 3 + x, 3 + x); break; case 2: contains<U, 3>(c, 0, c.lite ? 1 : 2, c.lite ? 2 : 2 + x); break; case 3: contains<int, 1>(c, -6, 6, 7); break; case 4: contains<int, 2>(c, -2, 2, 3); break; default: contains<int, 3>(c, -1, c.lite ? 0 : 1, 2); } });
  h.space("pairs", "all pairs of boxes in 1-3 dimensions, unsigned and signed, also empty ones", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(6)) { case 0: pairs<U, 1>(c, 0, 7, 6, 0); break; case 1: pairs<U, 2>(c, 0, 3, 3, c.lite ? 1 : 0); break; case 2: pairs<U, 3>(c, 0, x ? 2 : 1, 2, 1); break; case 3: pairs<int, 1>(c, -4, 4, 5, 0); break; case 4: pairs<int, 2>(c, -1, 2, 3, c.lite ? 1 : 0); break; default: pairs<int, 3>(c, -1, x ? 1 : 0, 2, 1); } });
  h.space("records", "all small chunk records: growing and swapping axes", 3, [](Ctx& c) { switch(c.choose(3)) { case 0: records<1>(c); break; case 1: records<2>(c); break; default: records<3>(c); } });
  h.space("minmax", "smaller and larger elements for all 9 combinations of integer types, including extreme values", 2, [](Ctx& c) { switch(c.choose(9)) {
    case 0: minmax<U, U, 3>(c, "size_t, size_t"); break; case 1: minmax<U, int, 3>(c, "size_t, int"); break; case 2: minmax<int, U, 3>(c, "int, size_t"); break; case 3: minmax<int, int, 3>(c, "int, int"); break; case 4: minmax<unsigned, int, 2>(c, "unsigned, int"); break; case 5: minmax<int, unsigned, 2>(c, "int, unsigned"); break; case 6: minmax<long, U, 1>(c, "long, size_t"); break; case 7: minmax<U, long, 4>(c, "size_t, long"); break; default: minmax<int, long, 2>(c, "int, long"); } });
  h.space("algebra", "arithmetic, comparison, conversion of all small vectors of four types", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(6)) { case 0: algebra<U, 1>(c, 0, 5); break; case 1: algebra<U, 2>(c, 0, 3 + x); break; case 2: algebra<U, 3>(c, 0, x ? 3 : 2); break; case 3: algebra<int, 2>(c, -2, x ? 3 : 2); break; case 4: algebra<float, 2>(c, -2, x ? 3 : 2); break; default: algebra<double, 3>(c, -1, 1); } });
  h.space("rounding", "all multiples of 1/8 up to 50 (500) and the floats next to integers; integer division", 2, [](Ctx& c) { rounding(c, c.thorough); });
  h.space("names", "accessors of all coordinate vector types", 1, [](Ctx& c) { names(c); });
  return mc::run_main(h, argc, argv);
}
