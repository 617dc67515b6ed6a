// C04: NDVecArrayStreamer against a logical array that grows by concatenation.
#include "vf.hh"
#include <arpa/inet.h>
#include "NDVecArray.hh"
#include "NDVecArrayStreamer.hh"

template <U D, U V> using Arr = NDVecArray<float, D, V>;
template <U D, U V> using Streamer = stor::NDVecArrayStreamer<NDVecArray, float, D, V>;

template <U D, U V> Arr<D, V> to_array(const Ref<D, V>& r) { Arr<D, V> a(r.shape); each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) a[i][k] = r.at(i, k); }); return a; }
template <U D, U V> void compare(Ctx& c, const Arr<D, V>& a, const Ref<D, V>& r, const char* what) {
  c.check(a.GetShape() == r.shape, "%s: shape %s, expected %s", what, str(a.GetShape()).c_str(), str(r.shape).c_str());
  each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) {
    auto e = a[i];
    for(U k = 0; k < V; k++) {
      float x = e[k], y = r.at(i, k); std::uint32_t bx, by; std::memcpy(&bx, &x, 4); std::memcpy(&by, &y, 4);
      bool zeros = (bx << 1) == 0 && (by << 1) == 0;
      c.check(bx == by || zeros, "%s: element %s component %zu reads %g (%08x), expected %g (%08x)", what, str(i).c_str(), k, (double)x, bx, (double)y, by);
      c.observe_f(x);
    }
  });
}
static float value(U i) { const float special[] = {1.0f, -2.5f, 3.4e38f, -3.0e38f, 1.5e-38f, -1.2e-38f, 1.1754944e-38f, 16777215.0f}; return i % 3 ? (float)(i + 1) * 0.37f : special[(i / 3) % 8] * (1.0f); }

// patterns of nulls
template <U D, U V> void pattern(Ref<D, V>& r, int p, U tag) {
  U n = count<D>(r.shape), q = 0;
  each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) {
    bool null = p == 0 ? false : p == 1 ? true : p == 2 ? q % 2 == 0 : p == 3 ? q % 2 == 1 : p == 4 ? q < n / 2 : p == 5 ? q >= n / 2 : p == 6 ? q != n / 2 : q % 3 == 0;
    for(U k = 0; k < V; k++) {
      float x = value(tag * 131 + q * V + k);
      if(p == 7 && q % 3 == 1 && k + 1 < V) x = 0.0f;         // partially null element
      r.set(i, k, null ? 0.0f : x);
    }
    q++;
  });
}
constexpr int npatterns = 8;

static void rewind_to(std::fstream& f, std::streampos p) { f.clear(); f.seekg(p); f.seekp(p); }

template <U D> std::vector<U> ser_menu(U maxext) { std::vector<U> m; for(U i = 1; i <= maxext; i++) m.push_back(i); m.push_back(stor::INFTY); return m; }
template <U D> Ind<D> pick_ser(Ctx& c, U maxext) {
  auto m = ser_menu<D>(maxext); Ind<D> s; bool ok = false;
  for(U d = 0; d < D; d++) { s[d] = c.pick(m); ok |= s[d] != stor::INFTY; }
  if(!ok) c.prune();
  return s;
}
template <U D> std::string sstr(const Ind<D>& s) { std::string r = "("; for(U d = 0; d < D; d++) r += (d ? "," : "") + (s[d] == stor::INFTY ? std::string("inf") : std::to_string(s[d])); return r + ")"; }

// ---- write, (finalize,) read
template <U D, U V> void roundtrip(Ctx& c, U maxext) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext), ser = pick_ser<D>(c, maxext);
  auto mode = c.choose(2) ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense;
  int pat = c.choose(npatterns);
  bool final = c.flag(), prefix = c.flag(), view = c.flag();
  U buflen = c.pick({(U)1, (U)10000});
  c.op("serialize %s in chunks %s, mode %d, pattern %d%s%s%s", str(shape).c_str(), sstr(ser).c_str(), (int)mode, pat, final ? ", finalized" : "", prefix ? ", behind other data" : "", view ? ", from a view" : "");
  c.state(hash_ind<D>(ser, hash_ind<D>(shape, pat * 16 + (int)mode * 8 + final * 4 + prefix * 2 + view)));
  Ref<D, V> r(shape); pattern<D, V>(r, pat, 1);
  Arr<D, V> own = to_array<D, V>(r), parent(shape + (U)2, 8.0f);
  parent.fill_from(own, Ind<D>(U(0)), shape, Ind<D>(U(1)));
  Arr<D, V> v = parent.View(Ind<D>(U(1)), shape + (U)1);
  auto dir = c.scratch();
  std::fstream f(dir / "x", std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  if(prefix) { const char junk[] = "0123456789a"; f.write(junk, 11); }
  std::streampos p0 = f.tellp();
  Streamer<D, V> s(buflen);
  s.serialize(f, view ? v : own, ser, mode);
  std::streampos p1 = f.tellp();
  Ref<D, V> r2(shape); pattern<D, V>(r2, (pat + 3) % npatterns, 2);
  s.serialize(f, to_array<D, V>(r2), ser, mode);            // more data follows
  c.check(f.good(), "stream failed while writing");
  if(final) { rewind_to(f, p0); s.mark_as_final(f); }
  std::streampos size = (f.clear(), f.seekp(0, std::ios::end), f.tellp());
  f.flush();
  for(int pass = 0; pass < 2; pass++) {
    std::fstream g(dir / "x", std::ios::in | std::ios::out | std::ios::binary);
    rewind_to(g, p0);
    Streamer<D, V> s2(pass ? 1 : 10000);
    Ind<D> any(U(2)); Arr<D, V> back(any, 4.0f);
    (pass ? s : s2).deserialize(g, back);
    compare<D, V>(c, back, r, "array read back");
    c.check(g.good() && g.tellg() == p1, "reading the array consumed %ld bytes, it was written with %ld", (long)(g.tellg() - p0), (long)(p1 - p0));
    (pass ? s : s2).deserialize(g, back);
    compare<D, V>(c, back, r2, "second array read back");
    c.check(g.good() && g.tellg() == size, "reading the second array stopped at %ld of %ld", (long)g.tellg(), (long)size);
    if(prefix) { rewind_to(g, 0); char b[12] = {}; g.read(b, 11); c.check(std::string(b) == "0123456789a", "preceding data was altered"); }
    c.step(2);
  }
}

// ---- all null patterns
template <U D, U V> void nullpatterns(Ctx& c, const Ind<D>& shape, int kinds) {
  Ind<D> ser; ser = Ind<D>(stor::INFTY); ser[0] = c.pick({(U)1, (U)2, (U)3, (U)100});
  Ref<D, V> r(shape); std::string bits; U q = 0;
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) {
    int k = c.choose(kinds); bits += (char)('0' + k);
    for(U j = 0; j < V; j++) { float x = value(q * V + j); r.set(i, j, k == 0 ? 0.0f : k == 1 ? x : k == 2 ? (j == 0 ? 0.0f : x) : k == 3 ? (j + 1 == V ? 0.0f : x) : (j ? -0.0f : 0.0f)); }
    q++;
  });
  c.op("null pattern %s of %s in chunks %s", bits.c_str(), str(shape).c_str(), sstr(ser).c_str());
  c.state(mc::hash_str(bits + str(shape) + sstr(ser)));
  std::stringstream dummy;
  auto dir = c.scratch();
  std::fstream f(dir / "x", std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  Streamer<D, V> s(1);
  Arr<D, V> a = to_array<D, V>(r);
  s.serialize(f, a, ser, stor::StreamerMode::null_suppressed);
  std::streampos end = f.tellp();
  rewind_to(f, 0);
  Ind<D> any(U(1)); Arr<D, V> back(any);
  s.deserialize(f, back);
  compare<D, V>(c, back, r, "array read back");
  c.check(f.tellg() == end, "reading consumed %ld of %ld bytes", (long)f.tellg(), (long)end);
}

// ---- long runs (buffer growth, long streaks)
template <U D, U V> void longer(Ctx& c, const std::vector<int>& exts) {
  Ind<D> shape, ser; for(U d = 0; d < D; d++) { shape[d] = c.pick(exts); ser[d] = c.pick({(U)1, (U)7, (U)16, stor::INFTY}); }
  bool ok = false; for(U d = 0; d < D; d++) ok |= ser[d] != stor::INFTY; if(!ok) c.prune();
  int pat = c.choose(npatterns + 1), m = c.choose(2); U buflen = c.pick({(U)0, (U)10000});
  c.op("long array %s in chunks %s, mode %d, pattern %d", str(shape).c_str(), sstr(ser).c_str(), m, pat);
  c.state(hash_ind<D>(ser, hash_ind<D>(shape, pat * 2 + m)));
  Ref<D, V> r(shape); if(pat == npatterns) { U q = 0; each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, (q * q / 5) % 7 < 4 ? 0.0f : value(q * V + k)); q++; }); } else pattern<D, V>(r, pat, 1);
  auto dir = c.scratch();
  std::fstream f(dir / "x", std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  Streamer<D, V> s(buflen);
  s.serialize(f, to_array<D, V>(r), ser, m ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense);
  rewind_to(f, 0);
  Streamer<D, V> s2; Ind<D> any(U(1)); Arr<D, V> back(any);
  s2.deserialize(f, back);
  compare<D, V>(c, back, r, "array read back");
}

// ---- one long streak of nulls (or of values) between two values, at the lengths where narrower counters would overflow
template <U V> void streaks(Ctx& c, bool big) {
  std::vector<int> lens{127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537}; if(big) for(int l : {32769, 131071, 131072, 196608, 1048577}) lens.push_back(l);
  U len = c.pick(lens), before = c.choose(3), after = c.choose(3); bool null = c.choose(2) == 0; U ser = c.pick({(U)1 << 21, (U)65536, (U)50000}); int m = c.choose(2); if(ser < ((U)1 << 21) && len < 60000) c.prune();
  c.op("%zu %s elements between %zu and %zu others, chunks of %zu, mode %d", len, null ? "null" : "full", before, after, ser, m); c.state(mc::mix(len, mc::mix(ser, before * 16 + after * 4 + null * 2 + m)));
  U n = before + len + after; Arr<1, V> a(n, 0.0f); auto dir = c.scratch();
  auto want = [&](U i, U k) -> float { bool in = i >= before && i < before + len; return in == null ? 0.0f : 0.25f + (float)((i * 7 + k) % 8191); };
  for(U i = 0; i < n; i++) for(U k = 0; k < V; k++) a[Ind<1>(i)][k] = want(i, k);
  std::fstream f(dir / "x", std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  Streamer<1, V> s(U(16)); s.serialize(f, a, Ind<1>(ser), m ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense);
  std::streampos end = f.tellp(); rewind_to(f, 0);
  Streamer<1, V> s2; Arr<1, V> back(U(1), 3.0f); s2.deserialize(f, back); c.step();
  c.check(back.GetShape()[0] == n, "array read back has %zu elements, expected %zu", (U)back.GetShape()[0], n);
  for(U i = 0; i < n; i++) for(U k = 0; k < V; k++) { float x = back[Ind<1>(i)][k]; c.check(x == want(i, k), "element %zu component %zu reads %g, expected %g", i, k, (double)x, (double)want(i, k)); }
  c.observe_f(back[Ind<1>(n / 2)][0]); c.check(f.tellg() == end, "reading consumed %ld of %ld bytes", (long)f.tellg(), (long)end);
}

// ---- appending
template <U D, U V> Ref<D, V> concat(const Ref<D, V>& a, const Ref<D, V>& b, U axis) {
  Ind<D> s = a.shape; s[axis] += b.shape[axis]; Ref<D, V> r(s);
  each<D>(Ind<D>(U(0)), s, [&](const Ind<D>& i) { Ind<D> j = i; bool first = i[axis] < a.shape[axis]; if(!first) j[axis] -= a.shape[axis]; for(U k = 0; k < V; k++) r.set(i, k, first ? a.at(j, k) : b.at(j, k)); });
  return r;
}
template <U D, U V> void append(Ctx& c, U maxext, U maxser, int nmax, U maxthick, bool bad_shapes, U minthick = 1) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext), ser = pick_ser<D>(c, maxser);
  int mode0 = c.choose(2); std::streampos p0 = bad_shapes || c.flag() ? 5000 : 0;
  Ref<D, V> r(shape); pattern<D, V>(r, 7, 1);
  auto dir = c.scratch();
  std::string file = dir / "x", junk; for(int k = 0; k < p0; k++) junk += (char)('A' + k % 57);
  Streamer<D, V> s(3);
  { std::fstream f(file, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc); f.write(junk.data(), junk.size()); s.serialize(f, to_array<D, V>(r), ser, mode0 ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense); }
  c.op("serialize %s in chunks %s, mode %d%s", str(shape).c_str(), sstr(ser).c_str(), mode0, junk.empty() ? "" : ", behind other data");
  bool final = false, other_axes_even = true;
  for(U d = 0; d < D; d++) other_axes_even &= ser[d] >= shape[d] || shape[d] % ser[d] == 0;
  std::fstream f(file, std::ios::in | std::ios::out | std::ios::binary);
  for(int n = 0; n < nmax; n++) {
    int what = c.choose(bad_shapes ? 4 : 3);
    if(what == 2) { c.op("finalize"); rewind_to(f, p0); s.mark_as_final(f); final = true; }
    else {
      U axis = c.choose((int)D), thick = c.range((int)minthick, (int)maxthick);
      Ind<D> ss = r.shape; ss[axis] = thick;
      if(what == 3) { U d = c.choose((int)D); if(D == 1 || d == axis) c.prune(); ss[d] += 1; }
      Ref<D, V> sl(ss); pattern<D, V>(sl, what == 1 ? (n % 2 ? 2 : 1) : n % 2 ? 6 : 0, 7 + n);
      auto mode = what == 1 ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense;
      c.op("append %s along axis %zu, mode %d", str(ss).c_str(), axis, what);
      // what has been written so far and the slice, one after the other, are the chunks of the concatenation iff
      bool admissible = ser[axis] <= r.shape[axis] && r.shape[axis] % ser[axis] == 0;
      for(U d = 0; d < axis; d++) admissible &= ser[d] >= r.shape[d];
      bool even = true;      // every chunk has the requested size, so nothing speaks against appending
      for(U d = 0; d < D; d++) even &= d == axis || ser[d] >= r.shape[d] || r.shape[d] % ser[d] == 0;
      bool threw = false; std::string msg;
      rewind_to(f, p0);
      try { s.append_slice(f, to_array<D, V>(sl), axis, mode); } catch(const std::exception& e) { threw = true; msg = e.what(); }
      if(what == 3) c.check(threw, "appending a slice of shape %s to an array of shape %s along axis %zu is not reported as an error", str(ss).c_str(), str(r.shape).c_str(), axis);
      else if(final) c.check(threw, "appending to a finalized array is not reported as an error");
      else if(!admissible) c.check(threw, "appending along axis %zu is not reported as an error although serialization chunks %s of an array of shape %s do not admit it", axis, sstr(ser).c_str(), str(r.shape).c_str());
      else if(even) c.check(!threw, "appending along axis %zu to an array of shape %s with serialization chunks %s fails: %s", axis, str(r.shape).c_str(), sstr(ser).c_str(), msg.c_str());
      if(!threw) r = concat<D, V>(r, sl, axis);
    }
    std::uint64_t h = hash_ind<D>(ser, hash_ind<D>(r.shape, final * 2 + mode0)); c.state(h);
    f.flush();
    std::fstream g(file, std::ios::in | std::ios::out | std::ios::binary);
    Streamer<D, V> s2; Ind<D> any(U(1)); Arr<D, V> back(any); rewind_to(g, p0);
    s2.deserialize(g, back);
    compare<D, V>(c, back, r, "array read back");
    rewind_to(f, p0); s.deserialize(f, back); compare<D, V>(c, back, r, "array read back by the writer");
    if(!junk.empty()) { std::string b(junk.size(), ' '); rewind_to(g, 0); g.read(b.data(), b.size()); c.check(b == junk, "the data in front of the array was altered"); }
  }
}

// ---- requests that cannot be served
void rejected(Ctx& c) {
  auto dir = c.scratch();
  std::fstream f(dir / "x", std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  Streamer<2, 2> s; Ind<2> shape{(U)2, (U)3}; Arr<2, 2> a(shape, 1.0f);
  int which = c.choose(2); bool threw = false;
  c.op("request %d", which);
  try { if(which == 0) s.serialize(f, a, Ind<2>{stor::INFTY, stor::INFTY}, stor::StreamerMode::dense); else s.serialize(f, a, Ind<2>{(U)1, stor::INFTY}, stor::StreamerMode::automatic); } catch(const std::exception&) { threw = true; }
  c.check(threw, "a serialization request that cannot be served is not reported as an error");
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C04"; h.level = "model_checking";
  h.assumptions = {"finite, normal values (denormals are flushed to zero by the project's own compiler flags)", "an array that is appended to is the last item of its stream", "at least one axis of the serialization chunk is specified"};
  h.space("roundtrip-1d", "shapes up to 4, all serialization chunks, both modes, 8 null patterns, finalized or not, with and without preceding data, arrays and views, two buffer sizes", 4, [](Ctx& c) { roundtrip<1, 2>(c, 4); });
  h.space("roundtrip-2d", "shapes up to 2x2 (3x3 thorough), as above", 6, [](Ctx& c) { roundtrip<2, 2>(c, c.thorough ? 3 : 2); });
  h.space("roundtrip-3d", "shapes up to 2x2x2 (3x3x3 thorough), as above", 7, [](Ctx& c) { roundtrip<3, 2>(c, c.thorough ? 3 : 2); }, 0);
  h.space("roundtrip-3d-v3", "shapes up to 2x2x2, three components", 7, [](Ctx& c) { if(c.thorough) roundtrip<3, 3>(c, 2); else roundtrip<2, 3>(c, 2); });
  h.space("roundtrip-2d-v1", "shapes up to 3x3, scalar elements", 7, [](Ctx& c) { roundtrip<2, 1>(c, 3); }, 0);
  h.space("nulls-1d", "all sequences of 6 (8) elements that are null, full, or partially null", 3, [](Ctx& c) { nullpatterns<1, 2>(c, Ind<1>((U)(c.thorough ? 7 : c.lite ? 4 : 6)), c.thorough ? 5 : 4); });
  h.space("nulls-1d-v1", "all null patterns of 10 (14) scalars", 3, [](Ctx& c) { nullpatterns<1, 1>(c, Ind<1>((U)(c.thorough ? 14 : c.lite ? 6 : 10)), 2); });
  h.space("nulls-2d", "all null patterns of 3x3 elements with three components", 3, [](Ctx& c) { nullpatterns<2, 3>(c, {(U)3, (U)3}, c.thorough ? 3 : 2); });
  h.space("nulls-3d", "all null patterns of 2x2x2 elements", 3, [](Ctx& c) { nullpatterns<3, 2>(c, {(U)2, (U)2, (U)2}, c.thorough ? 3 : 2); });
  h.space("longer", "arrays of up to 6000 elements, with buffers that must grow, 9 null patterns", 3, [](Ctx& c) { int d = c.range(1, 3); if(d == 1) longer<1, 2>(c, {100, 5001, 6000}); else if(d == 2) longer<2, 2>(c, {1, 33, 64}); else longer<3, 2>(c, {3, 16}); });
  h.space("streaks", "single streaks of nulls or values of 127 to 65537 (1048577) elements between 0 to 2 others", 3, [](Ctx& c) { if(c.flag()) streaks<1>(c, c.thorough); else streaks<2>(c, c.thorough); }, 1);
  h.space("append-1d", "all sequences of 3 (4) operations: append dense or null-suppressed slices of thickness 0-3, finalize; the array at the start of the file or behind other data", 3, [](Ctx& c) { append<1, 2>(c, 3, 4, c.thorough ? 4 : c.lite ? 2 : 3, 3, false, 0); });
  h.space("append-2d", "all sequences of 2 (3) operations on shapes up to 2x2 (3x3), all axes, all serialization chunks, incompatible slices", 4, [](Ctx& c) { append<2, 2>(c, c.thorough ? 3 : 2, 3, c.thorough ? 3 : 2, 2, true); });
  h.space("append-3d", "all sequences of 2 operations on shapes up to 2x2x2, all axes, all serialization chunks", 5, [](Ctx& c) { append<3, 2>(c, 2, c.thorough ? 3 : 2, c.lite ? 1 : 2, c.thorough ? 2 : 1, false); });
  h.space("rejected", "serialization requests that cannot be served", 1, rejected);
  return mc::run_main(h, argc, argv);
}
