// C21: arrays written in the numpy format.
#include "dm.hh"
#include <sstream>
using namespace dm;

// reader for the format, written from its description; returns the shape and the payload
struct Npy { std::vector<unsigned long long> shape; std::string payload; };
static Npy parse(Ctx& c, const std::string& b) {
  Npy r; U p = 0; auto lit = [&](const char* s, const std::string& h, U& q) { U n = std::strlen(s); if(h.compare(q, n, s)) return false; q += n; return true; };
  c.check(b.size() >= 10 && b.compare(0, 6, "\x93NUMPY") == 0, "the file does not begin with the magic string");
  int major = (unsigned char)b[6], minor = (unsigned char)b[7]; c.check((major == 1 || major == 2 || major == 3) && minor == 0, "format version %d.%d", major, minor);
  U hl, start; if(major == 1) { hl = (unsigned char)b[8] | (unsigned char)b[9] << 8; start = 10; } else { hl = 0; for(int i = 3; i >= 0; i--) hl = hl << 8 | (unsigned char)b[8 + i]; start = 12; }
  c.check(start + hl <= b.size(), "the header (%zu bytes) is longer than the file", hl); c.check((start + hl) % 64 == 0, "the data begin at byte %zu, which is not a multiple of 64", start + hl);
  std::string h = b.substr(start, hl); c.check(!h.empty() && h.back() == '\n', "the header does not end with a newline"); h.pop_back(); while(!h.empty() && h.back() == ' ') h.pop_back();
  // a dictionary literal with the three keys in any order
  p = 0; auto ws = [&] { while(p < h.size() && h[p] == ' ') p++; }; ws(); c.check(p < h.size() && h[p] == '{', "the header is not a dictionary: %s", h.c_str()); p++;
  bool d = false, f = false, s = false;
  while(true) {
    ws(); if(p < h.size() && h[p] == '}') { p++; break; }
    c.check(p < h.size() && (h[p] == '\'' || h[p] == '"'), "the header is malformed: %s", h.c_str()); char qu = h[p++]; U e = h.find(qu, p); c.check(e != std::string::npos, "the header is malformed: %s", h.c_str()); std::string key = h.substr(p, e - p); p = e + 1; ws(); c.check(p < h.size() && h[p] == ':', "the header is malformed: %s", h.c_str()); p++; ws();
    if(key == "descr") { d = true; c.check(lit("'>f4'", h, p) || lit("\">f4\"", h, p), "the element type is not big-endian single precision: %s", h.c_str()); }
    else if(key == "fortran_order") { f = true; c.check(lit("False", h, p), "the order is not C order: %s", h.c_str()); }
    else if(key == "shape") {
      s = true; c.check(lit("(", h, p), "the shape is not a tuple: %s", h.c_str());
      while(true) { ws(); if(lit(")", h, p)) break; U q = p; unsigned long long x = 0; while(q < h.size() && std::isdigit((unsigned char)h[q])) x = x * 10 + (h[q++] - '0'); c.check(q > p, "the shape is malformed: %s", h.c_str()); c.check(h[p] != '0' || q == p + 1, "leading zeros in the shape: %s", h.c_str()); p = q; r.shape.push_back(x); ws(); if(p < h.size() && h[p] == ',') p++; else c.check(p < h.size() && h[p] == ')' && r.shape.size() > 1, "the shape is malformed: %s", h.c_str()); }
    }
    else c.fail("unknown key in header: " + h);
    ws(); if(p < h.size() && h[p] == ',') p++;
  }
  c.check(p == h.size() && d && f && s, "the header is incomplete: %s", h.c_str());
  r.payload = b.substr(start + hl); return r;
}
template <U D, U W> using Want = std::function<float(const Ind<D>&, U)>;
// the export of a has the shape and the values given (by default those that it reads)
template <U D, U W> void compare(Ctx& c, const Arr<D, W>& a, U before, Ind<D> ws = Ind<D>(U(0)), const Want<D, W>& want = nullptr) {
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); for(U i = 0; i < before; i++) s.put('#');
  c.step(); stor::Traits<Arr<D, W>>::serialize_to_numpy(s, a); std::string b = s.str().substr(before); Npy n = parse(c, b); const Ind<D> shape = want ? ws : Ind<D>(a.GetShape()); c.observe(b.size());
  c.check(n.shape.size() == D + 1, "%zu axes instead of %zu", (U)n.shape.size(), D + 1); for(U i = 0; i < D; i++) c.check(n.shape[i] == shape[i], "axis %zu has %llu elements instead of %zu", i, n.shape[i], shape[i]); c.check(n.shape[D] == W, "%llu components instead of %zu", n.shape[D], W);
  c.check(n.payload.size() == 4 * W * count<D>(shape), "%zu bytes of data instead of %zu", (U)n.payload.size(), 4 * W * count<D>(shape)); U q = 0;
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) { for(U k = 0; k < W; k++) { std::uint32_t u = 0, v; for(int j = 0; j < 4; j++) u = u << 8 | (unsigned char)n.payload[q++]; float x = want ? want(i, k) : (float)a[i][k]; std::memcpy(&v, &x, 4); c.observe(u); c.check(u == v, "component %zu at %s is written as %08x instead of %08x", k, str<U, D>(i).c_str(), u, v); } });
}
static float val(U q, bool odd) { static const std::uint32_t sp[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 1u, 0x807fffffu, 0x01020304u, 0u}; float f; if(odd) { std::memcpy(&f, &sp[q % 8], 4); return f; } U h = q * 2654435761u + 99; return (float)(h % 100003) - 50000.25f; }
template <U D, U W> void put(Arr<D, W>& a, bool odd, U seed = 0) { U q = seed; each<D>(Ind<D>(U(0)), Ind<D>(a.GetShape()), [&](const Ind<D>& i) { for(U k = 0; k < W; k++) a[i][k] = val(q++, odd); }); }

// all small shapes, with the array obtained in all possible ways
template <U D, U W> void small(Ctx& c, U top) {
  Ind<D> shape = pick_ind<D>(c, 1, top); int how = c.choose(8); bool odd = c.flag(); c.op("shape %s x %zu, way %d%s", str<U, D>(shape).c_str(), W, how, odd ? ", special values" : ""); c.state(hash_ind<D>(shape, how * 2 + odd + 100 * W)); c.nontrivial();
  // what put() writes at an element of an array of a given shape
  auto at = [odd](const Ind<D>& i, const Ind<D>& s, U k, U seed = 0) { return val(seed + flat<D>(i, s) * W + k, odd); };
  Want<D, W> want = [&](const Ind<D>& i, U k) { return at(i, shape, k); };
  Arr<D, W> a(shape, 1.5f); Ind<D> as = shape;
  switch(how) {
    case 0: put<D, W>(a, odd); break;
    case 1: { Arr<D, W> b(Ind<D>(shape + U(2)), -1.0f); b.resize(shape); put<D, W>(b, odd); compare<D, W>(c, b, 3, shape, want); return; }
    case 2: { Arr<D, W> b(Ind<D>(U(1)), -1.0f); b.resize(shape); put<D, W>(b, odd); compare<D, W>(c, b, 0, shape, want); return; }
    case 3: {
      Ind<D> big(shape + U(2)); Arr<D, W> b(big, -1.0f); put<D, W>(b, odd); Arr<D, W> v = b.View(Ind<D>(U(1)), Ind<D>(shape + U(1)));
      Want<D, W> part = [&](const Ind<D>& i, U k) { return at(Ind<D>(i + U(1)), big, k); };
      Arr<D, W> w(v); compare<D, W>(c, w, 0, shape, part); a = v; compare<D, W>(c, a, how, shape, part); return;
    }
    case 4: { Arr<D, W> b(shape, 0.0f); put<D, W>(b, odd); Arr<D, W> w(Ind<D>(shape + U(1)), 3.0f); w = b; compare<D, W>(c, w, 0, shape, want); Arr<D, W> x(b); compare<D, W>(c, x, 0, shape, want); return; }
    case 5: { Arr<D, W> b(shape, 0.0f); put<D, W>(b, odd); put<D, W>(a, odd, 77); a.template Append<0>(b); as[0] *= 2; want = [&](const Ind<D>& i, U k) { Ind<D> j = i; bool first = i[0] < shape[0]; if(!first) j[0] -= shape[0]; return at(j, shape, k, first ? 77 : 0); }; break; }
    case 6: { put<D, W>(a, odd); if constexpr(D > 1) { Arr<D, W> b(Ind<D>(U(1)), 0.0f); a.template SwapAxes<0, D - 1>(b); Ind<D> sw = shape; std::swap(sw[0], sw[D - 1]); compare<D, W>(c, b, 0, sw, [&](const Ind<D>& i, U k) { Ind<D> j = i; std::swap(j[0], j[D - 1]); return at(j, shape, k); }); } break; }
    default: put<D, W>(a, odd); a.clear(); want = [](const Ind<D>&, U) { return 0.0f; }; break;
  }
  compare<D, W>(c, a, how, as, want);
}
// long headers and empty arrays: up to six axes, extents with up to 12 digits where another axis is empty
template <U D> void headers(Ctx& c, int digits) {
  std::vector<U> ext{1, 9, 10, 99, 1000}; Ind<D> shape(U(1)); shape[c.choose((int)D)] = 0;
  for(U i = 0; i < D; i++) if(shape[i]) { U d = c.range(0, digits); U x = 1; for(U k = 0; k < d; k++) x *= 10; shape[i] = x; }
  // strides may overflow in size, but no element exists
  c.op("shape %s", str<U, D>(shape).c_str()); c.state(hash_ind<D>(shape, 5)); Arr<D, 2> a(shape); compare<D, 2>(c, a, 0); c.nontrivial();
}
// one axis of any length, the others of two possible lengths: the text of the shape takes every length up to more than two blocks of 64 bytes
template <U D> void long_headers(Ctx& c) {
  U d = c.range(0, 18), e = c.pick({0, 6, 12, 18}), n = c.range(0, (int)D - 2); Ind<D> shape(U(1)); shape[D - 1] = 0; auto pow = [](U k) { U x = 1; while(k--) x *= 10; return x; };
  shape[0] = pow(d); for(U i = 1; i < D - 1; i++) shape[i] = pow(i <= n ? e : 0);
  c.op("shape %s", str<U, D>(shape).c_str()); c.state(hash_ind<D>(shape, 6)); Arr<D, 2> a(shape); compare<D, 2>(c, a, 0); c.nontrivial();
}
// arrays of many axes: headers of more than 255 bytes
template <U D> void many_axes(Ctx& c) {
  Ind<D> shape(U(1)); U d = c.choose((int)D), n = c.pick({1, 3, 12}); shape[d] = n; c.op("%zu axes, %zu elements along axis %zu", D, n, d); c.state(hash_ind<D>(shape, 7)); Arr<D, 2> a(shape, 0.0f);
  Ind<D> i(U(0)); for(U k = 0; k < n; k++) { i[d] = k; for(U w = 0; w < 2; w++) a[i][w] = val(k * 2 + w, false); }
  compare<D, 2>(c, a, 0, shape, [d](const Ind<D>& i, U w) { return val(i[d] * 2 + w, false); }); c.nontrivial();
}
// the data are written block by block
template <U W> void blocks(Ctx& c) {
  U n = c.pick({4999, 5000, 5001, 9999, 10000, 10001, 20000, 20001}); c.op("%zu elements x %zu", n, W); c.state(n * 4 + W); Arr<1, W> a(Ind<1>(n), 0.0f); put<1, W>(a, false); compare<1, W>(c, a, 0); c.nontrivial();
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C21"; h.level = "model_checking";
  h.assumptions = {"arrays own their data; views are copied first, as the code demands", "single-precision elements, the only element type with an export"};
  h.space("small", "all shapes up to 5 (9) in 1-3 dimensions, obtained in 8 ways, ordinary and special values", 2, [](Ctx& c) { U x = c.thorough; switch(c.choose(6)) { case 0: small<1, 1>(c, 12 + 100 * x); break; case 1: small<1, 2>(c, 12); break; case 2: small<2, 2>(c, c.lite ? 3 : 5 + 6 * x); break; case 3: small<2, 1>(c, 4); break; case 4: small<3, 2>(c, c.lite ? 2 : 3 + 2 * x); break; default: small<3, 3>(c, 2 + x); } });
  h.space("headers", "headers of every length: up to six axes with extents of up to 13 digits of empty arrays", 3, [](Ctx& c) { int x = c.thorough; switch(c.choose(6)) { case 0: headers<1>(c, 12); break; case 1: headers<2>(c, 16); break; case 2: headers<3>(c, 9); break; case 3: headers<4>(c, x ? 8 : 4); break; case 4: headers<5>(c, x ? 5 : 3); break; default: headers<6>(c, c.lite ? 1 : 3); } });
  h.space("long headers", "empty arrays with 4-8 axes of up to 19 digits: headers of up to 256 bytes, of every length", 1, [](Ctx& c) { switch(c.choose(5)) { case 0: long_headers<4>(c); break; case 1: long_headers<5>(c); break; case 2: long_headers<6>(c); break; case 3: long_headers<7>(c); break; default: long_headers<8>(c); } });
  h.space("many axes", "arrays of 48 to 100 axes: headers of more than 256 bytes", 1, [](Ctx& c) { switch(c.choose(4)) { case 0: many_axes<48>(c); break; case 1: many_axes<63>(c); break; case 2: many_axes<64>(c); break; default: many_axes<100>(c); } });
  h.space("blocks", "numbers of elements around multiples of the block size of the writer", 1, [](Ctx& c) { switch(c.choose(3)) { case 0: blocks<1>(c); break; case 1: blocks<2>(c); break; default: blocks<3>(c); } });
  return mc::run_main(h, argc, argv);
}
