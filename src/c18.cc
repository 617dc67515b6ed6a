// C18: single values, containers and records in streams.
#include "gf.hh"
#include <sstream>
#include <map>
using namespace gf;

// --- equality, bit by bit
inline bool eqb(std::uint32_t a, std::uint32_t b) { return a == b; }
inline bool eqb(std::uint64_t a, std::uint64_t b) { return a == b; }
inline bool eqb(const float& a, const float& b) { return std::memcmp(&a, &b, 4) == 0; }
inline bool eqb(const double& a, const double& b) { return std::memcmp(&a, &b, 8) == 0; }
inline bool eqb(const std::string& a, const std::string& b) { return a == b; }
template <class T> bool eqb(const std::vector<T>& a, const std::vector<T>& b);
template <class T, U n> bool eqb(const std::array<T, n>& a, const std::array<T, n>& b) { for(U i = 0; i < n; i++) if(!eqb(a[i], b[i])) return false; return true; }
template <class T, U n> bool eqb(const Vector<T, n>& a, const Vector<T, n>& b) { for(U i = 0; i < n; i++) if(!eqb(a[i], b[i])) return false; return true; }
template <class A, class B> bool eqb(const std::map<A, B>& a, const std::map<A, B>& b) { if(a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for(; i != a.end(); ++i, ++j) if(!eqb(i -> first, j -> first) || !eqb(i -> second, j -> second)) return false; return true; }
template <class T> bool eqb(const std::vector<T>& a, const std::vector<T>& b) { if(a.size() != b.size()) return false; for(U i = 0; i < a.size(); i++) if(!eqb(a[i], b[i])) return false; return true; }
template <U D> bool eqb(const ChunkMetadata<D>& a, const ChunkMetadata<D>& b) { return a.chunk_type == b.chunk_type && a.filepath == b.filepath && a.chunk_id == b.chunk_id && a.start_pos == b.start_pos && a.shape == b.shape && a.start_ind == b.start_ind && a.end_ind == b.end_ind && a.overlap == b.overlap && a.loc_ind_offset == b.loc_ind_offset; }
inline bool eqb(const CylindricalGreensFunctionMetadata& a, const CylindricalGreensFunctionMetadata& b) {
  return eqb(a.start_pos_rzt, b.start_pos_rzt) && eqb(a.end_pos_rzt, b.end_pos_rzt) && eqb(a.sample_interval_rzt, b.sample_interval_rzt) && eqb(a.start_pos_rz, b.start_pos_rz) && eqb(a.end_pos_rz, b.end_pos_rz) && eqb(a.sample_interval_rz, b.sample_interval_rz);
}
using SMeta = stor::NDVecArrayStreamerMetadata<NDVecArray, float, 3, 2>;
inline bool eqb(const SMeta& a, const SMeta& b) { return a.ser_chunk_shape == b.ser_chunk_shape && a.array_shape == b.array_shape && a.access_mode == b.access_mode; }
inline bool eqb(const stor::NDVecArrayStreamerChunkMetadata& a, const stor::NDVecArrayStreamerChunkMetadata& b) { return a.ser_mode == b.ser_mode && a.chunk_size == b.chunk_size; }

// --- values worth trying per type
template <class T> struct Gen;
template <> struct Gen<std::uint32_t> { static std::vector<std::uint32_t> all() { std::vector<std::uint32_t> v{0, 0xffffffffu, 0x01020304u, 0xf0e0d0c0u, 10000, 10}; for(int i = 0; i < 32; i++) { v.push_back(1u << i); v.push_back(~(1u << i)); } for(int b = 0; b < 4; b++) v.push_back(0xabu << (8 * b)); return v; } };
template <> struct Gen<std::uint64_t> { static std::vector<std::uint64_t> all() { std::vector<std::uint64_t> v{0, ~0ull, 0x0102030405060708ull, 0xf1e1d1c1b1a19181ull, 10000, 0xffffffffull, 0x100000000ull}; for(int i = 0; i < 64; i++) { v.push_back(1ull << i); v.push_back(~(1ull << i)); v.push_back((1ull << i) - 1); } return v; } };
template <> struct Gen<float> { static std::vector<float> all() { std::vector<float> v; for(std::uint32_t u : Gen<std::uint32_t>::all()) { float f; std::memcpy(&f, &u, 4); v.push_back(f); } for(float f : {0.0f, -0.0f, 1.0f, -1.5f, 3.4e38f, 1e-38f, 1e-45f}) v.push_back(f); return v; } };
template <> struct Gen<double> { static std::vector<double> all() { std::vector<double> v; for(std::uint64_t u : Gen<std::uint64_t>::all()) { double f; std::memcpy(&f, &u, 8); v.push_back(f); } for(double f : {0.0, -0.0, 1.0, -1.5, 1e308, 1e-308}) v.push_back(f); return v; } };
template <> struct Gen<std::string> { static std::vector<std::string> all() { std::vector<std::string> v{"", "a", std::string(1, '\0'), std::string("a\0b\0", 4), "\n", "\r\n\x1a", "\xff\xfe", std::string(300, 'x'), "6a0a5a0e-aa55-4d5b-9c53-0123456789ab", std::string(10001, 'q')}; std::string s; for(int i = 0; i < 256; i++) s += (char)i; v.push_back(s); return v; } };
template <class T> std::vector<T> few(U n) { auto a = Gen<T>::all(); std::vector<T> r; for(U i = 0; i < n; i++) r.push_back(a[(i * 17 + 2) % a.size()]); return r; }
template <class T> struct Gen<std::vector<T>> { static std::vector<std::vector<T>> all() { std::vector<std::vector<T>> r; for(U n : {0, 1, 2, 3, 7, 40}) { auto v = few<T>(n); r.push_back(v); } auto a = Gen<T>::all(); r.push_back(a); return r; } };
template <class T, U n> struct Gen<std::array<T, n>> { static std::vector<std::array<T, n>> all() { auto a = Gen<T>::all(); std::vector<std::array<T, n>> r; for(U s = 0; s < std::min<U>(a.size(), 12); s++) { std::array<T, n> x; for(U i = 0; i < n; i++) x[i] = a[(s * 5 + i * 3) % a.size()]; r.push_back(x); } return r; } };
template <class T, U n> struct Gen<Vector<T, n>> { static std::vector<Vector<T, n>> all() { auto a = Gen<T>::all(); std::vector<Vector<T, n>> r; for(U s = 0; s < a.size(); s++) { Vector<T, n> x; for(U i = 0; i < n; i++) x[i] = a[(s + i * 3) % a.size()]; r.push_back(x); } return r; } };
template <class A, class B> struct Gen<std::map<A, B>> { static std::vector<std::map<A, B>> all() { std::vector<std::map<A, B>> r; auto a = Gen<A>::all(); auto b = Gen<B>::all(); for(U n : {0, 1, 2, 5, 11}) { std::map<A, B> m; for(U i = 0; i < n; i++) m.insert({a[(i * 7 + n) % a.size()], b[(i + n) % b.size()]}); r.push_back(m); } return r; } };
template <class T> struct Gen<RZTVector<T>> { static std::vector<RZTVector<T>> all() { std::vector<RZTVector<T>> r; for(auto& v : Gen<Vector<T, 3>>::all()) r.push_back(RZTVector<T>((const Vector<T, 3>&)v)); return r; } };
template <> struct Gen<RZTCoordVector> { static std::vector<RZTCoordVector> all() { std::vector<RZTCoordVector> r; for(auto& v : Gen<Vector<float, 3>>::all()) { RZTCoordVector x; for(int i = 0; i < 3; i++) x[i] = v[i]; r.push_back(x); } return r; } };
template <> struct Gen<CylindricalGreensFunctionMetadata> { static std::vector<CylindricalGreensFunctionMetadata> all() { std::vector<CylindricalGreensFunctionMetadata> r; auto v = Gen<RZTCoordVector>::all(); for(U i = 0; i < v.size(); i++) r.push_back(CylindricalGreensFunctionMetadata(v[i], v[(i + 5) % v.size()], v[(i + 11) % v.size()])); return r; } };
template <U D> struct Gen<ChunkMetadata<D>> { static std::vector<ChunkMetadata<D>> all() {
  std::vector<ChunkMetadata<D>> r; auto names = Gen<std::string>::all();
  for(U k = 0; k < 24; k++) { Vector<U, D> s, n; for(U i = 0; i < D; i++) { s[i] = (k * 5 + i * 7) << (k % 5 * 8); n[i] = 1 + (k + i * 3) % 9; } std::string f = names[k % names.size()]; f.erase(std::remove(f.begin(), f.end(), '\0'), f.end()); r.push_back(ChunkMetadata<D>(k & 1 ? ChunkType::all_null : ChunkType::specified, f, k * 0x0a0b0c0dull % 0xffffffffull, s, n, k % 2 ? k % 4 : (U)k << (k / 2 * 4 % 40))); }
  return r;
} };
template <> struct Gen<SMeta> { static std::vector<SMeta> all() { std::vector<SMeta> r; for(U k = 0; k < 16; k++) r.push_back(SMeta(Vector<U, 3>{k % 4 == 3 ? stor::INFTY : k + 1, k * 300, 7}, Vector<U, 3>{k, 1, k << 20}, k & 1 ? stor::AccessMode::modification_allowed : stor::AccessMode::modification_not_allowed)); return r; } };
template <> struct Gen<stor::NDVecArrayStreamerChunkMetadata> { static std::vector<stor::NDVecArrayStreamerChunkMetadata> all() { std::vector<stor::NDVecArrayStreamerChunkMetadata> r; for(auto m : {stor::StreamerMode::automatic, stor::StreamerMode::dense, stor::StreamerMode::null_suppressed}) for(U s : Gen<std::uint64_t>::all()) r.push_back({m, s}); return r; } };

// --- every type, every value; something else follows and precedes
template <class T> void type(Ctx& c, const char* name) {
  auto all = Gen<T>::all(); U k = c.choose((int)all.size()); c.op("%s, value %zu", name, k); c.state(mc::mix(mc::hash_str(name), k)); c.step();
  for(U before = 0; before < 3; before++) {
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); for(U i = 0; i < before; i++) s.put('#');
    stor::Traits<T>::serialize(s, all[k]); std::streampos end = s.tellp(); stor::Traits<std::uint32_t>::serialize(s, 0xc0ffeeu);
    s.seekg(before); T x = stor::Traits<T>::deserialize(s);
    c.check(s.good(), "%s: reading value %zu fails", name, k); c.check(s.tellg() == end, "%s: value %zu takes %ld bytes, but %ld are read", name, k, (long)end - (long)before, (long)s.tellg() - (long)before);
    c.check(eqb(x, all[k]), "%s: value %zu reads back differently", name, k); c.check(stor::Traits<std::uint32_t>::deserialize(s) == 0xc0ffeeu, "%s: what follows value %zu is damaged", name, k);
    for(char ch : s.str()) c.observe((unsigned char)ch);
  }
  c.nontrivial();
}
using Types = std::vector<std::function<void(Ctx&)>>;
static Types types() {
  Types t;
#define T(...) t.push_back([](Ctx& c) { type<__VA_ARGS__>(c, #__VA_ARGS__); })
  T(std::uint32_t); T(std::uint64_t); T(float); T(double); T(std::string);
  T(std::vector<float>); T(std::vector<std::uint32_t>); T(std::vector<std::uint64_t>); T(std::vector<double>); T(std::vector<std::string>); T(std::vector<std::vector<float>>); T(std::vector<std::vector<std::string>>); T(std::vector<Vector<float, 3>>);
  T(std::array<float, 3>); T(std::array<std::string, 2>); T(std::array<std::vector<float>, 2>); T(std::array<std::uint64_t, 1>);
  T(Vector<float, 1>); T(Vector<float, 3>); T(Vector<std::uint64_t, 2>); T(Vector<std::uint64_t, 4>); T(Vector<double, 3>);
  T(std::map<std::uint32_t, float>); T(std::map<std::string, std::vector<float>>); T(std::map<std::uint64_t, std::string>); T(std::map<std::string, std::map<std::uint32_t, double>>); T(std::vector<std::map<std::uint32_t, std::string>>);
  T(RZTVector<float>); T(RZTVector<std::uint64_t>); T(RZTCoordVector); T(CylindricalGreensFunctionMetadata); T(ChunkMetadata<1>); T(ChunkMetadata<2>); T(ChunkMetadata<3>); T(SMeta); T(stor::NDVecArrayStreamerChunkMetadata);
#undef T
  return t;
}
// --- bit patterns of single values
static void words(Ctx& c) {
  // quick: every upper half with a few lower halves; thorough: every word
  U hi = c.choose(256); c.op("words %02zx......", hi);
  std::vector<std::uint32_t> lows; if(!c.thorough) for(std::uint32_t l : {0u, 1u, 0x80u, 0x100u, 0x1234u, 0x7fffu, 0x8000u, 0xffffu}) lows.push_back(l);
  for(U mid = 0; mid < (c.lite ? 16 : 256); mid++) {
    std::uint32_t base = (std::uint32_t)(hi << 24 | mid << 16); U n = c.thorough ? 65536 : lows.size();
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    for(U k = 0; k < n; k++) { std::uint32_t w = base | (c.thorough ? (std::uint32_t)k : lows[k]); float f; std::memcpy(&f, &w, 4); stor::Traits<std::uint32_t>::serialize(s, w); stor::Traits<float>::serialize(s, f); }
    U bad = 0; std::uint32_t ex = 0;
    for(U k = 0; k < n; k++) { std::uint32_t w = base | (c.thorough ? (std::uint32_t)k : lows[k]), u = stor::Traits<std::uint32_t>::deserialize(s), g; float f = stor::Traits<float>::deserialize(s); std::memcpy(&g, &f, 4); if(u != w || g != w) { bad++; ex = w; } }
    c.step(2 * n); c.state(mc::mix(hi, mid)); c.observe(base);
    c.check(bad == 0, "%zu words read back differently, for instance %08x", bad, ex);
  }
}
// --- the block-wise path for vectors of floats: the block sizes of writer and reader are independent
static void blocks(Ctx& c, U top) {
  U n = c.range(0, (int)top), b1 = c.range(1, (int)top + 1); c.op("%zu values in blocks of %zu", n, b1);
  std::vector<float> v; for(U i = 0; i < n; i++) v.push_back(pattern(i));
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); stor::Traits<std::vector<float>>::serialize(s, v, b1); std::string bytes = s.str(); c.check(bytes.size() == 8 + 4 * n, "%zu values in blocks of %zu take %zu bytes", n, b1, bytes.size());
  for(U b2 = 1; b2 <= top + 1; b2++) { s.clear(); s.seekg(0); c.step(); c.state(mc::mix(n * 1000 + b1, b2)); auto w = stor::Traits<std::vector<float>>::deserialize(s, b2); c.check(eqb(v, w) && s.good() && (U)s.tellg() == bytes.size(), "%zu values written in blocks of %zu and read in blocks of %zu read back differently", n, b1, b2); }
  if(n) c.nontrivial();
}
static void large(Ctx& c) {
  U n = c.pick({9999, 10000, 10001, 19999, 20000, 20001, 30000}); c.op("%zu values", n); c.step(); c.state(n);
  std::vector<float> v; for(U i = 0; i < n; i++) v.push_back(pattern(i)); std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
  stor::Traits<std::vector<float>>::serialize(s, v); stor::Traits<std::vector<float>>::serialize(s, {1.0f, 2.0f}); auto w = stor::Traits<std::vector<float>>::deserialize(s), x = stor::Traits<std::vector<float>>::deserialize(s);
  c.check(eqb(v, w) && eqb(x, {1.0f, 2.0f}), "%zu values read back differently", n);
}
// --- sequences of values of different type in one file, through the serializer; read in order, or each at its position
static void sequences(Ctx& c, int depth) {
  auto dir = c.scratch(); std::vector<int> t; for(int k = 0; k < depth; k++) t.push_back(c.choose(8)); stor::DefaultSerializer ser; std::vector<std::streamoff> pos;
  std::string names; for(int x : t) names += " " + std::to_string(x); c.op("types%s", names.c_str()); std::uint64_t h = 3; for(int x : t) h = mc::mix(h, x); c.state(h);
  auto put = [&](std::fstream& f, int type, U k) { auto g = [&](auto all) { ser.serialize(f, all[(k * 7 + 3) % all.size()]); };
    switch(type) { case 0: g(Gen<std::uint32_t>::all()); break; case 1: g(Gen<std::uint64_t>::all()); break; case 2: g(Gen<float>::all()); break; case 3: g(Gen<std::string>::all()); break; case 4: g(Gen<std::vector<float>>::all()); break; case 5: g(Gen<std::map<std::string, std::vector<float>>>::all()); break; case 6: g(Gen<ChunkMetadata<3>>::all()); break; default: g(Gen<CylindricalGreensFunctionMetadata>::all()); } };
  auto get = [&](std::fstream& f, int type, U k) { auto g = [&](auto all) { using X = typename decltype(all)::value_type; auto x = ser.deserialize<X>(f); c.check(f.good() && eqb(x, all[(k * 7 + 3) % all.size()]), "value %zu of type %d reads back differently", k, type); };
    c.step(); switch(type) { case 0: g(Gen<std::uint32_t>::all()); break; case 1: g(Gen<std::uint64_t>::all()); break; case 2: g(Gen<float>::all()); break; case 3: g(Gen<std::string>::all()); break; case 4: g(Gen<std::vector<float>>::all()); break; case 5: g(Gen<std::map<std::string, std::vector<float>>>::all()); break; case 6: g(Gen<ChunkMetadata<3>>::all()); break; default: g(Gen<CylindricalGreensFunctionMetadata>::all()); } };
  { std::fstream f(dir / "f", std::ios::out | std::ios::binary); for(U k = 0; k < t.size(); k++) { pos.push_back(f.tellp()); put(f, t[k], k); } pos.push_back(f.tellp()); }
  c.check((U)pos.back() == fs::file_size(dir / "f"), "the file has %zu bytes, not %ld", (U)fs::file_size(dir / "f"), (long)pos.back());
  { std::fstream f(dir / "f", std::ios::in | std::ios::binary); for(U k = 0; k < t.size(); k++) { get(f, t[k], k); c.check((std::streamoff)f.tellg() == pos[k + 1], "after value %zu, reading is at byte %ld instead of %ld", k, (long)f.tellg(), (long)pos[k + 1]); } }
  { std::fstream f(dir / "f", std::ios::in | std::ios::binary); for(U k = t.size(); k-- > 0;) { f.seekg(pos[k]); get(f, t[k], k); } }
  if(t.size() > 1) c.nontrivial();
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C18"; h.level = "model_checking";
  h.assumptions = {"chunk numbers stay below 2^32: the index file holds them in 32 bits", "streams do not fail"};
  h.space("types", "36 types (single values, strings, nested containers, vectors, all metadata records), all values of their families", 2, [](Ctx& c) { static const Types t = types(); t[c.choose((int)t.size())](c); });
  h.space("words", "32-bit integers and floats: every upper half with 8 lower halves (every single one)", 1, [](Ctx& c) { words(c); });
  h.space("blocks", "0 to 14 (24) floats, all block sizes of writer and reader", 2, [](Ctx& c) { blocks(c, c.thorough ? 24 : 14); });
  h.space("large", "vectors around multiples of the standard block size", 1, [](Ctx& c) { large(c); });
  h.space("sequences", "all sequences of 3 (5) values out of 8 types in one file", 2, [](Ctx& c) { sequences(c, c.thorough ? 5 : c.lite ? 2 : 3); });
  return mc::run_main(h, argc, argv);
}
