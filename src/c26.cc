// C26: the shower library: reading of files, selection of showers, and the tracks made of them.
#include "vf.hh"
#include "Current.hh"
#include "shower_creator.h"
#include "shower_1D.h"
#include <iostream>
namespace fs = std::filesystem;

// the source of random numbers is enumerated
static unsigned next_random = 0; static U drawn = 0;
std::random_device::result_type std::random_device::_M_getval() { drawn++; return next_random; }

// density of ice in kg / m^3, speed of light in m / ns
static const double density = 917, light = 0.299792458;
struct Record { int kind; double energy; std::vector<double> g, q; };
static void put(std::string& s, const void* p, U n) { s.append((const char*)p, n); }
static std::string bytes(const Record& r) { std::string s; std::int32_t n = (std::int32_t)r.g.size(), k = r.kind; put(s, &n, 4); put(s, &k, 4); put(s, &r.energy, 8); put(s, r.g.data(), 8 * r.g.size()); put(s, r.q.data(), 8 * r.q.size()); return s; }
static void write(const fs::path& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), s.size()); }
// charge at a traversed grammage
static double charge(const Record& r, double s) {
  U i = 0; while(i < r.g.size() && r.g[i] < s) i++; if(i == 0) return r.q[0]; if(i == r.g.size()) return r.q.back();
  return r.q[i - 1] + (r.q[i] - r.q[i - 1]) * ((s - r.g[i - 1]) / (r.g[i] - r.g[i - 1]));
}
struct Ask { std::array<float, 3> pos; double en, zen, az, dt; };
struct Points { std::vector<double> t, x, y, z, q; };
static Points points(showers::Shower1D& s, double dt, const Points& before = {}) { Points p = before; s.get_shower(dt, &p.t, &p.x, &p.y, &p.z, &p.q); return p; }
static void judge(Ctx& c, const Points& p, const Record& r, const Ask& a) {
  const double dg = density * light * a.dt, all = r.g.back(), ratio = a.en / r.energy; double most = 0; for(double q : r.q) most = std::max(most, std::fabs(q * ratio));
  // ends where the traversed grammage reaches the end of the profile
  const U n = p.t.size(); c.observe(n); c.check(n >= 1 && p.x.size() == n && p.y.size() == n && p.z.size() == n && p.q.size() == n, "%zu times, positions %zu, %zu, %zu, %zu charges", n, (U)p.x.size(), (U)p.y.size(), (U)p.z.size(), (U)p.q.size());
  c.check(n * dg >= all * (1 - 1e-9), "the track ends after %zu points, having passed %.9g of %.9g kg/m^2", n, n * dg, all); c.check((n - 1) * dg <= all * (1 + 1e-9), "the track has %zu points, beyond the end of the shower at %.9g kg/m^2 (%.9g)", n, all, (n - 1) * dg);
  const double d[] = {std::sin(a.zen) * std::cos(a.az), std::sin(a.zen) * std::sin(a.az), std::cos(a.zen)};
  for(U i = 0; i < n; i++) {
    const double l = i * a.dt * light, pos[] = {p.x[i], p.y[i], p.z[i]}; c.check(std::fabs(p.t[i] - i * a.dt) <= 1e-9 * (n * a.dt), "point %zu is at time %.9g, expected %.9g", i, p.t[i], i * a.dt);
    for(int k = 0; k < 3; k++) c.check(std::fabs(pos[k] - (a.pos[k] + l * d[k])) <= 1e-8 * (std::fabs(a.pos[k]) + n * a.dt * light), "coordinate %d of point %zu is %.9g, expected %.9g", k, i, pos[k], a.pos[k] + l * d[k]);
    const double u = charge(r, i * dg * (1 - 1e-9)) * ratio, v = charge(r, i * dg * (1 + 1e-9)) * ratio; c.observe_f((float)p.q[i]);
    c.check(p.q[i] >= std::min(u, v) - 1e-8 * most && p.q[i] <= std::max(u, v) + 1e-8 * most, "the charge at point %zu of %zu (%.9g kg/m^2) is %.9g, expected %.9g", i, n, i * dg, p.q[i], (u + v) / 2);
  }
}
static void same(Ctx& c, const Points& a, const Points& b, const char* what) { c.check(a.t == b.t && a.x == b.x && a.y == b.y && a.z == b.z && a.q == b.q, "%s", what); }
// identifiable by its values
static Record record(int kind, double energy, U len, U id) { Record r{kind, energy, {}, {}}; for(U i = 0; i < len; i++) { r.g.push_back(300.0 * (i + (len == 1)) + 40.0 * (i % 2)); r.q.push_back((1.0 + id) * (2 + 3 * ((i * 5) % 4)) - 0.5 * i); } return r; }

struct Pick { bool none; const Record* r; };
// what is stored at the closest energies; several if two are equally close
static std::vector<std::vector<const Record*>> stored(const std::vector<Record>& f, int kind, double en) {
  double best = 1e300; for(auto& r : f) if(r.kind == kind) best = std::min(best, std::fabs(en - r.energy));
  std::map<double, std::vector<const Record*>> m; for(auto& r : f) if(r.kind == kind && std::fabs(en - r.energy) <= best) m[r.energy].push_back(&r);
  std::vector<std::vector<const Record*>> v; for(auto& e : m) v.push_back(e.second); return v;
}
static bool fits(const Points& p, const Record& r, const Ask& a) { double m = 0; for(double q : r.q) m = std::max(m, std::fabs(q)); for(U i = 0; i < p.q.size(); i++) if(std::fabs(p.q[i] - charge(r, i * density * light * a.dt) * a.en / r.energy) > 1e-6 * m * a.en / r.energy) return false; return p.t.size() * density * light * a.dt > r.g.back() * (1 - 1e-6) && (p.t.size() - 1) * density * light * a.dt < r.g.back() * (1 + 1e-6); }
static Ask where(int i, double en) { static const Ask a[] = {{{1.5f, -2.0f, -100.0f}, 0, 0.7, 0.4, 1.7}, {{-106.0f, 0.125f, -165.0f}, 0, 1.5707963, 0, 0.9}, {{0.0f, 0.0f, 0.0f}, 0, 2.5, 4.0, 0.35}}; Ask r = a[i % 3]; r.en = en; return r; }

static void library(Ctx& c, U most, bool big) {
  const double es[] = {1e15, 1e16, 1e17}; U n = c.range(0, most); std::vector<Record> f; std::string all; std::uint64_t hs = n;
  for(U i = 0; i < n; i++) { int k = c.choose(2), e = c.choose(3), l = c.choose(big ? 3 : 2); f.push_back(record(k, es[e], (U[]){2, 5, 1}[l], i)); all += bytes(f.back()); hs = mc::mix(hs, k * 16 + e * 4 + l); c.op("%s shower of %g with %zu points", k ? "hadronic" : "electromagnetic", es[e], (U)f.back().g.size()); }
  c.state(hs); if(n) c.nontrivial(); fs::path p = c.scratch() / "showers"; write(p, all); showers::ShowerCreator lib(p.string());
  std::vector<showers::Shower1D> kept; std::vector<Points> first; std::vector<Ask> asked;
  for(int kind : {0, 1, 2}) for(double en : {2e14, 1e15, 3e15, 5.5e15, 1.2e16, 7e16, 1e19}) for(int index : {-1, 0, 1, 2, 3}) {
    auto v = stored(f, kind, en); U fewest = 99, largest = 0; for(auto& s : v) { fewest = std::min(fewest, (U)s.size()); largest = std::max(largest, (U)s.size()); } if(v.empty()) fewest = 0;
    const bool possible = index < 0 ? fewest > 0 : (U)index < largest, certain = index < 0 ? fewest > 0 : (U)index < fewest; const Ask a = where((int)(en / 1e15) + index + kind + 1, en); c.step(); bool threw = false; std::string why; next_random = (unsigned)(hs + index); Points q;
    try {
      showers::Shower1D s = index == -1 ? lib.create_shower(a.pos, en, a.zen, a.az, kind) : lib.create_shower(a.pos, en, a.zen, a.az, kind, index);
      c.check(possible, "a request for %s shower %d at %g does not report that there is no such shower", kind == 0 ? "electromagnetic" : kind == 1 ? "hadronic" : "other", index, en);
      q = points(s, a.dt); if(kept.size() < 6) { kept.push_back(s); first.push_back(q); asked.push_back(a); }
    } catch(const std::exception& e) { threw = true; why = e.what(); }
    c.observe(threw); if(threw) { c.check(!certain, "a request for %s shower %d at %g fails: %s", kind ? "hadronic" : "electromagnetic", index, en, why.c_str()); continue; }
    const Record* hit = nullptr; for(auto& s : v) for(U i = 0; i < s.size(); i++) if((index < 0 || (U)index == i) && fits(q, *s[i], a)) hit = s[i];
    if(!hit) { for(auto& s : v) if(index < 0 || (U)index < s.size()) hit = s[index < 0 ? 0 : index]; judge(c, q, *hit, a); c.fail("the track does not belong to any shower that fits the request"); }
    judge(c, q, *hit, a);
  }
  // earlier showers are what they were
  for(U i = kept.size(); i-- > 0; ) same(c, points(kept[i], asked[i].dt), first[i], "a shower changes after it has been made");
}
// all stored showers can be drawn, and nothing else
static void draws(Ctx& c) {
  U n = c.range(1, c.thorough ? 12 : 8), other = c.choose(3); c.op("%zu showers of the requested energy%s", n, other ? ", others around" : ""); c.state(n * 4 + other); c.nontrivial(); std::vector<Record> f; std::string all;
  for(U i = 0; i < n; i++) { if(other) f.push_back(record(other - 1, 1e17, 2, 50 + i)); f.push_back(record(1, 1e16, 3, i)); } for(auto& r : f) all += bytes(r);
  fs::path p = c.scratch() / "showers"; write(p, all); showers::ShowerCreator lib(p.string()); std::set<U> seen; const Ask a = where(0, 2e16);
  for(U k = 0; k < (c.thorough ? 4096 : 512); k++) {
    next_random = (unsigned)(k * 2654435769u); if(k < 4) next_random = (unsigned[]){0, 1, 0x7fffffff, 0xffffffff}[k]; c.step(); showers::Shower1D s = lib.create_shower(a.pos, a.en, a.zen, a.az, 1, k % 2 ? -1 : -7); Points q = points(s, a.dt); const Record* hit = nullptr;
    for(auto& r : f) if(r.kind == 1 && r.energy == 1e16 && fits(q, r, a)) { hit = &r; seen.insert(&r - f.data()); } c.check(hit != nullptr, "the shower drawn with the random number %u is not one of the stored ones", next_random); if(k < 16) judge(c, q, *hit, a);
  }
  c.observe(seen.size()); c.check(drawn > 0, "the harness does not control the random numbers"); c.check(seen.size() == n, "%zu of %zu showers are never drawn", n - (U)seen.size(), n);
}
static std::vector<double> numbers(const std::string& s) { std::vector<double> v; for(U i = 0; i < s.size(); ) { char* e; if((std::isdigit((unsigned char)s[i]) || ((s[i] == '-' || s[i] == '.') && i + 1 < s.size() && std::isdigit((unsigned char)s[i + 1])))) { v.push_back(std::strtod(s.c_str() + i, &e)); i = e - s.c_str(); } else i++; } return v; }
static std::pair<std::vector<double>, std::vector<double>> many() { std::pair<std::vector<double>, std::vector<double>> r; for(int i = 0; i < 600; i++) { r.first.push_back(5.0 * i + 0.01 * ((i * 7) % 11)); r.second.push_back(1e-9 * i * std::exp(-0.02 * i) * (1 + 0.3 * (i % 3))); } return r; }
static void tracks(Ctx& c, bool big) {
  static const std::vector<std::pair<std::vector<double>, std::vector<double>>> prof{
    {{0, 500, 1000, 1500, 2000}, {0, 2, 7, 3, 0}}, {{250, 260, 900, 3500}, {1, -4, 8, 2}}, {{4000}, {3}}, {{0, 700, 700, 1900}, {0, 5, 1, 0.5}}, {{100, 100.5, 101, 101.5}, {1, 2, 3, 4}}, {{0, 1, 2, 3, 4, 5, 1200}, {9, 1, 9, 1, 9, 1, 2}}, {{0, 12000, 20000}, {1e-10, 3e-8, 0}}, many()};
  int pi = c.choose((int)prof.size()), zi = c.choose(big ? 7 : 5), ai = c.choose(big ? 6 : 4), wi = c.choose(big ? 6 : 3), ri = c.choose(big ? 5 : 3), ti = c.choose(big ? 8 : 5);
  const double zen = (double[]){0, 0.6, M_PI / 2, 2.2, M_PI, 1.0, 3.0}[zi], az = (double[]){0, 1.1, 3.3, -0.7, M_PI / 2, 5.9}[ai], ratio = (double[]){1, 0.25, 3.5, 1000, 1e-6}[ri], dt = (double[]){0.2, 1.0, 3.7, 50, 500, 0.05, 0.013, 7.3}[ti];
  if(prof[pi].first.back() / (density * light * dt) > (c.thorough ? 20000 : big ? 2500 : 1500)) { c.prune(); return; }
  Record r{1, 1e16, prof[pi].first, prof[pi].second}; const std::array<float, 3> pos = (std::array<float, 3>[]){{-106.0f, 0.125f, -165.0f}, {0, 0, 0}, {3.5f, -4.25f, 900.0f}, {1e4f, 1e4f, -3e3f}, {0, -1, 0}, {2.5f, 0, -1.0f}}[wi]; const Ask a{pos, r.energy * ratio, zen, az, dt};
  c.op("profile %d, from (%g, %g, %g) along (%g, %g), energy ratio %g, steps of %g", pi, pos[0], pos[1], pos[2], zen, az, ratio, dt); c.state((((((U)pi * 8 + zi) * 8 + ai) * 8 + wi) * 8 + ri) * 8 + ti); c.nontrivial();
  fs::path p = c.scratch() / "showers"; write(p, bytes(record(0, 1e16, 3, 7)) + bytes(r)); showers::ShowerCreator lib(p.string()); showers::Shower1D s = lib.create_shower(pos, a.en, zen, az, 1, 0); c.step();
  Points q = points(s, dt); judge(c, q, r, a); Points full; full.t = full.x = full.q = std::vector<double>(40, 77.0); full.y = {1}; same(c, points(s, dt, full), q, "the points depend on what the arguments held before");
  // segments
  XYZCoordVector s0{1.0f, 2.0f, 3.0f}, s1{4.0f, 5.0f, 6.0f}; std::vector<LineCurrentSegment> out; if(zi % 2) out.emplace_back(XYZCoordVector{1.0f, 2.0f, 3.0f}, XYZCoordVector{4.0f, 5.0f, 6.0f}, 7.0f, 8.0f, 9.0f); const U had = out.size();
  s.fill_tracks(dt, out); c.step(); c.observe(out.size()); c.check(out.size() - had == q.t.size() - 1, "%zu segments for %zu points", out.size() - had, (U)q.t.size()); if(had) { c.check(out[0].charge == 9.0f && out[0].start_time == 7.0f && out[0].end_time == 8.0f, "a segment that was there before has changed"); for(int k = 0; k < 3; k++) c.check(out[0].start_pos[k] == s0[k] && out[0].end_pos[k] == s1[k], "a segment that was there before has changed"); }
  double most = 0; for(double x : r.q) most = std::max(most, std::fabs(x * ratio)); const double reach = (std::fabs(pos[0]) + std::fabs(pos[1]) + std::fabs(pos[2])) / light + q.t.size() * dt;
  for(U i = 0; i + 1 < q.t.size(); i++) {
    const auto& g = out[had + i]; const double u[] = {q.x[i], q.y[i], q.z[i]}, v[] = {q.x[i + 1], q.y[i + 1], q.z[i + 1]}; for(int k = 0; k < 3; k++) { c.check(std::fabs(g.start_pos[k] - u[k] / light) <= 1e-6 * reach && std::fabs(g.end_pos[k] - v[k] / light) <= 1e-6 * reach, "segment %zu, coordinate %d: from %.8g to %.8g, expected %.8g to %.8g", i, k, g.start_pos[k], g.end_pos[k], u[k] / light, v[k] / light); if(i) c.check(std::fabs(g.start_pos[k] - out[had + i - 1].end_pos[k]) <= 3e-7 * std::fabs(g.start_pos[k]), "segment %zu does not start where the previous one ends", i); }
    c.check(std::fabs(g.start_time - q.t[i]) <= 1e-6 * (q.t[i] + dt) && std::fabs(g.end_time - q.t[i + 1]) <= 1e-6 * (q.t[i + 1] + dt), "segment %zu lasts from %.8g to %.8g, expected %.8g to %.8g", i, g.start_time, g.end_time, q.t[i], q.t[i + 1]); if(i) c.check(std::fabs(g.start_time - out[had + i - 1].end_time) <= 3e-7 * g.start_time, "there is time between segments %zu and %zu", i - 1, i);
    c.check(std::fabs(g.charge - q.q[i]) <= 1e-6 * most, "segment %zu carries the charge %.8g, expected %.8g", i, g.charge, q.q[i]);
  }
  // the size of the field that is announced is the one of the track in steps of 1 ns
  std::ostringstream text; auto* old = std::cout.rdbuf(text.rdbuf()); s.print_dimensions(); std::cout.rdbuf(old); std::cout.clear(); Points one = points(s, 1.0); judge(c, one, r, {pos, a.en, zen, az, 1.0});
  double lo[] = {1e300, 1e300}, hi[] = {-1e300, -1e300}; for(U i = 0; i < one.t.size(); i++) { const double v[] = {std::hypot(one.x[i], one.y[i]) / light, one.z[i] / light}; for(int k = 0; k < 2; k++) { lo[k] = std::min(lo[k], v[k]); hi[k] = std::max(hi[k], v[k]); } }
  auto v = numbers(text.str()); c.check(v.size() == 4, "%zu numbers are printed: %s", (U)v.size(), text.str().c_str()); for(int k = 0; k < 2; k++) { c.check(std::fabs(v[2 * k] - lo[k]) <= 1e-4 * (std::fabs(lo[k]) + 1e-3 * reach) && std::fabs(v[2 * k + 1] - hi[k]) <= 1e-4 * (std::fabs(hi[k]) + 1e-3 * reach), "the required field is announced as %.8g < %s < %.8g, but the track extends from %.8g to %.8g", v[2 * k], k ? "z" : "r", v[2 * k + 1], lo[k], hi[k]); }
  same(c, points(s, dt), q, "the points change from call to call");
}
// files that are missing, empty, or end anywhere
static void broken(Ctx& c) {
  std::vector<Record> f; int shape = c.choose(4); U n = shape == 0 ? 1 : shape; for(U i = 0; i < n; i++) f.push_back(record((int)(i + shape) % 2, 1e16, shape == 3 ? 1 + i : 2 + i, i)); std::string all; std::vector<U> ends{0}; for(auto& r : f) { all += bytes(r); ends.push_back(all.size()); }
  fs::path p = c.scratch() / "showers"; int what = c.choose((int)all.size() + 2); c.state((U)shape * 100000 + what); c.nontrivial(); bool refused = false; std::string why;
  if(what < (int)all.size() + 1) { write(p, all.substr(0, what)); c.op("the first %d of %zu bytes", what, (U)all.size()); } else c.op("no file"); c.step();
  std::unique_ptr<showers::ShowerCreator> lib; try { lib = std::make_unique<showers::ShowerCreator>(p.string()); } catch(const std::exception& e) { refused = true; why = e.what(); } c.observe(refused);
  bool whole = false; U have = 0; for(U i = 0; i < ends.size(); i++) if((U)what == ends[i]) { whole = true; have = i; }
  c.check(refused == !whole, refused ? "a complete file is refused: %s" : "an incomplete or missing file is not refused%s", why.c_str()); if(refused) return;
  for(int kind : {0, 1}) { std::vector<Record> g(f.begin(), f.begin() + have); auto v = stored(g, kind, 1e16); U m = v.empty() ? 0 : v[0].size(); for(U i = 0; i <= m; i++) { const Ask a = where((int)i, 1e16); bool threw = false; Points q; try { auto s = lib -> create_shower(a.pos, a.en, a.zen, a.az, kind, (int)i); q = points(s, a.dt); } catch(const std::exception&) { threw = true; } c.check(threw == (i == m), threw ? "shower %zu of a file with %zu showers is refused" : "shower %zu of a file with %zu showers is found", i, have); if(!threw) judge(c, q, *v[0][i], a); } }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C26"; h.level = "model_checking";
  h.assumptions = {"time steps are positive, grammages are listed in increasing order and end above zero", "showers of another kind than 0 and 1 are not stored", "of two equally distant energies either one may be used", "positions are measured in metres and times in nanoseconds; ice has 917 kg per cubic metre"};
  h.space("library", "all files with up to 4 showers of two kinds, three energies and two (three) lengths x 105 requests", 3, [](Ctx& c) { library(c, c.lite ? 2 : 4, c.thorough); });
  h.space("draws", "random choice among up to 8 (12) showers for 512 (4096) values of the random source", 2, [](Ctx& c) { draws(c); });
  h.space("tracks", "eight profiles x directions x starting points x energies x time steps: points, segments, and the announced size", 3, [](Ctx& c) { tracks(c, true); }, 1);
  h.space("few tracks", "the same with a third of the parameters", 3, [](Ctx& c) { tracks(c, false); }, 2);
  h.space("broken files", "files of up to three showers cut at every byte; empty and missing files", 2, [](Ctx& c) { broken(c); });
  return mc::run_main(h, argc, argv);
}
