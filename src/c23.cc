// C23: what users call: the two signal calculators, current segments, and the export of signals.
#include "gf.hh"
#include "SignalCalculator.hh"
#include "SignalExport.hh"
#include "C8SignalCalculator.hxx"
using namespace gf;

struct Call { Seg seg; Win w; bool leaves, degenerate; };
// inside, crossing the axis in several integration steps, starting before the window, the window ends before the segment starts, leaving at the far side, partly above the domain, empty window, reversed and zero durations
static std::vector<Call> calls() {
  std::vector<Call> r;
  r.push_back({{{0.5, 0.25, -0.5}, {1.5, -0.5, 1.25}, 0.25, 0.75, 1.0}, {0.25, 0.5, 9}, false, false});
  r.push_back({{{-1.5, 0.0, 0.0}, {1.25, 0.5, 0.5}, -1.0, 3.0, -2.0}, {-2.0, 0.25, 22}, false, false});
  r.push_back({{{0.0, 1.0, 1.5}, {0.0, 2.0, 1.75}, 1.0, 2.0, 0.5}, {-4.0, 1.0, 5}, false, false});
  r.push_back({{{1.0, 1.0, 0.5}, {6.0, 1.0, 0.5}, 0.0, 4.0, 1.0}, {0.0, 1.0, 5}, true, false});
  r.push_back({{{1.0, 0.5, 0.5}, {1.0, 0.5, 9.5}, 0.0, 2.0, 1.0}, {0.0, 0.5, 10}, true, false});
  r.push_back({{{1.0, 1.0, 0.5}, {2.0, 1.0, 0.5}, 0.0, 4.0, 1.0}, {0.0, 1.0, 0}, false, false});
  r.push_back({{{1.0, 1.0, 0.5}, {2.0, 1.0, 0.5}, 1.0, 1.0, 1.0}, {0.0, 1.0, 4}, false, true});
  r.push_back({{{1.0, 1.0, 0.5}, {2.0, 1.0, 0.5}, 2.0, 0.5, 1.0}, {0.0, 1.0, 4}, false, true});
  return r;
}
template <class R> struct Buffer {
  std::vector<R> sig; std::vector<double> want, scale, slack;
  Buffer(U n) : sig(n), want(n), scale(n, 1e-2), slack(n) { for(U k = 0; k < n; k++) want[k] = sig[k] = (R)(1.0 - 0.25 * (double)(k % 9)); }
  void check(Ctx& c, const char* who) { for(U k = 0; k < sig.size(); k++) { c.observe_f((float)sig[k]); c.check(std::fabs(sig[k] - want[k]) <= 2e-5 * (3 * scale[k] + std::fabs(want[k]) + 1) + slack[k], "%s: sample %zu is %.8g, expected %.8g", who, k, (double)sig[k], want[k]); } }
};
static void history(Ctx& c, int depth, bool big) {
  Field f = field({(U)4, (U)4, (U)12}, c.choose(2) * 3); Grid g{{0.0, -1.0, 0.0}, {1.0, 1.0, 0.5}}; I3 size = c.pick(std::vector<I3>{{(U)4, (U)1, (U)5}, {(U)2, (U)3, (U)12}}); U cache = c.pick({1, 5}); bool by_default = cache == 5;
  auto dir = c.scratch(); store(dir / "g", f, size, 2, g, true); std::unique_ptr<SignalCalculator> p; std::unique_ptr<C8SignalCalculator> q;
  c.op("chunks of %s, cache depth %zu", ::str(size).c_str(), cache);
  { Quiet quiet; if(by_default) { p = std::make_unique<SignalCalculator>(dir / "g"); q = std::make_unique<C8SignalCalculator>(dir / "g"); } else { p = std::make_unique<SignalCalculator>(dir / "g", cache); q = std::make_unique<C8SignalCalculator>(dir / "g", cache); } }
  Buffer<float> a(24), a2(24); Buffer<double> b(24), b2(24); const auto cs = calls(); std::uint64_t hs = mc::mix(f.hash(), hash_ind<3>(size) + cache);
  for(int n = 0; n < depth; n++) {
    int k = c.choose((int)cs.size()); bool c8 = c.flag(), second = big && c.flag(); const Call& x = cs[k]; c.step(); hs = mc::mix(hs, k * 4 + c8 * 2 + second);
    if(!c8) {
      Buffer<float>& u = second ? a2 : a; c.op("plain calculator, %s, %s", gf::str(x.seg).c_str(), gf::str(x.w).c_str()); const auto before = u.sig; bool threw = false;
      try { p -> AccumulateSignal(segment(x.seg), (float)x.w.start, (float)x.w.samp, x.w.n, u.sig); } catch(const std::exception&) { threw = true; }
      c.check(threw == (x.leaves || x.degenerate), threw ? "the plain calculator reports an error" : x.leaves ? "the plain calculator does not report that the track leaves the domain" : "a track without a positive duration is not refused");
      if(x.degenerate) { for(U i = 0; i < before.size(); i++) c.check(u.sig[i] == before[i], "a refused track changes sample %zu", i); }
      else if(threw) u.sig = before;
      else convolve<Keys>(f, g, x.seg, x.w, 1.0, u.want, u.scale, nullptr, &u.slack);
      u.check(c, "plain calculator");
    }
    else {
      double weight = big ? c.pick({1.0, -0.5, 3.0}) : n % 2 ? 1.0 : -0.5; hs = mc::mix(hs, (U)(weight * 2 + 8)); Buffer<double>& u = second ? b2 : b; c.op("CORSIKA calculator, %s, %s, weight %g", gf::str(x.seg).c_str(), gf::str(x.w).c_str(), weight); const auto before = u.sig; bool threw = false;
      std::array<float, 4> s0, s1; for(int i = 0; i < 3; i++) { s0[i] = (float)x.seg.p0[i]; s1[i] = (float)x.seg.p1[i]; } s0[3] = (float)x.seg.t0; s1[3] = (float)x.seg.t1;
      try { if(weight == 1.0) q -> calculate(s0, s1, (float)x.seg.q, (float)x.w.start, (float)x.w.samp, x.w.n, u.sig); else q -> calculate(s0, s1, (float)x.seg.q, (float)x.w.start, (float)x.w.samp, x.w.n, u.sig, (float)weight); } catch(const std::exception&) { threw = true; }
      c.check(threw == x.degenerate, threw ? "the CORSIKA calculator reports an error" : "a track without a positive duration is not refused");
      if(x.degenerate) { for(U i = 0; i < before.size(); i++) c.check(u.sig[i] == before[i], "a refused track changes sample %zu", i); }
      else convolve<Linear>(f, g, x.seg, x.w, weight, u.want, u.scale, nullptr, &u.slack);
      u.check(c, "CORSIKA calculator");
    }
    // nothing else has changed
    a.check(c, "first buffer of the plain calculator"); b.check(c, "first buffer of the CORSIKA calculator"); if(big) { a2.check(c, "second buffer of the plain calculator"); b2.check(c, "second buffer of the CORSIKA calculator"); }
  }
  c.state(hs); c.nontrivial();
}
// all pairs of times: accepted exactly if the duration is positive, and then kept as given
static void times(Ctx& c) {
  std::vector<float> t{0.0f, -0.0f, 1.0f, std::nextafter(1.0f, 2.0f), std::nextafter(1.0f, 0.0f), -1.0f, std::nextafter(-1.0f, 0.0f), 1e-30f, -1e-30f, 1e-20f, 3e38f, -3e38f, 12345.678f, std::nextafter(12345.678f, 0.0f), 0.1f, 16777216.0f, 16777218.0f};
  float a = t[c.choose((int)t.size())], b = t[c.choose((int)t.size())], q = c.pick({1.0f, 0.0f, -2.5f}); c.op("times %.9g and %.9g, charge %g", a, b, q); c.step(); bool threw = false; c.nontrivial(); c.state(mc::mix((U)(std::int64_t)(a * 1e3), mc::mix((U)(std::int64_t)(b * 1e3), (U)(q + 4))));
  XYZCoordVector p{1.0f, -2.0f, 3.5f}, e{-4.0f, 0.25f, 6.0f};
  try {
    LineCurrentSegment s(XYZCoordVector{1.0f, -2.0f, 3.5f}, XYZCoordVector{-4.0f, 0.25f, 6.0f}, a, b, q);
    for(int k = 0; k < 3; k++) c.check(s.start_pos[k] == p[k] && s.end_pos[k] == e[k], "coordinate %d of the segment is from %g to %g", k, s.start_pos[k], s.end_pos[k]);
    c.check(s.start_time == a && s.end_time == b && s.charge == q, "the segment lasts from %g to %g with charge %g", s.start_time, s.end_time, s.charge);
  } catch(const std::exception&) { threw = true; }
  c.observe(threw); c.check(threw == !(a < b), threw ? "a segment of positive duration is refused" : "a segment without positive duration is accepted");
}
// text of a number without leading blanks
static std::string number(double x, int prec, bool scientific) { char b[400]; std::snprintf(b, 400, scientific ? "%#.*e" : "%#.*f", prec, x); return b; }
static void lines(Ctx& c, const fs::path& file, const std::vector<float>& t, const std::vector<float>& v, int tp, int vp) {
  std::ifstream f(file); std::string line; U n = 0; std::string all((std::istreambuf_iterator<char>(f)), {}); c.check(t.empty() ? all.empty() : (!all.empty() && all.back() == '\n'), "the last line is not complete"); std::istringstream in(all);
  while(std::getline(in, line)) {
    c.check(n < t.size(), "more than %zu lines", (U)t.size()); U comma = line.find(','); c.check(comma != std::string::npos, "line %zu is %s", n, line.c_str());
    std::string x = line.substr(0, comma), y = line.substr(comma + 1); auto trim = [](std::string& s) { while(!s.empty() && s.front() == ' ') s.erase(0, 1); while(!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back(); }; trim(x); trim(y);
    std::string wx = number(t[n], tp, false), wy = number(v[n], vp, true); c.observe(mc::mix(x.size(), y.size()));
    c.check(x == wx, "time in line %zu is %s, expected %s", n, x.c_str(), wx.c_str()); c.check(y == wy, "value in line %zu is %s, expected %s", n, y.c_str(), wy.c_str()); n++;
  }
  c.check(n == t.size(), "%zu lines instead of %zu", n, (U)t.size());
}
static void exports(Ctx& c, bool big) {
  const float ts[] = {0.0f, -1.25f, 1000.4999f, 0.0005f, 123456.789f, -0.00049f, 3e7f}, vs[] = {0.0f, -1.5f, 1e-30f, 3.25e38f, -123456.789f, 9.9999994e-5f, -0.1f, 7e-38f};
  U n = c.range(0, big ? 3 : 2); std::vector<float> t, v; std::uint64_t hs = n; for(U i = 0; i < n; i++) { int a = c.choose(7), b = c.choose(8); hs = mc::mix(hs, a * 8 + b); t.push_back(ts[a]); v.push_back(vs[b]); }
  bool by_default = c.flag(), present = c.flag(); int tp = 3, vp = 15; if(!by_default) { tp = c.pick({0, 1, 6, 12}); vp = c.pick({0, 2, 8, 17}); if(n > 1 && !big && tp != 1 && vp != 2) c.prune(); }
  c.op("%zu samples, precisions %d and %d%s", n, tp, vp, present ? ", onto an existing file" : ""); c.step(); c.state(mc::mix(hs, tp * 64 + vp * 2 + present)); if(n) c.nontrivial();
  fs::path file = c.scratch() / "signal.csv"; if(present) std::ofstream(file) << "something longer than the new contents\n1, 2\n3, 4\nsomething longer than the new contents, quite a bit longer than these, on many lines\n\n\n\n";
  if(by_default) ExportSignal(t, v, file.string()); else ExportSignal(t, v, file.string(), tp, vp); lines(c, file, t, v, tp, vp);
}
static void long_exports(Ctx& c) {
  U n = c.pick({1, 7, 255, 256, 1000, 4097}); int tp = c.pick({0, 3}), vp = c.pick({0, 6, 15}); c.op("%zu samples, precisions %d and %d", n, tp, vp); c.step(); c.state(n * 64 + tp * 32 + vp); c.nontrivial(); std::vector<float> t, v; for(U i = 0; i < n; i++) { t.push_back(-100.0f + 0.3f * i); v.push_back(std::ldexp(pattern(i), (int)(i % 80) - 40)); }
  fs::path file = c.scratch() / "signal.csv"; ExportSignal(t, v, file.string(), tp, vp); lines(c, file, t, v, tp, vp);
  // one file after the other with other precisions
  ExportSignal(v, t, file.string(), vp, tp); lines(c, file, v, t, vp, tp);
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C23"; h.level = "model_checking";
  h.assumptions = {"signal buffers are at least as long as the window", "as many times as values are exported"};
  h.space("history", "all sequences of 2 (3) calls of both calculators with eight tracks and windows, two weights (three, and two buffers each), two chunkings, fields and cache depths", 5, [](Ctx& c) { history(c, c.thorough ? 3 : c.lite ? 1 : 2, c.thorough); });
  h.space("deep", "all sequences of 3 (4) calls with one buffer each", 5, [](Ctx& c) { history(c, c.thorough ? 4 : 3, false); }, 1);
  h.space("times", "segments with all pairs of 17 times", 2, [](Ctx& c) { times(c); });
  h.space("exports", "all signals of up to 2 (3) samples from 7 times and 8 values, 5 (17) combinations of precisions", 3, [](Ctx& c) { exports(c, c.thorough); });
  h.space("long exports", "signals of up to 4097 samples", 2, [](Ctx& c) { long_exports(c); });
  return mc::run_main(h, argc, argv);
}
