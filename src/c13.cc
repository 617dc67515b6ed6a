// C13: signals of line current segments.
#include "gf.hh"
using namespace gf;

struct Setup { Field f; Grid g; };

template <class K, class R> void check_signal(Ctx& c, GF& g, const Setup& s, const Seg& seg, const Win& w, double weight, U extra, const std::vector<U>& cuts, bool dyadic = true, Green::OutOfBoundsBehavior mode = Green::RaiseError) {
  // the caller's buffer already holds something and may be longer than the window
  std::vector<R> sig(w.n + extra), before; for(U k = 0; k < sig.size(); k++) sig[k] = (R)(1.0 - 0.25 * (double)(k % 9)); before = sig;
  LineCurrentSegment l = segment(seg);
  if(cuts.empty()) g.apply_accumulate<K, R>(l, (float)w.start, (float)w.samp, w.n, sig, mode, (float)weight);
  else {
    // the same window in several calls
    U from = 0; std::vector<U> ends(cuts); ends.push_back(w.n);
    for(U e : ends) { std::vector<R> part(sig.begin() + from, sig.begin() + e); g.apply_accumulate<K, R>(l, (float)(w.start + from * w.samp), (float)w.samp, e - from, part, mode, (float)weight); std::copy(part.begin(), part.end(), sig.begin() + from); from = e; }
  }
  std::vector<double> want(w.n), scale(w.n, 1e-2), slack(w.n); U oob = 0; convolve<K>(s.f, s.g, seg, w, weight, want, scale, &oob, &slack, dyadic);
  for(U k = 0; k < sig.size(); k++) {
    if(k >= w.n) { c.check(sig[k] == before[k], "%s, %s: sample %zu after the window is changed", str(seg).c_str(), str(w).c_str(), k); continue; }
    double x = before[k] + want[k];
    c.check(std::fabs(sig[k] - x) <= (dyadic ? 2e-5 : 2e-3) * (3 * scale[k] + std::fabs(x) + 1) + slack[k], "%s, %s, weight %g%s: sample %zu is %.7g, expected %.7g", str(seg).c_str(), str(w).c_str(), weight, cuts.empty() ? "" : " in several calls", k, (double)sig[k], x);
  }
}
// number of samples until the delayed time leaves the domain
static U window(const Setup& s, const Seg& seg, double start, double samp) {
  double last = s.g.start[2] + (s.f.n[2] - 1) * s.g.step[2] + seg.t0 - start;
  return last < 0 ? 0 : (U)std::floor(last / samp + 1e-9) + 1;
}

template <class K> void segments(Ctx& c, bool big) {
  I3 size = c.pick(big ? std::vector<I3>{{(U)4, (U)4, (U)12}, {(U)1, (U)1, (U)1}, {(U)2, (U)3, (U)5}, {(U)3, (U)1, (U)4}} : std::vector<I3>{{(U)2, (U)3, (U)5}, {(U)4, (U)1, (U)12}});
  int kind = c.choose(2) * 3; U cache = c.choose(2) ? 3 : 1;
  Setup s{field({(U)4, (U)4, (U)12}, kind), {{0.0, -1.0, 0.0}, {1.0, 1.0, 0.5}}};
  if(c.choose(2)) s.g = {{0.0, 4.0, 0.0}, {2.0, 0.5, 1.0}};
  auto dir = c.scratch(); store(dir / "g", s.f, size, K::support + (U)(kind != 0), s.g, kind != 0); auto g = open(dir / "g", cache);
  c.op("field kind %d in chunks of %s, cache depth %zu, z starts at %g", kind, ::str(size).c_str(), cache, s.g.start[1]);
  std::uint64_t hs = mc::mix(s.f.hash(), hash_ind<3>(size) + cache + (U)(s.g.start[1] + 8) * 1000); U nq = 0;
  const double R = 3 * s.g.step[0], z0 = s.g.start[1], dz = 3 * s.g.step[1];
  // end points of the segments, as fractions of the domain: on the axis, along it, off axis in all directions, crossing the axis
  const double pts[][3] = {{0, 0, 0.5}, {0, 0, 1}, {1, 0, 0}, {-0.75, 0, 0.25}, {0, 0.5, 0.75}, {0.25, -0.5, 0.5}, {-0.5, -0.5, 1}, {0.375, 0.25, 0.125}};
  const int np = big ? 8 : 6;
  for(int a = 0; a < np; a++) for(int b = 0; b < np; b++) for(double dur : {0.25, 1.0, 2.5, 4.0, 6.25}) for(double t0 : {0.0, -1.5, 2.25}) {
    Seg seg{{pts[a][0] * R, pts[a][1] * R, z0 + pts[a][2] * dz}, {pts[b][0] * R, pts[b][1] * R, z0 + pts[b][2] * dz}, t0, t0 + dur, nq % 2 ? -2.0 : 1.0};
    // nothing else than these windows: before, during and after the segment, sampling steps below and above the length of the segment
    for(double start : {t0 - 2.25, t0, t0 + 0.5}) for(double samp : {0.5, 1.75}) {
      U n = window(s, seg, start, samp); nq++; if(!big && nq % 2) continue; c.step(); c.state(mc::mix(hs, nq));
      check_signal<K, float>(c, *g, s, seg, {start, samp, n}, nq % 3 ? 1.0 : -0.5, nq % 3, {});
      if(n > 1 && nq % 4 == 0) check_signal<K, float>(c, *g, s, seg, {start, samp, n}, 1, 0, {1 + nq % (n - 1)});
      if(nq % 8 == 0) { check_signal<K, double>(c, *g, s, seg, {start, samp, n}, 1, 1, {}); check_signal<K, float>(c, *g, s, seg, {start, samp, 0}, 1, 2, {}); check_signal<K, float>(c, *g, s, seg, {start, samp, n > 0 ? (U)1 : (U)0}, 1, 2, {}); }
    }
  }
}

// long windows and segments, which are processed in several blocks
template <class K> void blocks(Ctx& c, std::vector<U> nsig, std::vector<double> durs) {
  int kind = c.choose(2) * 3; U n = c.pick(nsig); double dur = c.pick(durs); double start = c.pick(std::vector<double>{-40.0, 0.0, 70.5}); bool split = c.choose(2);
  Setup s{field({(U)2, (U)2, (U)48}, kind), {{0.0, 0.0, 0.0}, {4.0, 4.0, 16.0}}};
  auto dir = c.scratch(); store(dir / "g", s.f, {(U)1, (U)2, (U)7}, K::support, s.g, kind != 0); auto g = open(dir / "g", 4);
  c.op("%zu samples, duration %g, start %g, field kind %d", n, dur, start, kind); c.state(mc::mix(n * 1000003 + (U)(dur * 16), (U)(start + 100) + kind)); c.step();
  Seg seg{{-1.0, 0.5, 0.25}, {3.0, 1.5, 3.75}, 0.25, 0.25 + dur, 1.5};
  std::vector<U> cuts; if(split) for(U k = 64; k < n; k += 100) cuts.push_back(k);
  check_signal<K, float>(c, *g, s, seg, {start, 1.25, n}, 1, 3, cuts);
}

// times that are not exact in binary
template <class K> void rounding(Ctx& c, int starts) {
  U size = c.pick(std::vector<U>{1, 3, 5}); double step = c.pick(std::vector<double>{0.1, 0.3, 1.0 / 3, 0.7});
  Setup s{field({(U)3, (U)3, (U)14}, 0), {{0.0, -0.3, 0.0}, {0.7, 0.3, step}}};
  auto dir = c.scratch(); store(dir / "g", s.f, {(U)2, (U)3, size}, K::support, s.g, false); auto g = open(dir / "g", 3);
  c.op("chunks of %zu, step %g", size, step); const double T = 13 * step;
  for(int a = 0; a < starts; a++) for(double dur : {0.1, 0.9, 1.7, 3.3}) for(double samp : {0.1, 0.2, 0.3, 1.0 / 3, 0.7, 1.1}) {
    double t0 = a * 0.1; Seg seg{{0.1, 0.2, -0.2}, {0.6, -0.3, 0.2}, t0, t0 + dur, 1}; double start = t0 - 3 * samp + (a % 3) * 0.1;
    U n = (U)std::floor((T + t0 - start) / samp * (1 - 1e-6)); c.step();
    check_signal<K, float>(c, *g, s, seg, {start, samp, n}, 1, 1, {}, false);
  }
}

// leaving the domain: contributions from outside are ignored, or the segment is refused
template <class K> void leaving(Ctx& c, bool big) {
  I3 size = c.pick(std::vector<I3>{{(U)2, (U)3, (U)4}, {(U)1, (U)1, (U)2}}); int kind = c.choose(2) * 3;
  Setup s{field({(U)3, (U)3, (U)8}, kind), {{0.0, -1.0, 1.0}, {1.0, 1.0, 0.5}}};
  auto dir = c.scratch(); store(dir / "g", s.f, size, K::support, s.g, kind != 0); auto g = open(dir / "g", 2);
  c.op("field kind %d in chunks of %s", kind, ::str(size).c_str()); U nq = 0;
  const double pts[][3] = {{0.5, 0, 0}, {5.5, 0, 0.25}, {-6.5, 0.25, 0}, {1, 1, -7.25}, {0.25, 0.5, 6.25}, {-1.5, 0.5, 0.75}};
  for(int a = 0; a < 6; a++) for(int b = 0; b < 6; b++) for(double dur : {0.5, 2.0, 7.0}) for(double start : {-3.25, 0.25, 3.125}) for(U n : {(U)1, (U)5, (U)20}) {
    Seg seg{{pts[a][0], pts[a][1], pts[a][2]}, {pts[b][0], pts[b][1], pts[b][2]}, 0.0625, 0.0625 + dur, 1}; nq++; c.step(); if(!big && nq % 2) continue;
    Win w{start, 0.75, n};
    check_signal<K, float>(c, *g, s, seg, w, 1, 1, {}, true, Green::Ignore);
    std::vector<double> x(n), sc(n); U oob = 0; convolve<K>(s.f, s.g, seg, w, 1, x, sc, &oob);
    std::vector<float> sig(n); bool threw = false;
    try { g -> apply_accumulate<K>(segment(seg), (float)w.start, (float)w.samp, w.n, sig); } catch(const std::exception&) { threw = true; }
    c.check(threw == (oob > 0), "%s, %s: %zu contributions are outside of the domain, %s", str(seg).c_str(), str(w).c_str(), oob, threw ? "an error is reported" : "no error is reported");
  }
}

// several segments accumulated into one signal through one object
template <class K> void tracks(Ctx& c, int depth) {
  Setup s{field({(U)3, (U)3, (U)10}, c.choose(2) * 3), {{0.0, 0.0, 0.0}, {1.0, 1.0, 1.0}}}; U cache = (U)c.choose(3);
  auto dir = c.scratch(); store(dir / "g", s.f, {(U)2, (U)2, (U)4}, K::support, s.g, true); auto g = open(dir / "g", cache);
  const Seg segs[] = {{{0, 0, 0.5}, {0, 0, 1.5}, 1, 3, 1}, {{-1, 0.5, 2}, {1.5, 0.5, 1}, 0, 5.5, -1}, {{1, 1, 0}, {1, 1, 2}, 4, 8, 0.5}, {{0.5, -1.5, 1}, {0.25, 1.5, 1}, -3, -2.5, 2}};
  std::vector<float> sig(9); std::vector<double> want(9), scale(9, 1e-2), slack(9); Win w{-2, 1, 9};
  for(int k = 0; k < depth; k++) {
    const Seg& seg = segs[c.choose(4)]; c.op("%s", str(seg).c_str());
    g -> apply_accumulate<K>(segment(seg), (float)w.start, (float)w.samp, w.n, sig); convolve<K>(s.f, s.g, seg, w, 1, want, scale, nullptr, &slack);
  }
  for(U k = 0; k < 9; k++) c.check(std::fabs(sig[k] - want[k]) <= 2e-5 * (3 * scale[k] + 1) + slack[k], "sum of %d segments: sample %zu is %.7g, expected %.7g", depth, k, sig[k], want[k]);
}

// segments close to the axis, where the radial direction still matters
template <class K> void near_axis(Ctx& c) {
  int b = c.range(4, 10), kind = c.choose(2) * 3; double e = std::ldexp(1.0, -b); Setup s{field({(U)3, (U)3, (U)12}, kind), {{0.0, 0.0, 0.0}, {1.0, 1.0, 0.5}}};
  auto dir = c.scratch(); store(dir / "g", s.f, {(U)2, (U)2, (U)5}, K::support, s.g, kind != 0); auto g = open(dir / "g", 2); c.op("at a distance of 2^-%d, field kind %d", b, kind);
  const double pts[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {-1, 0.5}, {0.5, -1}, {2, 1}, {0, 0}}; U nq = 0;
  for(auto& p : pts) for(auto& q : pts) for(double dz : {0.0, 0.25}) for(double dur : {0.5, 2.0, 4.0}) {
    Seg seg{{p[0] * e, p[1] * e, 0.5}, {q[0] * e, q[1] * e, 0.5 + dz}, 0.25, 0.25 + dur, std::ldexp(1.0, b)}; if(dz > 0) seg.q = 1; c.step(); c.state(mc::mix(b * 2 + kind, nq++));
    check_signal<K, float>(c, *g, s, seg, {-0.5, 0.5, window(s, seg, -0.5, 0.5)}, 1, 1, {}, true);
  }
  c.nontrivial();
}
// windows of many samples, with the segment at any place in them
template <class K> void long_windows(Ctx& c) {
  U at = c.pick({(U)255, (U)256, (U)32760, (U)32768, (U)40000, (U)65530, (U)65536, (U)70000}), more = c.pick({(U)12, (U)33000}); double samp = c.pick(std::vector<double>{0.5, 1.0}); Setup s{field({(U)2, (U)2, (U)8}, 0), {{0.0, 0.0, 0.0}, {4.0, 4.0, samp < 1 || more == 12 ? 1.0 : 4096.0 * 2}}};
  auto dir = c.scratch(); store(dir / "g", s.f, {(U)2, (U)1, (U)3}, K::support, s.g, false); auto g = open(dir / "g", 2); double start = -64, t0 = start + at * samp + 0.25;
  Seg seg{{-1.0, 0.5, 0.25}, {3.0, 1.5, 3.75}, t0, t0 + 2, 1.5}; U n = std::min(window(s, seg, start, samp), at + more); c.op("%zu samples every %g, segment at sample %zu", n, samp, at); c.step(); c.state(at * 7 + more); c.nontrivial();
  check_signal<K, float>(c, *g, s, seg, {start, samp, n}, 1, 2, {});
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C13"; h.level = "model_checking";
  h.assumptions = {"on the axis (r = 0), where the radial direction is undefined, the radial component of the current does not contribute", "the integration step is at most one unit of time; quadrature is trapezoidal", "whether an integration point coincides with a sample may be decided by rounding unless the steps of both are powers of two"};
  h.space("segments-keys", "segments between 8 (6) end points, 5 durations, 3 start times, 6 windows, 2 grids", 4, [](Ctx& c) { segments<Keys>(c, c.thorough); });
  h.space("segments-linear", "the same with the linear kernel", 4, [](Ctx& c) { segments<Linear>(c, c.thorough); });
  std::vector<U> nq{99, 100, 101, 200, 201, 250}, nt{1, 2, 98, 99, 100, 101, 102, 150, 199, 200, 201, 202, 250, 299, 300, 301, 350}; std::vector<double> dq{98, 99, 100, 198.5, 199, 200, 251}, dt{1, 50, 97, 98, 98.5, 99, 99.5, 100, 101, 150, 198, 198.5, 199, 199.5, 200, 201, 251, 298, 299, 300, 301};
  h.space("blocks", "99 to 250 samples and integration points, around the internal block sizes, in one and several calls", 4, [=](Ctx& c) { if(c.choose(2)) blocks<Keys>(c, c.thorough ? nt : nq, c.thorough ? dt : dq); else blocks<Linear>(c, c.thorough ? nt : nq, c.thorough ? dt : dq); }, 1);
  h.space("rounding", "times that are not exact in single precision", 2, [](Ctx& c) { if(c.choose(2)) rounding<Keys>(c, c.thorough ? 60 : 8); else rounding<Linear>(c, c.thorough ? 60 : 8); }, 1);
  h.space("near the axis", "segments between 9 points at distances of 2^-4 to 2^-10 from the axis", 2, [](Ctx& c) { if(c.choose(2)) near_axis<Keys>(c); else near_axis<Linear>(c); });
  h.space("long windows", "windows of 255 to 103000 samples with segments in them", 2, [](Ctx& c) { if(c.choose(2)) long_windows<Keys>(c); else long_windows<Linear>(c); });
  h.space("leaving", "segments that enter, leave and cross the domain, both modes", 2, [](Ctx& c) { if(c.choose(2)) leaving<Keys>(c, c.thorough); else leaving<Linear>(c, c.thorough); });
  h.space("tracks", "all sequences of 3 (5) out of 4 segments, cache depths 0 to 2", 4, [](Ctx& c) { tracks<Keys>(c, c.thorough ? 5 : 3); });
  return mc::run_main(h, argc, argv);
}
