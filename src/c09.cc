// C09: rechunking split over jobs and merged.
#include "rb.hh"
using namespace rb;

template <U D> struct Box { Ind<D> lo, hi; };

// all ways to cut [lo, hi) into boxes by at most `cuts` guillotine cuts
template <U D> std::vector<Box<D>> partition(Ctx& c, int cuts, const Ind<D>& lo, const Ind<D>& hi) {
  std::vector<Box<D>> r{{lo, hi}};
  U first = 0;
  for(int n = 0; n < cuts; n++) {
    struct Cut { U box, axis, at; }; std::vector<Cut> o;
    for(U b = first; b < r.size(); b++) for(U d = 0; d < D; d++) for(U x = r[b].lo[d] + 1; x < r[b].hi[d]; x++) o.push_back({b, d, x});
    int k = c.choose((int)o.size() + 1); if(k == (int)o.size()) break;
    Cut q = o[k]; Box<D> a = r[q.box], b = a; a.hi[q.axis] = q.at; b.lo[q.axis] = q.at;
    r[q.box] = a; r.insert(r.begin() + q.box + 1, b); first = q.box;
  }
  return r;
}
// one permutation of 0..n-1
static std::vector<U> permutation(Ctx& c, U n) {
  std::vector<U> rest, r; for(U i = 0; i < n; i++) rest.push_back(i);
  while(!rest.empty()) { U k = c.choose((int)rest.size()); r.push_back(rest[k]); rest.erase(rest.begin() + k); }
  return r;
}

template <U D, U V> struct Job {
  Ctx& c; const Logical<D, V>& l; fs::path source, out; Box<D> part; Ind<D> out_start, size; U overlap; int kind; U cache;
  std::unique_ptr<DArr<D, V>> d; bool done = false; std::function<void()> in_evaluator;
  void open() { d = std::make_unique<DArr<D, V>>(source, cache, Ind<D>(U(1)), ser_default<D>()); }
  void rebuild() {
    using view_t = typename DArr<D, V>::view_t;
    c.op("rebuild %s..%s to %s as chunks of %s with overlap %zu, evaluator %d", str(part.lo).c_str(), str(part.hi).c_str(), str(out_start).c_str(), str(size).c_str(), overlap, kind);
    Eval<D, V> ev{c, l};
    bool same_start = out_start == part.lo;
    auto by_array = [&](DArr<D, V>&, const SInd<D>& i, view_t e) { if(in_evaluator) in_evaluator(); ev.fill(i, e); };
    auto by_chunk = [&](Arr<D, V>&, const SInd<D>&, const SInd<D>&, const SInd<D>& i, view_t e) { if(in_evaluator) in_evaluator(); ev.fill(i, e); };
    if(kind == 0) { if(same_start) d -> RebuildChunksPartial(part.lo, part.hi, size, out, overlap, by_array); else d -> RebuildChunksPartial(part.lo, part.hi, out_start, size, out, overlap, by_array); }
    else if(kind == 1) { if(same_start) d -> RebuildChunksPartial(part.lo, part.hi, size, out, overlap, by_chunk); else d -> RebuildChunksPartial(part.lo, part.hi, out_start, size, out, overlap, by_chunk); }
    else d -> RebuildChunksPartial(part.lo, part.hi, size, out);
    done = true;
  }
};

// interleave: 0 = one job after the other, 1 = all interleavings of opening and rebuilding, 2 = another job runs while the first one evaluates its boundary
template <U D, U V> void jobs(Ctx& c, Ind<D> shape, Ind<D> origin, Ind<D> src, int cuts, std::vector<U> sizes, U maxoverlap, std::vector<Ind<D>> outs, int interleave, bool orders, bool before, std::vector<U> caches) {
  Ind<D> lo = origin, hi = origin + shape;
  auto parts = partition<D>(c, cuts, lo, hi); U n = parts.size();
  if(interleave && n < 2) c.prune();
  Ind<D> size; for(U d = 0; d < D; d++) size[d] = c.pick(sizes);
  U overlap = c.range(interleave == 2 ? 1 : 0, maxoverlap);
  Ind<D> out = c.pick(outs); SInd<D> shift = out.template as_type<int>() - origin.template as_type<int>();
  int kind = c.choose(overlap == 0 && out == origin ? 3 : 2); U cache = c.pick(caches); bool move = c.choose(2);
  c.op("array %s at %s in chunks of %s, %zu jobs, cache depth %zu", str(shape).c_str(), str(origin).c_str(), str(src).c_str(), n, cache);
  auto dir = c.scratch();
  Logical<D, V> l;
  { Sys<D, V> s(c, dir / "source", 1, ser_default<D>()); for(auto& [a, b] : tiling<D>(lo, hi, src)) s.reg({ind<D>(a), Ind<D>(ind<D>(b) - ind<D>(a)), 0}); l = s.l; }
  auto snap = snapshot(dir / "source");
  std::vector<Job<D, V>> js;
  for(U k = 0; k < n; k++) { Ind<D> os = (parts[k].lo.template as_type<int>() + shift).template as_type<U>(); js.push_back({c, l, dir / "source", dir / ("job" + std::to_string(k)), parts[k], os, size, overlap, kind, cache, nullptr, false, nullptr}); }
  if(interleave == 0) { for(auto& j : js) { j.open(); j.rebuild(); j.d.reset(); } }
  else if(interleave == 1) {
    std::vector<int> pc(n, 0); int left = 2 * n;
    while(left--) { std::vector<U> e; for(U k = 0; k < n; k++) if(pc[k] < 2) e.push_back(k); U k = e[c.choose((int)e.size())]; if(pc[k]++ == 0) js[k].open(); else js[k].rebuild(); }
    for(U k : permutation(c, n)) js[k].d.reset();
  }
  else {
    int at = c.range(0, 6), calls = 0;
    js[0].in_evaluator = [&] { if(calls++ == at) { js[1].open(); js[1].rebuild(); } };
    js[0].open(); js[0].rebuild();
    if(calls <= at) c.prune();
    for(U k = 2; k < n; k++) { js[k].open(); js[k].rebuild(); }
    for(auto& j : js) j.d.reset();
  }
  c.check(snapshot(dir / "source") == snap, "rebuilding parts of the array changes the source");
  // merge; some of the merged array may exist before
  Logical<D, V> m; for(auto& [k, v] : l.m) { Key<D> q; for(U d = 0; d < D; d++) q[d] = (int)k[d] + shift[d]; m.m[q] = v; }
  auto order = orders ? permutation(c, n) : std::vector<U>(); if(!orders) for(U k = 0; k < n; k++) order.push_back(n - 1 - k);
  {
    auto t = std::make_unique<DArr<D, V>>(dir / "merged", cache, Ind<D>(U(1)), ser_default<D>());
    bool reopen = before && c.choose(2); U cnt = 0;
    Logical<D, V> sofar;
    for(U k : order) {
      c.op("import job %zu%s", k, move ? " and remove it" : "");
      auto js_snap = snapshot(js[k].out);
      t -> Import(js[k].out, move);
      if(!move) c.check(snapshot(js[k].out) == js_snap, "importing a copy changes the imported directory");
      each<D>(parts[k].lo, parts[k].hi, [&](const Ind<D>& i) { Key<D> q; for(U d = 0; d < D; d++) q[d] = (int)i[d] + shift[d]; sofar.m[q] = l.m.at(key<D>(i)); });
      if(before) { verify<D, V>(c, *t, sofar, (int)(cnt % 2) * 3); if(reopen) { t.reset(); t = std::make_unique<DArr<D, V>>(dir / "merged", cache, Ind<D>(U(1)), ser_default<D>()); } }
      cnt++;
    }
    verify<D, V>(c, *t, m, 2);
  }
  std::set<std::pair<Key<D>, Key<D>>> tiles;
  for(U k = 0; k < n; k++) for(auto& x : tiling<D>(js[k].out_start, Ind<D>(js[k].out_start + (parts[k].hi - parts[k].lo)), size)) tiles.insert(x);
  check_chunks<D, V>(c, dir / "merged", l, tiles, overlap, shift, 1);
  { DArr<D, V> t(dir / "merged", 2, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, t, m, 3); verify<D, V>(c, t, m, 4); }
  { DArr<D, V> t(dir / "source", 1, Ind<D>(U(1)), ser_default<D>()); verify<D, V>(c, t, l, 0); }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C09"; h.level = "model_checking";
  h.assumptions = {"the array covers a box without gaps", "jobs close the source array after all of them have opened it (the pipeline has a barrier there)"};
  using I2 = Ind<2>; I2 o{(U)0, (U)0}, o12{(U)1, (U)2}, s32{(U)3, (U)2}, s33{(U)3, (U)3}, s43{(U)4, (U)3}, t21{(U)2, (U)1}, t22{(U)2, (U)2}, x20{(U)2, (U)0}, x05{(U)0, (U)5};
  h.space("partitions-2d", "all partitions by up to 2 (3) cuts, chunk sizes 1-3, overlap 0-2 (3)", 4, [=](Ctx& c) { if(c.thorough) jobs<2, 2>(c, s43, o, t21, 3, {1, 2, 3, 5}, 3, {o, x20}, 0, false, false, {0, 2}); else jobs<2, 2>(c, c.lite ? s32 : s33, o, t21, 2, c.lite ? std::vector<U>{2} : std::vector<U>{1, 2}, c.lite ? 1 : 2, {o}, 0, false, false, {1}); });
  h.space("shift-2d", "arrays and outputs at other origins", 4, [=](Ctx& c) { jobs<2, 2>(c, s32, o12, t22, c.thorough ? 2 : 1, c.thorough ? std::vector<U>{1, 2, 3} : std::vector<U>{1, 2}, 2, {o, o12, x20, x05}, 0, false, false, {0}); });
  h.space("orders-2d", "all import orders, with content checked in between", 4, [=](Ctx& c) { jobs<2, 2>(c, s32, o, t22, c.thorough ? 3 : 2, c.thorough ? std::vector<U>{1, 2, 4} : std::vector<U>{2}, 1, {o, x05}, 0, true, true, {0, 2}); }, 1);
  h.space("schedules-2d", "all interleavings of opening and rebuilding, all closing orders", 4, [=](Ctx& c) { jobs<2, 2>(c, s32, o, t21, c.thorough ? 2 : 1, {2}, 1, {o}, 1, true, false, c.thorough ? std::vector<U>{0, 1, 2} : std::vector<U>{1}); });
  h.space("nested-2d", "another job runs while one evaluates a boundary element", 4, [=](Ctx& c) { jobs<2, 2>(c, s33, o12, t21, c.thorough ? 2 : 1, c.thorough ? std::vector<U>{1, 2, 3} : std::vector<U>{2}, 2, {o}, 2, false, false, {0, 2}); });
  h.space("partitions-1d", "one dimension, all partitions into up to 4 jobs", 4, [](Ctx& c) { jobs<1, 2>(c, {(U)5}, {(U)1}, {(U)2}, 3, {1, 2, 3}, 3, {{(U)1}, {(U)0}, {(U)4}}, 0, c.thorough, false, {1}); });
  h.space("partitions-3d", "three dimensions", 4, [](Ctx& c) { jobs<3, 2>(c, {(U)2, (U)2, (U)2}, {(U)0, (U)0, (U)0}, {(U)1, (U)2, (U)1}, c.thorough ? 2 : 1, c.thorough ? std::vector<U>{1, 2} : std::vector<U>{2}, c.thorough ? 2 : 1, {{(U)0, (U)0, (U)0}, {(U)1, (U)0, (U)2}}, 0, false, false, {1}); });
  return mc::run_main(h, argc, argv);
}
