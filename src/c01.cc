// C01: chunk lookup (RStarTree) against a linear search over a plain list of boxes.
#include "mc.hh"
#include "Vector.hh"
#include "RStarTree.hh"
#include "IteratorUtils.hh"

using U = std::size_t;
using mc::Ctx;

template <std::size_t D> struct Box { Vector<U, D> s, e; int id; bool live = true; };

template <std::size_t D> bool has(const Box<D>& b, const Vector<U, D>& p) {
  for(U i = 0; i < D; i++) if(p[i] < b.s[i] || p[i] >= b.e[i]) return false;
  return true;
}
template <std::size_t D> bool meets(const Box<D>& b, const Vector<U, D>& s, const Vector<U, D>& e) {
  for(U i = 0; i < D; i++) if(s[i] >= b.e[i] || e[i] <= b.s[i]) return false;
  return true;
}
template <std::size_t D> std::string str(const Vector<U, D>& v) {
  std::string r = "("; for(U i = 0; i < D; i++) r += (i ? "," : "") + std::to_string(v[i]); return r + ")";
}

// calls f for every integer vector in [lo, hi)
template <std::size_t D, class F> void each(const Vector<U, D>& lo, const Vector<U, D>& hi, F&& f) {
  for(U i = 0; i < D; i++) if(lo[i] >= hi[i]) return;
  Vector<U, D> v = lo;
  while(true) {
    f(v);
    U i = D; bool more = false;
    while(i-- > 0) { if(++v[i] < hi[i]) { more = true; break; } v[i] = lo[i]; }
    if(!more) return;
  }
}

template <std::size_t D> struct Model {
  std::vector<Box<D>> boxes;
  std::uint64_t hash() const {
    std::uint64_t h = D;
    for(auto& b : boxes) { for(U i = 0; i < D; i++) { h = mc::mix(h, b.s[i]); h = mc::mix(h, b.e[i]); } }
    return h;
  }
  void hull(Vector<U, D>& lo, Vector<U, D>& hi) const {
    lo = boxes[0].s; hi = boxes[0].e;
    for(auto& b : boxes) for(U i = 0; i < D; i++) { lo[i] = std::min(lo[i], b.s[i]); hi[i] = std::max(hi[i], b.e[i]); }
  }
};

template <std::size_t D> void check_point(Ctx& c, RStarTree<U, D, int>& t, const Model<D>& m, const Vector<U, D>& p) {
  int* r = t.Search(p);
  bool any = false; for(auto& b : m.boxes) any |= has(b, p);
  c.check((r != nullptr) == any, "point query %s: %s, but a linear search %s", str(p).c_str(), r ? "found an entry" : "found nothing", any ? "finds one" : "finds none");
  if(r) {
    bool ok = false; for(auto& b : m.boxes) ok |= b.id == *r && has(b, p);
    c.check(ok, "point query %s returned entry %d, whose box does not contain it", str(p).c_str(), *r);
    c.observe(*r);
  }
}

template <std::size_t D> void check_region(Ctx& c, RStarTree<U, D, int>& t, const Model<D>& m, const Vector<U, D>& s, const Vector<U, D>& e) {
  auto found = t.Search(s, e);
  std::vector<int> got, want;
  for(auto& r : found) got.push_back(r.get());
  for(auto& b : m.boxes) if(meets(b, s, e)) want.push_back(b.id);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  c.check(got == want, "region query %s..%s: %zu entries, a linear search finds %zu", str(s).c_str(), str(e).c_str(), got.size(), want.size());
}

template <std::size_t D> void check_list(Ctx& c, RStarTree<U, D, int>& t, const Model<D>& m) {
  std::vector<int> got, app, want;
  t.GetAllEntries(got);
  t.Apply([&](int& p) { app.push_back(p); });
  for(auto& b : m.boxes) want.push_back(b.id);
  std::sort(got.begin(), got.end()); std::sort(app.begin(), app.end()); std::sort(want.begin(), want.end());
  c.check(got == want, "listing returns %zu entries, expected %zu", got.size(), want.size());
  c.check(app == want, "iteration visits %zu entries, expected %zu", app.size(), want.size());
  c.check(t.Empty() == m.boxes.empty(), "Empty() is wrong for %zu entries", m.boxes.size());
  if(!m.boxes.empty()) {
    Vector<U, D> lo, hi; m.hull(lo, hi);
    auto bb = t.GetBoundingBox();
    c.check(bb.start_coords == lo && bb.end_coords == hi, "bounding box %s..%s, expected %s..%s", str(bb.start_coords).c_str(), str(bb.end_coords).c_str(), str(lo).c_str(), str(hi).c_str());
  }
}

// everything: all points and all regions on the hull enlarged by one (or coordinates thinned by `thin`)
template <std::size_t D> void check_all(Ctx& c, RStarTree<U, D, int>& t, const Model<D>& m, U thin_regions) {
  check_list(c, t, m);
  Vector<U, D> lo(0), hi(2);
  if(!m.boxes.empty()) { m.hull(lo, hi); for(U i = 0; i < D; i++) { if(lo[i]) lo[i]--; hi[i] += 1; } }
  each<D>(lo, hi, [&](const Vector<U, D>& p) { check_point(c, t, m, p); });
  Vector<U, D> nlo(0), nhi(0);
  for(U i = 0; i < D; i++) nhi[i] = (hi[i] - lo[i]) / thin_regions + 1;
  each<D>(nlo, nhi, [&](const Vector<U, D>& a) {
    each<D>(nlo, nhi, [&](const Vector<U, D>& b) {
      Vector<U, D> s, e; bool ok = true;
      for(U i = 0; i < D; i++) { s[i] = lo[i] + a[i] * thin_regions; e[i] = lo[i] + b[i] * thin_regions + 1; ok &= e[i] > s[i]; }
      if(ok) check_region(c, t, m, s, e);
    });
  });
}

// ---- all short histories over all boxes of a small grid (boxes may overlap and repeat)
template <std::size_t D> void histories(Ctx& c, U extent, int depth, bool queries_between) {
  std::vector<Box<D>> menu;
  each<D>(Vector<U, D>(0), Vector<U, D>(extent), [&](const Vector<U, D>& s) {
    each<D>(s, Vector<U, D>(extent), [&](const Vector<U, D>& e) { menu.push_back({s, e + (U)1, 0}); });
  });
  RStarTree<U, D, int> t(1);
  Model<D> m;
  int next_id = 1;
  int n = c.range(1, depth);
  for(int k = 0; k < n; k++) {
    int a = c.choose((int)menu.size() + 2);
    if(a < (int)menu.size()) {
      Box<D> b = menu[a]; b.id = next_id++;
      c.op("insert %s..%s", str(b.s).c_str(), str(b.e).c_str());
      int& ref = t.InsertElement(b.id, b.s, b.e);
      c.check(ref == b.id, "insertion returns a reference to entry %d instead of %d", ref, b.id);
      m.boxes.push_back(b);
    }
    else if(a == (int)menu.size()) {
      c.op("rebuild");
      t.RebuildSTR();
    }
    else { c.op("clear"); t.Clear(); m.boxes.clear(); }
    c.state(m.hash());
    if(queries_between) check_all(c, t, m, 1);
  }
  check_all(c, t, m, 1);
}

// ---- insertion orders of a one-dimensional row around and beyond the node capacity: each new box goes to the front, the back
// or between existing boxes
void orders(Ctx& c, int n, int geometry) {
  std::vector<int> order;   // positions
  std::vector<int> seq;     // seq[k] = element inserted k-th, as rank in the final order
  for(int k = 0; k < n; k++) {
    int w = order.empty() ? 0 : c.choose(3);
    int pos = w == 0 ? (int)order.size() : (w == 1 ? 0 : (int)order.size() / 2);
    order.insert(order.begin() + pos, k);
  }
  std::vector<int> rank(n); for(int i = 0; i < n; i++) rank[order[i]] = i;
  RStarTree<U, 2, int> t(2);
  Model<2> m;
  for(int k = 0; k < n; k++) {
    U r = rank[k];
    Box<2> b; b.id = k + 1;
    if(geometry == 0) { b.s = Vector<U, 2>{r, (U)0}; b.e = Vector<U, 2>{r + 1, (U)1}; }
    else if(geometry == 1) { b.s = Vector<U, 2>{r % 4 * 3, r / 4 * 2}; b.e = b.s + Vector<U, 2>{(U)3, (U)2}; }
    else { b.s = Vector<U, 2>{r, (U)5 - std::min<U>(r, 5)}; b.e = Vector<U, 2>{r + 1 + (r * 5) % 3, (U)6 + (r % 4)}; }   // overlapping
    c.op("insert %s..%s", str(b.s).c_str(), str(b.e).c_str());
    t.InsertElement(b.id, b.s, b.e);
    m.boxes.push_back(b);
  }
  c.state(m.hash());
  check_list(c, t, m);
  Vector<U, 2> lo, hi; m.hull(lo, hi); hi += (U)1;
  each<2>(lo, hi, [&](const Vector<U, 2>& p) { check_point(c, t, m, p); });
  for(U a = lo[0]; a < hi[0]; a += 2) for(U b = a + 1; b <= hi[0]; b += 3) check_region(c, t, m, {a, lo[1]}, {b, hi[1]});
}

// ---- large regular and irregular tilings
template <std::size_t D> void tilings(Ctx& c, const std::vector<int>& counts, int max_total) {
  Vector<U, D> n; U total = 1;
  for(U i = 0; i < D; i++) { n[i] = c.pick(counts); total *= n[i]; }
  int geom = c.choose(4);
  int order = c.choose(6);
  int when = c.choose(5);          // 0: never rebuild, 1: at the end, 2: in the middle, 3: clear in the middle and start over, 4: rebuild twice, the last one after everything
  int pool = c.pick({1, 7, 1000});
  if((int)total > max_total) c.prune();

  // cell boundaries along each axis
  std::vector<std::vector<U>> cuts(D);
  for(U i = 0; i < D; i++) {
    U x = geom == 2 ? 5 : geom == 3 ? ((U)1 << (i == 0 ? 32 : i == 1 ? 31 : 16)) - 7 : 0; cuts[i].push_back(x);
    for(U k = 0; k < n[i]; k++) {
      U w = geom == 0 ? 2 : geom == 1 ? (i == 0 ? 1 : 3) : geom == 2 ? 1 + (k * 7 + i) % 3 : 1 + (k % 5 == 0 ? 4 : 0);
      x += w; cuts[i].push_back(x);
    }
  }
  std::vector<Vector<U, D>> cells;
  each<D>(Vector<U, D>(0), n, [&](const Vector<U, D>& v) { cells.push_back(v); });
  std::vector<std::size_t> idx(cells.size());
  for(std::size_t i = 0; i < idx.size(); i++) idx[i] = i;
  std::size_t N = idx.size();
  auto key = [&](std::size_t i) -> std::uint64_t {
    switch(order) {
      case 0: return i;
      case 1: return N - i;
      case 2: { std::uint64_t k = 0; for(U d = D; d-- > 0;) k = k * 64 + cells[i][d]; return k; }                       // first axis fastest
      case 3: { std::uint64_t k = 0; for(int b = 0; b < 12; b++) k |= ((i >> b) & 1ull) << (12 - b); return k; }        // bit reversal
      case 4: return (i * 37) % 1009;                                                                                  // strided
      default: return i % 2 ? i : 2 * N - i;                                                                           // zig-zag
    }
  };
  std::stable_sort(idx.begin(), idx.end(), [&](auto a, auto b) { return key(a) < key(b); });

  RStarTree<U, D, int> t(pool);
  Model<D> m;
  auto insert = [&](std::size_t i) {
    Box<D> b; for(U d = 0; d < D; d++) { b.s[d] = cuts[d][cells[i][d]]; b.e[d] = cuts[d][cells[i][d] + 1]; }
    b.id = (int)i + 1;
    t.InsertElement(b.id, b.s, b.e);
    m.boxes.push_back(b);
    c.step();
  };
  c.op("tiling n=%s geometry=%d order=%d rebuild-mode=%d pool=%d", str(n).c_str(), geom, order, when, pool);
  for(std::size_t k = 0; k < idx.size(); k++) {
    insert(idx[k]);
    if(k == N / 2) {
      if(when == 2 || when == 4) t.RebuildSTR();
      if(when == 3) { t.Clear(); m.boxes.clear(); for(std::size_t q = 0; q <= k; q++) insert(idx[q]); }
    }
    if((k & 15) == 3) { check_point(c, t, m, m.boxes[k / 2].s); check_point(c, t, m, m.boxes[k].e); }
  }
  if(when == 1 || when == 4) t.RebuildSTR();
  c.state(m.hash());
  c.state(mc::mix(m.hash(), order * 100 + when * 10 + pool));
  check_list(c, t, m);
  // all cells, first and last element, and the outside; regions spanning all pairs of cuts (thinned)
  for(auto& b : m.boxes) { check_point(c, t, m, b.s); Vector<U, D> l = b.e - (U)1; check_point(c, t, m, l); check_point(c, t, m, b.e); }
  U stride = N > 60 ? 3 : 1;
  if(D >= 3 && N > 30) stride = 5;
  for(std::size_t a = 0; a < m.boxes.size(); a += stride) for(std::size_t b = 0; b < m.boxes.size(); b += stride + 1) {
    bool ok = true; for(U d = 0; d < D; d++) ok &= m.boxes[a].s[d] < m.boxes[b].e[d];
    if(ok) check_region(c, t, m, m.boxes[a].s, m.boxes[b].e);
  }
}

// ---- growing boxes (appending to chunks): columns that grow along axis 0 in all interleavings, plus resident entries
void growth(Ctx& c, int columns, int steps, int residents) {
  RStarTree<U, 2, int> t(3);
  Model<2> m;
  int id = 1;
  for(int i = 0; i < residents; i++) {
    Box<2> b{{(U)(100 + i / 4), (U)(i % 4)}, {(U)(101 + i / 4), (U)(i % 4 + 1)}, id++};
    t.InsertElement(b.id, b.s, b.e); m.boxes.push_back(b);
  }
  int col0 = (int)m.boxes.size();
  int rebuild_at = c.choose(3);    // 0: never, 1: before growing, 2: in the middle
  bool cache_hit = c.flag();       // query the element before updating it
  for(int i = 0; i < columns; i++) {
    Box<2> b{{(U)0, (U)(i * 2)}, {(U)1, (U)(i * 2 + 2)}, id++};
    c.op("insert %s..%s", str(b.s).c_str(), str(b.e).c_str());
    t.InsertElement(b.id, b.s, b.e); m.boxes.push_back(b);
  }
  if(rebuild_at == 1) t.RebuildSTR();
  for(int k = 0; k < steps; k++) {
    int i = c.choose(columns);
    Box<2>& b = m.boxes[col0 + i];
    if(cache_hit) check_point(c, t, m, b.s);
    Vector<U, 2> e = b.e; e[0] += 1 + (U)(k % 2);
    c.op("grow column %d to %s", i, str(e).c_str());
    t.UpdateBoundingBox(b.s, b.s, e);
    b.e = e;
    c.state(m.hash());
    if(k == steps / 2 && rebuild_at == 2) t.RebuildSTR();
    check_point(c, t, m, Vector<U, 2>{e[0] - 1, e[1] - 1});
    check_point(c, t, m, Vector<U, 2>{e[0], e[1] - 1});
  }
  check_list(c, t, m);
  each<2>(Vector<U, 2>(0), Vector<U, 2>{(U)(2 * steps + 3), (U)(2 * columns + 1)}, [&](const Vector<U, 2>& p) { check_point(c, t, m, p); });
  for(U a = 0; a < 6; a++) for(U b = a + 1; b < 8; b++) check_region(c, t, m, {a, (U)0}, {b, (U)(2 * columns)});
}

// ---- update by arbitrary coordinate inside the box, to arbitrary new bounds (shrink, move, grow), non-overlapping boxes
void updates(Ctx& c, int depth) {
  RStarTree<U, 1, int> t(1);
  Model<1> m; int n = c.pick({1, 3, 12, 40}), order = c.choose(2); bool str_packed = n > 3 && c.flag();
  for(int q = 0; q < n; q++) { int i = order ? n - 1 - q : q; Box<1> b{Vector<U, 1>((U)(20 * i + 5)), Vector<U, 1>((U)(20 * i + 8)), i + 1}; t.InsertElement(b.id, b.s, b.e); m.boxes.push_back(b); }
  std::sort(m.boxes.begin(), m.boxes.end(), [](auto& a, auto& b) { return a.id < b.id; });
  if(str_packed) t.RebuildSTR();
  for(int k = 0; k < depth; k++) {
    int i = n == 1 ? 0 : c.pick({0, n / 2, n - 1});
    U where = c.choose(2) ? m.boxes[i].e[0] - 1 : m.boxes[i].s[0];
    U s = c.pick({(U)(20 * i), (U)(20 * i + 5), (U)(20 * i + 7), (U)(20 * i + 5000)}), len = c.pick({1, 4, 12});
    c.op("update box containing %zu to %zu..%zu", where, s, s + len);
    t.UpdateBoundingBox(Vector<U, 1>(where), Vector<U, 1>(s), Vector<U, 1>(s + len));
    m.boxes[i].s[0] = s; m.boxes[i].e[0] = s + len;
    c.state(m.hash());
  }
  check_list(c, t, m); const U end = 20 * n + 2;
  for(U o : {(U)0, (U)5000}) for(int i : {0, 1, n / 2, n - 1}) for(U x = 0; x < 20; x += o ? 3 : 1) check_point(c, t, m, Vector<U, 1>(o + 20 * i + x));
  for(U o : {(U)0, (U)5000}) for(int i : {0, n / 2, n - 1}) for(U a = 0; a < 20; a += 3) for(U b : {1, 4, 20, 27}) check_region(c, t, m, Vector<U, 1>(o + 20 * i + a), Vector<U, 1>(o + 20 * i + a + b));
  check_region(c, t, m, Vector<U, 1>(U(0)), Vector<U, 1>(end)); check_region(c, t, m, Vector<U, 1>(U(5000)), Vector<U, 1>(5000 + end));
}

// ---- trees of many levels
void large(Ctx& c, const std::vector<int>& counts) {
  int n = c.pick(counts), order = c.choose(2), when = c.choose(3), more = c.pick({40, 4000}); bool bulk = when != 0; RStarTree<U, 1, int> t(c.pick({1, 5000}));
  c.op("%d boxes, order %d, rebuilt %d, %d more boxes", n, order, when, more); c.state(n * 6 + order * 3 + when);
  auto insert = [&](int i) { t.InsertElement(i + 1, Vector<U, 1>((U)(2 * i)), Vector<U, 1>((U)(2 * i + 2))); c.step(); };
  for(int k = 0; k < n; k++) { insert(order ? (int)((std::int64_t)k * 7919 % n) : k); if(when == 2 && k == n / 2) t.RebuildSTR(); }
  if(bulk && when == 1) { t.RebuildSTR(); }
  for(int i = n; i < n + more; i++) insert(i);
  n += more;
  for(int i = 0; i < n; i++) for(U x : {(U)(2 * i), (U)(2 * i + 1)}) { int* p = t.Search(Vector<U, 1>(x)); c.check(p && *p == i + 1, "point %zu is found in box %d instead of %d", x, p ? *p : 0, i + 1); }
  int* p = t.Search(Vector<U, 1>((U)(2 * n))); c.check(!p, "a point outside is found in a box");
  for(U a : {(U)0, (U)777, (U)n, (U)(2 * n - 9)}) for(U len : {(U)1, (U)8, (U)n}) {
    auto got = t.Search(Vector<U, 1>(a), Vector<U, 1>(a + len)); std::set<int> have; for(auto& g : got) have.insert(g.get()); U want = std::min((U)n - 1, (a + len - 1) / 2) - a / 2 + 1;
    c.check(have.size() == got.size() && have.size() == want && (have.empty() || (*have.begin() == (int)(a / 2) + 1)), "region %zu..%zu: %zu boxes instead of %zu", a, a + len, (U)got.size(), want); c.observe(want);
  }
  U all = 0; t.Apply([&](int&) { all++; }); c.check(all == (U)n, "%zu boxes are listed instead of %d", all, n); c.nontrivial();
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C01"; h.level = "model_checking";
  h.assumptions = {"boxes are non-empty; updates address disjoint boxes", "payload and coordinate types as used by the chunk index (size_t coordinates)"};
  h.space("histories-1d", "all histories of up to 5 inserts of any box on a line of 3 cells, rebuilds and clears; all queries after every operation", 3, [](Ctx& c) { histories<1>(c, 3, c.thorough ? 6 : 5, true); });
  h.space("histories-2d", "all histories of up to 3 (4 thorough) operations over all 9 boxes of a 2x2 grid, rebuilds, clears; queries only at the end", 3, [](Ctx& c) { histories<2>(c, 2, c.thorough ? 5 : 4, false); });
  h.space("histories-3d", "all histories of up to 2 (3 thorough) operations over all 27 boxes of a 2x2x2 grid", 2, [](Ctx& c) { histories<3>(c, 2, c.thorough ? 3 : 2, true); });
  h.space("orders", "all front/back/middle insertion orders of 11 boxes (node overflow) in three geometries", 5, [](Ctx& c) { int g = c.choose(3); orders(c, 11, g); });
  h.space("orders-long", "all front/back/middle insertion orders of 13 boxes", 6, [](Ctx& c) { int g = c.choose(3); orders(c, 13, g); }, 0);
  h.space("tilings-1d", "rows of up to 120 (1200) cells x 4 geometries x 6 orders x 5 rebuild/clear modes x 3 pool sizes", 3, [](Ctx& c) {
    std::vector<int> n{1, 2, 3, 9, 10, 11, 12, 20, 21, 30, 45, 67, 100, 101, 111, 120}; if(c.thorough) for(int x : {200, 333, 999, 1000, 1001, 1200}) n.push_back(x);
    tilings<1>(c, n, 1200); });
  h.space("tilings-2d", "grids of up to 13x13 cells x 4 geometries x 6 orders x 5 rebuild/clear modes x 3 pool sizes", 4, [](Ctx& c) { tilings<2>(c, c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 7, 10, 11, 13, 17, 23} : std::vector<int>{1, 2, 4, 5, 11, 13}, c.thorough ? 400 : 170); });
  h.space("tilings-3d", "grids of up to 125 cells in three dimensions, as above", 4, [](Ctx& c) { tilings<3>(c, c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 8} : std::vector<int>{1, 3, 5}, c.thorough ? 300 : 130); });
  h.space("tilings-4d", "grids of up to 81 cells in four dimensions, as above", 5, [](Ctx& c) { tilings<4>(c, {1, 2, 3}, 81); });
  h.space("growth", "all interleavings of 5 growth steps of 3 columns, with 0, 9 or 30 other entries and rebuilds", 3, [](Ctx& c) { int r = c.pick({0, 9, 30}); growth(c, 3, c.thorough ? 7 : 5, r); });
  h.space("large", "1100 and 11000 (thorough: 120000) boxes in two orders, with and without rebuilding, and more boxes afterwards", 3, [](Ctx& c) { large(c, c.thorough ? std::vector<int>{1100, 11000, 120000} : std::vector<int>{1100, 11000}); }, 1);
  h.space("updates", "all sequences of 2 (3) bound updates (move, shrink, grow, addressed by first or last element) of the first, middle and last of 1, 3, 12 and 40 boxes", 3, [](Ctx& c) { updates(c, c.thorough ? 3 : 2); });
  return mc::run_main(h, argc, argv);
}
