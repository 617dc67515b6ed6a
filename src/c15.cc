// C15: kernel interpolation of in-memory arrays.
#include "gf.hh"
using namespace gf;

template <U V> using A3 = NDVecArray<scalar_t, 3, V>;
template <U V> using A1 = NDVecArray<scalar_t, 1, V>;
template <class K> constexpr const char* kname() { return std::is_same_v<K, Keys> ? "Keys" : "linear"; }

// an array, either owned (then nothing lies beyond its last element) or a view into the middle of a larger one
template <U V> struct Host {
  std::unique_ptr<A3<V>> own; std::unique_ptr<A3<V>> view; I3 n;
  Host(const I3& n, bool as_view) : n(n) {
    if(as_view) { own = std::make_unique<A3<V>>(n + U(3), 1e9f); view = std::make_unique<A3<V>>(own -> View(I3(U(2)), I3(n + U(2)))); }
    else { own = std::make_unique<A3<V>>(n, 0.0f); }
    each<3>(I3(U(0)), n, [&](const I3& i) { for(U k = 0; k < V; k++) get()[i][k] = 0.0f; });
  }
  A3<V>& get() { return view ? *view : *own; }
};

// positions inside [s-1, n-s] along one axis at which the stencil lies within the array: a lattice, and the neighbours of the nodes
template <class K> std::vector<float> positions(U n, int per, bool near) {
  std::vector<float> r; const int s = RefKernel<K>::support;
  for(int k = (s - 1) * per; k < ((int)n - s) * per; k++) { float x = (float)k / per; r.push_back(x); if(near && k % per == 0) { r.push_back(std::nextafter(x + 1, 0.0f)); if(x > 0) r.push_back(std::nextafter(x, 1e9f)); } }
  return r;
}
template <class K> double reference(const std::function<double(int, int, int)>& f, double r, double z, double t, double* sc) {
  constexpr int s = RefKernel<K>::support; int b[3] = {(int)std::floor(r), (int)std::floor(z), (int)std::floor(t)}; double sum = 0;
  for(int i = b[0] - s + 1; i <= b[0] + s; i++) for(int j = b[1] - s + 1; j <= b[1] + s; j++) for(int k = b[2] - s + 1; k <= b[2] + s; k++) {
    double w = RefKernel<K>::w(r - i) * RefKernel<K>::w(z - j) * RefKernel<K>::w(t - k); if(w == 0) continue;
    double x = w * f(i, j, k); sum += x; *sc += std::fabs(x);
  }
  return sum;
}
// number of samples that fit
template <class K> U fitting(float t, float dt, U n) { U k = 0; const int s = RefKernel<K>::support; while(k < 12) { float x = t + k * dt; if(x < s - 1 || x >= (float)((int)n - s)) break; k++; } return k; }

// what is stored in the array
template <U V> std::function<double(int, int, int, U)> content(Ctx& c, Host<V>& h, int kind, I3 at, U comp) {
  // 0: a single node, 1: values without structure, 2: a constant, 3: one monomial in the three coordinates
  std::function<double(int, int, int, U)> f;
  if(kind == 0) f = [=](int i, int j, int k, U v) { return (U)i == at[0] && (U)j == at[1] && (U)k == at[2] && v == comp ? 1.0 : 0.0; };
  else if(kind == 1) f = [=](int i, int j, int k, U v) { return (double)pattern(((U)i * 7 + j) * 97 + k * 5 + v); };
  else if(kind == 2) f = [=](int, int, int, U v) { return 2.5 + v; };
  else f = [=](int i, int j, int k, U v) { return std::pow(i, (int)at[0]) * std::pow(j, (int)at[1]) * std::pow(k, (int)at[2]) * (1.0 + v); };
  each<3>(I3(U(0)), h.n, [&](const I3& i) { for(U v = 0; v < V; v++) h.get()[i][v] = (float)f(i[0], i[1], i[2], v); });
  return f;
}

template <class K, U V> void call(Ctx& c, Host<V>& h, const std::function<double(int, int, int, U)>& f, float r, float z, float t, float dt, U num, A1<V>& out, bool poly) {
  c.step();
  Interpolation::interpolate<K, scalar_t, 3, V>(h.get(), out, Vector<scalar_t, 2>{r, z}, t, dt, num);
  c.check(out.GetShape()[0] == num, "%zu samples were requested, %zu returned", num, (U)out.GetShape()[0]);
  for(U i = 0; i < num; i++) for(U v = 0; v < V; v++) {
    double ti = (double)t + (double)i * dt, sc = 0, want = reference<K>([&](int a, int b, int d) { return f(a, b, d, v); }, r, z, ti, &sc), got = out[i][v];
    c.observe_f(out[i][v]);
    c.check(std::fabs(got - want) <= 4e-6 * (sc + 1), "%s kernel at (%.9g, %.9g, %.9g), component %zu: %.9g, expected %.9g", kname<K>(), r, z, ti, v, got, want);
    // at nodes the value is the stored one
    bool node = std::floor(r) == r && std::floor(z) == z && std::floor(ti) == ti;
    if(node) { double x = f((int)r, (int)z, (int)ti, v); c.check(std::fabs(got - x) <= 2e-6 * (std::fabs(x) + sc), "%s kernel on node (%g, %g, %g), component %zu: %.9g, stored is %.9g", kname<K>(), r, z, ti, v, got, x); }
  }
}
// polynomials up to the order of the kernel are exact everywhere: this does not refer to the kernel at all
template <class K> void polynomials(Ctx& c, bool big) {
  const U deg = std::is_same_v<K, Keys> ? 2 : 1; const int s = RefKernel<K>::support; I3 n = big ? I3{(U)(2 * s + 1), (U)(2 * s + 2), (U)(2 * s + 4)} : I3{(U)(2 * s), (U)(2 * s + 1), (U)(2 * s + 2)};
  I3 e = pick_ind<3>(c, 0, deg); bool view = c.flag(); c.op("%s kernel, %s samples%s, monomial %s", kname<K>(), ::str(n).c_str(), view ? " as a view" : "", ::str(e).c_str());
  Host<1> h(n, view); auto f = content<1>(c, h, 3, e, 0); U nb = 0;
  const int per = c.thorough ? 16 : big ? 8 : 2;
  for(float r : positions<K>(n[0], per, true)) for(float z : positions<K>(n[1], per, true)) for(float t : positions<K>(n[2], per, true)) {
    A1<1> out(1, 0.0f); c.step(); c.state(mc::mix(hash_ind<3>(e), mc::mix(view, nb++)));
    Interpolation::interpolate<K, scalar_t, 3, 1>(h.get(), out, Vector<scalar_t, 2>{r, z}, t, 1.0f, 1);
    auto p = [](double x, U k) { return k == 0 ? 1.0 : k == 1 ? x : x * x; };
    double want = p(r, e[0]) * p(z, e[1]) * p(t, e[2]), got = out[0][0], top = p(n[0], e[0]) * p(n[1], e[1]) * p(n[2], e[2]);
    c.check(std::fabs(got - want) <= 3e-6 * (top + 1), "%s kernel at (%.9g, %.9g, %.9g) for monomial %s: %.9g, expected %.9g", kname<K>(), r, z, t, ::str(e).c_str(), got, want);
  }
}
// the whole linear map: every single node, every position, every component
template <class K, U V> void impulses(Ctx& c, bool big) {
  const U s = RefKernel<K>::support; I3 n{2 * s + c.choose(2), 2 * s + c.choose(2), 2 * s + c.choose(big ? 3 : 2)}; bool view = c.flag(); I3 at = pick_ind<3>(c, 0, 0);
  for(int k = 0; k < 3; k++) at[k] = c.choose((int)n[k]);
  c.op("%s kernel, %s samples of %zu components%s, node %s", kname<K>(), ::str(n).c_str(), V, view ? " as a view" : "", ::str(at).c_str());
  Host<V> h(n, view); U nb = 0; const int per = c.thorough ? 6 : big ? 4 : 2;
  for(U comp = 0; comp < V; comp++) {
    auto f = content<V>(c, h, 0, at, comp);
    for(float r : positions<K>(n[0], per, big)) for(float z : positions<K>(n[1], per, big)) for(float t : positions<K>(n[2], per, big)) {
      A1<V> out(1, 0.0f); c.state(mc::mix(hash_ind<3>(at, hash_ind<3>(n)), mc::mix(view * 8 + comp, nb++))); call<K, V>(c, h, f, r, z, t, 1.0f, 1, out, false);
    }
  }
}
// runs of samples: every start and increment, as many as fit and fewer, ending on the last admissible position; the output is reused
template <class K, U V> void runs(Ctx& c, bool big) {
  const U s = RefKernel<K>::support; I3 n{2 * s, 2 * s + 1, 2 * s + (big ? 6u : 3u)}; int kind = 1 + c.choose(2); bool view = c.flag(); float dt = c.pick({0.25f, 0.5f, 1.0f, 1.5f, 0.375f, 2.0f, 0.0f, -0.5f, -1.0f});
  c.op("%s kernel, %s samples of %zu components%s, content %d, increment %g", kname<K>(), ::str(n).c_str(), V, view ? " as a view" : "", kind, dt);
  Host<V> h(n, view); auto f = content<V>(c, h, kind, I3(U(0)), 0); A1<V> out(U(14), 0.0f); U nb = 0;
  for(float r : positions<K>(n[0], 2, false)) for(float z : positions<K>(n[1], 2, false)) for(float t : positions<K>(n[2], c.thorough ? 32 : big ? 8 : 4, false)) {
    U m = fitting<K>(t, dt, n[2]);
    for(U num = m; num + (big ? 4 : 2) > m; num--) {
      if(num == 0 && m != 0 && !big) break;
      c.state(mc::mix(nb++, mc::mix(kind * 2 + view, (U)(dt * 64 + 1024))));
      // an array that was larger before, and zeroed; the call itself or the caller shrinks it
      out.resize(U(14)); out.clear(); if(nb & 1) out.resize(num);
      call<K, V>(c, h, f, r, z, t, dt, num, out, false);
      if(num == 0) break;
    }
  }
}

// long runs whose increment is close to a multiple of a node distance, so that the position within a cell drifts slowly (or not at all)
template <class K> void drift(Ctx& c, bool big) {
  const int s = RefKernel<K>::support; const float base = c.pick({1.0f, 0.5f, 2.0f, 0.0f}); const float ds[] = {0.0f, 1e-6f, 1e-5f, 4e-5f, 8e-5f, 1.5e-4f, 4e-4f, 1e-3f, 3e-3f, 1e-2f}; float d = ds[c.choose(10)] * (c.flag() ? -1 : 1); U num = big ? 500 : 110; float dt = base + d; if(dt < 0) { c.prune(); return; }
  I3 n{(U)(2 * s), (U)(2 * s), (U)(num * (base + 1e-2) + 2 * s + 4)}; bool view = c.flag(); int kind = c.choose(2); float t = s - 1 + (d < 0 ? 2 : 0) + c.pick({0.0f, 0.25f, 0.5f, 0.96875f});
  c.op("%s kernel, %zu samples from %g by %.9g, %s%s", kname<K>(), num, t, dt, kind ? "linear ramp" : "alternating values", view ? ", view" : ""); c.nontrivial();
  Host<1> h(n, view); std::function<double(int, int, int)> f; if(kind) f = [](int i, int, int k) { return (double)i + k; }; else f = [](int, int j, int k) { return (k & 1 ? 1.0 : -1.0) + 0.25 * (j & 1); };
  each<3>(I3(U(0)), n, [&](const I3& i) { h.get()[i][0] = (float)f(i[0], i[1], i[2]); });
  U nb = 0; for(float r : positions<K>(n[0], big ? 4 : 2, false)) for(float z : {(float)(s - 1), s - 1 + 0.375f}) {
    A1<1> out(num, 0.0f); c.step(); c.state(mc::mix((U)(dt * 1e7), mc::mix((U)(t * 32) * 64 + kind * 2 + view, nb++)));
    Interpolation::interpolate<K, scalar_t, 3, 1>(h.get(), out, Vector<scalar_t, 2>{r, z}, t, dt, num);
    for(U i = 0; i < num; i++) {
      double ti = (double)t + (double)i * dt, sc = 0, want = reference<K>(f, r, z, ti, &sc), got = out[i][0]; c.observe_f(out[i][0]);
      c.check(std::fabs(got - want) <= 4e-6 * (sc + 1) + 2e-6 * (ti + 1), "%s kernel at (%.9g, %.9g, %.9g), sample %zu of the run: %.9g, expected %.9g", kname<K>(), r, z, ti, i, got, want);
    }
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C15"; h.level = "model_checking";
  h.assumptions = {"three axes of single-precision values, as the code requires", "the stencil lies within the array: positions from support-1 up to, but not including, size-support along each axis", "the output array is zeroed beforehand, as all callers do", "agreement within a few single-precision roundings of the sum of magnitudes of all terms"};
  h.space("polynomials-keys", "all monomials up to second order per axis, positions on an eighth (sixteenth) lattice and next to every node", 3, [](Ctx& c) { polynomials<Keys>(c, !c.lite); });
  h.space("polynomials-linear", "all monomials up to first order per axis, likewise", 3, [](Ctx& c) { polynomials<Linear>(c, !c.lite); });
  h.space("impulses", "every single node and component of all small arrays, positions on a quarter (sixth) lattice", 4, [](Ctx& c) { switch(c.choose(5)) { case 0: impulses<Keys, 1>(c, !c.lite); break; case 1: impulses<Keys, 2>(c, !c.lite); break; case 2: impulses<Linear, 3>(c, !c.lite); break; case 3: impulses<Linear, 1>(c, !c.lite); break; default: impulses<Linear, 2>(c, !c.lite); } }, 1);
  h.space("runs", "runs of samples: all starts on an eighth (thirty-second) lattice, 9 increments, as many samples as fit and fewer", 3, [](Ctx& c) { switch(c.choose(4)) { case 0: runs<Keys, 2>(c, !c.lite); break; case 1: runs<Keys, 1>(c, !c.lite); break; case 2: runs<Linear, 2>(c, !c.lite); break; default: runs<Linear, 3>(c, !c.lite); } });
  h.space("drift", "runs of 110 (500) samples with increments that differ from 0, 1/2, 1 and 2 by 0 and 1e-6 ... 1e-2", 3, [](Ctx& c) { if(c.flag()) drift<Keys>(c, c.thorough); else drift<Linear>(c, c.thorough); }, 1);
  return mc::run_main(h, argc, argv);
}
