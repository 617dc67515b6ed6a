// C03: NDVecArray against a plain index -> value map.
#include "vf.hh"
#include "NDVecArray.hh"

template <U D, U V> using Arr = NDVecArray<float, D, V>;

// distinct, exactly representable values
static float val(U tag, U flat_index, U k) { return (float)(1 + tag * 4096 + flat_index * 4 + k); }

template <U D, U V> void fill_both(Arr<D, V>& a, Ref<D, V>& r, U tag) {
  each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) {
    for(U k = 0; k < V; k++) { float x = val(tag, flat<D>(i, r.shape), k); a[i][k] = x; r.set(i, k, x); }
  });
}

// full comparison of an array (or view) with a window of the reference, through every read interface
template <U D, U V> void same(Ctx& c, const Arr<D, V>& a, const Ref<D, V>& r, const Ind<D>& off, const Ind<D>& shape, const char* what) {
  c.check(a.GetShape() == shape, "%s: shape %s, expected %s", what, str(a.GetShape()).c_str(), str(shape).c_str());
  c.check(a.GetNumberElements() == count<D>(shape) && a.GetVolume() == count<D>(shape) * V, "%s: %zu elements, %zu values for shape %s", what, a.GetNumberElements(), a.GetVolume(), str(shape).c_str());
  bool all_null = true, all_known = true;
  std::vector<Ind<D>> order;
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) {
    Ind<D> g = i + off;
    order.push_back(i);
    if(!r.is_known(g)) { all_known = false; return; }
    bool null = true;
    auto e = a[i];
    for(U k = 0; k < V; k++) {
      c.check(e[k] == r.at(g, k), "%s: element %s component %zu reads %g, expected %g", what, str(i).c_str(), k, (double)e[k], (double)r.at(g, k));
      c.observe_f(e[k]);
      null &= r.at(g, k) == 0.0f;
    }
    all_null &= null;
    c.check(a.IsNull(i) == null, "%s: IsNull(%s)", what, str(i).c_str());
    c.check(a.has_index(i) && a.index_within_bounds(i) && Arr<D, V>::has_index(i, shape), "%s: index %s of the array is reported as invalid", what, str(i).c_str());
  });
  for(U d = 0; d < D; d++) {
    Ind<D> o(U(0)); o[d] = shape[d];
    c.check(!a.has_index(o) && !a.index_within_bounds(o), "%s: index %s beyond the array is reported as valid", what, str(o).c_str());
  }
  U n = 0;
  a.loop_over_elements([&](const VectorView<float, V>& e) {
    c.check(n < order.size(), "%s: sequential loop visits more elements than there are", what);
    Ind<D> g = order[n] + off;
    if(r.is_known(g)) for(U k = 0; k < V; k++) c.check(e[k] == r.at(g, k), "%s: sequential loop visits %g as element %s, expected %g", what, (double)e[k], str(order[n]).c_str(), (double)r.at(g, k));
    n++;
  });
  c.check(n == order.size(), "%s: sequential loop visits %zu of %zu elements", what, n, order.size());
  n = 0;
  a.index_loop_over_elements([&](const Ind<D>& i, const VectorView<float, V>& e) {
    c.check(n < order.size() && i == order[n], "%s: index loop visits %s out of order", what, str(i).c_str());
    Ind<D> g = i + off;
    if(r.is_known(g)) for(U k = 0; k < V; k++) c.check(e[k] == r.at(g, k), "%s: index loop visits %g at %s, expected %g", what, (double)e[k], str(i).c_str(), (double)r.at(g, k));
    n++;
  });
  c.check(n == order.size(), "%s: index loop visits %zu of %zu elements", what, n, order.size());
  if(all_known) c.check(a.IsAllNull() == all_null, "%s: IsAllNull()", what);
}
template <U D, U V> void same(Ctx& c, const Arr<D, V>& a, const Ref<D, V>& r, const char* what) { same<D, V>(c, a, r, Ind<D>(U(0)), r.shape, what); }
template <U D, U V> Ref<D, V> window(const Ref<D, V>& r, const Ind<D>& s, const Ind<D>& e) {
  Ref<D, V> w(e - s);
  each<D>(s, e, [&](const Ind<D>& i) { Ind<D> j = i - s; if(r.is_known(i)) for(U k = 0; k < V; k++) w.set(j, k, r.at(i, k)); });
  return w;
}
template <U D> void pick_range(Ctx& c, const Ind<D>& shape, Ind<D>& s, Ind<D>& e) {
  for(U d = 0; d < D; d++) { s[d] = c.choose((int)shape[d]); e[d] = c.range((int)s[d] + 1, (int)shape[d]); }
}

// ---- all sub-ranges of all shapes: views, views of views, copies, writes, fills, loops
template <U D, U V> void subranges(Ctx& c, U maxext) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext), s, e;
  pick_range<D>(c, shape, s, e);
  Arr<D, V> a(shape); Ref<D, V> r(shape);
  fill_both<D, V>(a, r, 0);
  c.state(hash_ind<D>(e, hash_ind<D>(s, hash_ind<D>(shape))));
  c.op("view %s..%s of %s", str(s).c_str(), str(e).c_str(), str(shape).c_str());
  Arr<D, V> v = a.View(s, e);
  same<D, V>(c, v, r, s, e - s, "view");
  c.check(!v.owns_data() && a.owns_data(), "ownership of view and array");
  // every sub-range of the view
  Ind<D> vs = e - s;
  each<D>(Ind<D>(U(0)), vs, [&](const Ind<D>& s2) { each<D>(s2 + (U)1, vs + (U)1, [&](const Ind<D>& e2) {
    Arr<D, V> v2 = v.View(s2, e2);
    same<D, V>(c, v2, r, s + s2, e2 - s2, "view of a view"); c.step();
    U n = 0;
    std::vector<Ind<D>> order; each<D>(s2, e2, [&](const Ind<D>& i) { order.push_back(i); });
    v.index_loop_over_elements(s2, e2, [&](const Ind<D>& i, const VectorView<float, V>& el) {
      c.check(n < order.size() && i == order[n], "partial index loop visits %s", str(i).c_str());
      for(U k = 0; k < V; k++) c.check(el[k] == r.at(s + i, k), "partial index loop sees a wrong value at %s", str(i).c_str());
      n++;
    });
    c.check(n == order.size(), "partial index loop visits %zu of %zu", n, order.size());
  }); });
  // copies of the view
  Ref<D, V> w = window<D, V>(r, s, e);
  { Arr<D, V> b(v); same<D, V>(c, b, w, "copy of a view"); c.check(b.owns_data(), "a copy must own its data");
    b[Ind<D>(U(0))][0] = -5.0f; same<D, V>(c, a, r, "array after writing to a copy"); }
  { Ind<D> other_shape(U(2)); other_shape[0] = 3; Arr<D, V> b(other_shape, 7.0f); b = v; same<D, V>(c, b, w, "array assigned from a view"); }
  { Ind<D> sh(U(1)); Arr<D, V> b(sh); b = a; same<D, V>(c, b, r, "array assigned from an array"); Arr<D, V> b2(a); same<D, V>(c, b2, r, "copied array"); }
  c.step(4);
  int action = c.choose(5);
  switch(action) {
    case 0:     // write through the view
      c.op("write elements of the view");
      each<D>(Ind<D>(U(0)), vs, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) { float x = val(2, flat<D>(i, vs), k); v[i][k] = x; r.set(s + i, k, x); } });
      break;
    case 1:     // assign vectors
      c.op("assign vectors through the view");
      each<D>(Ind<D>(U(0)), vs, [&](const Ind<D>& i) { Vector<float, V> x; for(U k = 0; k < V; k++) { x[k] = val(3, flat<D>(i, vs), k); r.set(s + i, k, x[k]); } v[i] = x; });
      break;
    case 2:     // assign a value to the view
      c.op("assign a value to the view");
      v = 42.5f; each<D>(s, e, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 42.5f); });
      break;
    case 3:     // fill the same range through the array, then null it
      c.op("fill the range");
      a.fill(s, e, 0.0f); each<D>(s, e, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 0.0f); });
      same<D, V>(c, v, r, s, e - s, "nulled view");
      break;
    case 4:     // assign elements from elements
      c.op("assign elements from elements");
      each<D>(s, e, [&](const Ind<D>& i) { Ind<D> src(U(0)); const auto el = a[src]; a[i] = el; for(U k = 0; k < V; k++) r.set(i, k, r.at(src, k)); });
      break;
  }
  same<D, V>(c, a, r, "array after the change");
  same<D, V>(c, v, r, s, e - s, "view after the change");
  a.clear(); each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 0.0f); });
  same<D, V>(c, a, r, "cleared array");
  same<D, V>(c, v, r, s, e - s, "view of the cleared array");
}

// ---- fill_from: all source ranges, destination shapes and positions; source and destination plain or views
template <U D, U V> void fill_from(Ctx& c, U maxext) {
  Ind<D> ss = pick_ind<D>(c, 1, maxext), is, ie; pick_range<D>(c, ss, is, ie);
  Ind<D> ds, os;
  for(U d = 0; d < D; d++) { ds[d] = c.range((int)(ie[d] - is[d]), (int)maxext + 1); os[d] = c.choose((int)(ds[d] - (ie[d] - is[d]) + 1)); }
  int mode = c.choose(4);
  c.op("fill_from %s: %s..%s into %s at %s, mode %d", str(ss).c_str(), str(is).c_str(), str(ie).c_str(), str(ds).c_str(), str(os).c_str(), mode);
  c.state(hash_ind<D>(os, hash_ind<D>(ds, hash_ind<D>(ie, hash_ind<D>(is, hash_ind<D>(ss))))));
  // embed source and/or destination into larger arrays
  Ind<D> pad(U(1)), sbig = ss + (U)2, dbig = ds + (U)2;
  Arr<D, V> sparent(sbig), dparent(dbig); Ref<D, V> sr(sbig), dr(dbig);
  fill_both<D, V>(sparent, sr, 1); fill_both<D, V>(dparent, dr, 2);
  Ref<D, V> swin = window<D, V>(sr, pad, pad + ss), dwin = window<D, V>(dr, pad, pad + ds);
  Arr<D, V> sview = sparent.View(pad, pad + ss), dview = dparent.View(pad, pad + ds);
  Arr<D, V> sown(sview), down(dview);      // copies that own their data
  (mode & 2 ? dview : down).fill_from(mode & 1 ? sview : sown, is, ie, os);
  each<D>(is, ie, [&](const Ind<D>& i) { Ind<D> o = os + (i - is); for(U k = 0; k < V; k++) { dwin.set(o, k, swin.at(i, k)); if(mode & 2) dr.set(pad + o, k, swin.at(i, k)); } });
  same<D, V>(c, mode & 2 ? dview : down, dwin, "destination");
  same<D, V>(c, dparent, dr, "surroundings of the destination");
  same<D, V>(c, sparent, sr, "source");
}

template <U D, U V> void fill_column(Ctx& c, U maxext) {
  Ind<D> ds = pick_ind<D>(c, 1, maxext), os;
  for(U d = 0; d < D; d++) os[d] = c.choose((int)ds[d]);
  U len = c.range(1, (int)(ds[D - 1] - os[D - 1]));
  c.op("column of %zu into %s at %s", len, str(ds).c_str(), str(os).c_str());
  c.state(hash_ind<D>(os, hash_ind<D>(ds, len)));
  Arr<D, V> a(ds); Ref<D, V> r(ds); fill_both<D, V>(a, r, 0);
  NDVecArray<float, 1, V> col(len); 
  for(U i = 0; i < len; i++) for(U k = 0; k < V; k++) { float x = val(5, i, k); col[i][k] = x; Ind<D> o = os; o[D - 1] += i; r.set(o, k, x); }
  a.template fill_from<D - 1>(col, os);
  same<D, V>(c, a, r, "array with a filled column");
}

// ---- appending along the first axis, repeatedly, from arrays and views; resizing in between
template <U D, U V> void append(Ctx& c, U maxext, int nmax) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext);
  Ref<D, V> r(shape); Arr<D, V> a(shape); fill_both<D, V>(a, r, 0);
  int start = c.choose(3);        // 0: plain, 1: was larger before, 2: copy of a view
  if(start == 1) { Ind<D> big = shape + (U)2; Arr<D, V> b(big, 9.0f); b.resize(shape); a.resize(big); a.resize(shape); fill_both<D, V>(a, r, 0); }
  int n = c.range(1, nmax);
  auto run = [&](Arr<D, V>& a) {
    for(int k = 0; k < n; k++) {
      Ind<D> os = shape; os[0] = c.range(1, (int)maxext);
      int how = c.choose(3);
      c.op("append %s%s", str(os).c_str(), how == 1 ? " (view)" : how == 2 ? " (run-time axis)" : "");
      Ind<D> pb = os + (U)2, pad(U(1));
      Arr<D, V> parent(pb); Ref<D, V> pr(pb); fill_both<D, V>(parent, pr, 10 + k);
      Arr<D, V> v = parent.View(pad, pad + os);
      Ref<D, V> nr(Ind<D>(r.shape));
      nr.shape[0] += os[0]; nr = Ref<D, V>(nr.shape);
      each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) { for(U q = 0; q < V; q++) nr.set(i, q, r.at(i, q)); });
      each<D>(Ind<D>(U(0)), os, [&](const Ind<D>& i) { Ind<D> o = i; o[0] += r.shape[0]; for(U q = 0; q < V; q++) nr.set(o, q, pr.at(i + pad, q)); });
      if(how == 1) a.template Append<0>(v);
      else { Arr<D, V> own(os); each<D>(Ind<D>(U(0)), os, [&](const Ind<D>& i) { for(U q = 0; q < V; q++) own[i][q] = pr.at(i + pad, q); }); if(how == 2) a.Append(own, 0); else a.template Append<0>(own); }
      r = nr;
      c.state(r.hash());
      same<D, V>(c, a, r, "array after appending");
    }
  };
  if(start == 2) {
    Ind<D> big = shape + (U)1; Arr<D, V> parent(big, 3.0f); parent.fill_from(a, Ind<D>(U(0)), shape, Ind<D>(U(1)));
    Arr<D, V> bv = parent.View(Ind<D>(U(1)), big), b(bv);
    run(b);
  }
  else run(a);
}

template <U D, U V, U A, U B> void swap1(Ctx& c, Arr<D, V>& a, const Ref<D, V>& r, const char* what) {
  Ind<D> ss = r.shape; std::swap(ss[A], ss[B]);
  Ref<D, V> t(ss);
  each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) { Ind<D> j = i; std::swap(j[A], j[B]); for(U k = 0; k < V; k++) t.set(j, k, r.at(i, k)); });
  Ind<D> any(U(2));
  Arr<D, V> dest(any, 5.0f);
  a.template SwapAxes<A, B>(dest);
  same<D, V>(c, dest, t, what);
  Arr<D, V> back(any); dest.template SwapAxes<A, B>(back); same<D, V>(c, back, r, "axes swapped twice");
  same<D, V>(c, a, r, "source of the swap");
  c.step(2);
}
template <U D, U V> void swaps(Ctx& c, U maxext) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext);
  c.op("swap axes of %s", str(shape).c_str());
  c.state(hash_ind<D>(shape));
  Arr<D, V> parent(shape + (U)2); Ref<D, V> pr(shape + (U)2); fill_both<D, V>(parent, pr, 1);
  Ind<D> pad(U(1));
  Arr<D, V> v = parent.View(pad, pad + shape), own(v); Ref<D, V> r = window<D, V>(pr, pad, pad + shape);
  [&]<U... I>(std::index_sequence<I...>) {
    ([&]<U A>() { [&]<U... J>(std::index_sequence<J...>) {
      ((swap1<D, V, A, J>(c, own, r, "array with swapped axes"), swap1<D, V, A, J>(c, v, r, "view with swapped axes")), ...);
    }(std::make_index_sequence<D>()); }.template operator()<I>(), ...);
  }(std::make_index_sequence<D>());
}

// ---- null tests: all zero patterns of small arrays
template <U D, U V> void nulls(Ctx& c, U maxext, U max_values) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext);
  U n = count<D>(shape) * V;
  if(n > max_values) c.prune();
  Arr<D, V> a(shape); Ref<D, V> r(shape);
  std::string bits;
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) { bool b = c.flag(); float x = b ? (flat<D>(i, shape) % 2 ? -1.0f : 1e-20f) : 0.0f; a[i][k] = x; r.set(i, k, x); bits += b ? '1' : '0'; } });
  c.op("nulls %s of %s", bits.c_str(), str(shape).c_str());
  c.state(mc::hash_str(bits + str(shape)));
  same<D, V>(c, a, r, "array");
  each<D>(Ind<D>(U(0)), shape, [&](const Ind<D>& s) { each<D>(s + (U)1, shape + (U)1, [&](const Ind<D>& e) {
    bool null = true; each<D>(s, e, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) null &= r.at(i, k) == 0.0f; });
    Arr<D, V> v = a.View(s, e);
    c.check(v.IsAllNull() == null, "IsAllNull() of the view %s..%s of %s with pattern %s", str(s).c_str(), str(e).c_str(), str(shape).c_str(), bits.c_str());
  }); });
}

// ---- histories: construction variants, resizing, filling, assignment, appending, copying, in any order
template <U D, U V> void histories(Ctx& c, int depth) {
  std::vector<Ind<D>> shapes; each<D>(Ind<D>(U(1)), Ind<D>(U(3)), [&](const Ind<D>& s) { if(D < 3 || count<D>(s) < 8) shapes.push_back(s); });
  Ind<D> s0 = c.pick(shapes);
  int how = c.choose(2);
  Arr<D, V> a = how ? Arr<D, V>(s0, 2.5f) : Arr<D, V>(s0);
  Ref<D, V> r(s0);
  if(how) each<D>(Ind<D>(U(0)), s0, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 2.5f); });
  c.op("construct %s%s", str(s0).c_str(), how ? " with value" : "");
  same<D, V>(c, a, r, "constructed array");
  for(int n = 0; n < depth; n++) {
    switch(c.choose(7)) {
      case 0: { Ind<D> s = c.pick(shapes); c.op("resize %s", str(s).c_str()); a.resize(s); r = Ref<D, V>(s); break; }
      case 1: { Ind<D> s = c.pick(shapes); c.op("resize %s with value", str(s).c_str()); a.resize(s, 1.5f + n); r = Ref<D, V>(s); each<D>(Ind<D>(U(0)), s, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 1.5f + n); }); break; }
      case 2: c.op("write all"); fill_both<D, V>(a, r, 20 + n); break;
      case 3: c.op("clear"); a.clear(); each<D>(Ind<D>(U(0)), r.shape, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 0.0f); }); break;
      case 4: { c.op("assign copy of a view of another array"); Ind<D> s = c.pick(shapes); Arr<D, V> b(s + (U)1); Ref<D, V> br(s + (U)1); fill_both<D, V>(b, br, 30 + n); Ind<D> one(U(1)); a = b.View(one, one + s); r = window<D, V>(br, one, one + s); break; }
      case 5: { c.op("append a slice"); Ind<D> s = r.shape; s[0] = 1; if(r.shape[0] > 4) c.prune(); Arr<D, V> b(s); Ref<D, V> br(s); fill_both<D, V>(b, br, 40 + n); a.template Append<0>(b);
        Ind<D> ns = r.shape; ns[0]++; Ref<D, V> nr(ns); each<D>(Ind<D>(U(0)), ns, [&](const Ind<D>& i) { Ind<D> z = i; if(i[0] < r.shape[0]) { if(r.is_known(i)) for(U k = 0; k < V; k++) nr.set(i, k, r.at(i, k)); } else { z[0] = 0; for(U k = 0; k < V; k++) nr.set(i, k, br.at(z, k)); } }); r = nr; break; }
      case 6: { c.op("write through the last row's view"); Ind<D> s(U(0)); s[0] = r.shape[0] - 1; Arr<D, V> v = a.View(s, r.shape); v = 77.0f; each<D>(s, r.shape, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 77.0f); }); break; }
    }
    std::uint64_t h = r.hash(); for(char k : r.known) h = mc::mix(h, k);
    c.state(h);
    same<D, V>(c, a, r, "array");
  }
}

// ---- apply_sequential
template <U D, U V> void sequential(Ctx& c, U maxext) {
  Ind<D> shape = pick_ind<D>(c, 1, maxext), o(U(0));
  for(U d = 0; d + 1 < D; d++) o[d] = c.choose((int)shape[d]);
  int pat = c.choose(3);
  Arr<D, V> parent(shape + (U)1); Ref<D, V> pr(shape + (U)1); fill_both<D, V>(parent, pr, 1);
  Ind<D> one(U(1)); Arr<D, V> v = parent.View(one, one + shape);
  std::vector<U> inds; for(U i = 0; i < shape[D - 1]; i++) inds.push_back(pat == 0 ? i : pat == 1 ? shape[D - 1] - 1 - i : i / 2);
  c.op("sequential access of %s at %s, pattern %d", str(shape).c_str(), str(o).c_str(), pat);
  c.state(hash_ind<D>(o, hash_ind<D>(shape, pat)));
  U n = 0;
  v.apply_sequential(o, inds, [&](const VectorView<float, V>& e) { c.check(n < inds.size(), "too many visits"); Ind<D> i = o; i[D - 1] = inds[n++]; for(U k = 0; k < V; k++) c.check(e[k] == pr.at(one + i, k), "sequential access at %s", str(i).c_str()); });
  c.check(n == inds.size(), "visited %zu of %zu", n, inds.size());
}

// ---- which shapes can be concatenated
template <U D> void concat(Ctx& c, U maxext) {
  Ind<D> a = pick_ind<D>(c, 1, maxext), b = pick_ind<D>(c, 1, maxext);
  c.op("concatenate %s and %s", str(a).c_str(), str(b).c_str());
  for(U ax = 0; ax < D; ax++) {
    bool want = true; for(U d = 0; d < D; d++) if(d != ax && a[d] != b[d]) want = false;
    c.check(Arr<D, 2>::ShapeAllowsConcatenation(a, b, ax) == want, "ShapeAllowsConcatenation(%s, %s, %zu)", str(a).c_str(), str(b).c_str(), ax);
  }
  bool w0 = true; for(U d = 1; d < D; d++) w0 &= a[d] == b[d];
  c.check(Arr<D, 2>::template ShapeAllowsConcatenation<0>(a, b) == w0, "ShapeAllowsConcatenation<0>");
}

// ---- one-dimensional arrays: indexing by a plain number
template <U V> void linear(Ctx& c, U maxext) {
  U len = c.range(1, (int)maxext), s = c.choose((int)len), e = c.range((int)s + 1, (int)len);
  c.op("1d array of %zu, view %zu..%zu", len, s, e);
  c.state(mc::mix(len, s * 100 + e));
  Arr<1, V> a(len, 1.25f);
  for(U i = 0; i < len; i++) for(U k = 0; k < V; k++) { c.check(a[i][k] == 1.25f, "initial value"); a[i][k] = val(1, i, k); }
  Arr<1, V> v = a.View(Ind<1>(s), Ind<1>(e));
  for(U i = 0; i < e - s; i++) for(U k = 0; k < V; k++) c.check(v[i][k] == val(1, s + i, k), "element %zu of the view %zu..%zu reads %g instead of %g", i, s, e, (double)v[i][k], (double)val(1, s + i, k));
  for(U i = 0; i < e - s; i++) v[i][0] = -1.0f;
  for(U i = 0; i < len; i++) c.check(a[i][0] == (i >= s && i < e ? -1.0f : val(1, i, 0)), "element %zu after writing through the view", i);
  a.resize(e); c.check(a.GetShape()[0] == e && a.GetVolume() == e * V, "resized length");
}

// ---- longer axes: one action on one view of a larger array
template <U D, U V> void large(Ctx& c, const std::vector<int>& exts) {
  Ind<D> shape, s, e;
  for(U d = 0; d < D; d++) { shape[d] = c.pick(exts); s[d] = shape[d] > 1 ? c.choose(2) * (shape[d] / 2) : 0; e[d] = shape[d] > 1 ? shape[d] - c.choose(2) : 1; if(e[d] <= s[d]) c.prune(); }
  int action = c.choose(6);
  c.op("large array %s, view %s..%s, action %d", str(shape).c_str(), str(s).c_str(), str(e).c_str(), action);
  c.state(hash_ind<D>(e, hash_ind<D>(s, hash_ind<D>(shape, action))));
  Arr<D, V> a(shape); Ref<D, V> r(shape); fill_both<D, V>(a, r, 0);
  Arr<D, V> v = a.View(s, e); Ref<D, V> w = window<D, V>(r, s, e);
  switch(action) {
    case 0: { Arr<D, V> b(v); same<D, V>(c, b, w, "copy"); same<D, V>(c, v, w, "view"); break; }
    case 1: { v = 3.5f; each<D>(s, e, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) r.set(i, k, 3.5f); }); same<D, V>(c, a, r, "filled array"); break; }
    case 2: { Ind<D> big = (e - s) + (U)2, one(U(1)); Arr<D, V> b(big, -1.0f); Ref<D, V> br(big); each<D>(Ind<D>(U(0)), big, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) br.set(i, k, -1.0f); });
      b.fill_from(a, s, e, one); each<D>(s, e, [&](const Ind<D>& i) { for(U k = 0; k < V; k++) br.set(one + (i - s), k, r.at(i, k)); }); same<D, V>(c, b, br, "destination"); break; }
    case 3: { swap1<D, V, 0, D - 1>(c, v, w, "swapped"); break; }
    case 4: { Arr<D, V> b(v); b.template Append<0>(v); Ind<D> sh = w.shape; sh[0] *= 2; Ref<D, V> x(sh); each<D>(Ind<D>(U(0)), sh, [&](const Ind<D>& i) { Ind<D> j = i; j[0] %= w.shape[0]; for(U k = 0; k < V; k++) x.set(i, k, w.at(j, k)); }); same<D, V>(c, b, x, "appended array"); break; }
    case 5: { a.clear(); c.check(a.IsAllNull() && v.IsAllNull(), "a cleared array must be null");
      for(U q = 0; q < count<D>(shape); q += 1 + count<D>(shape) / 37) { Ind<D> i; U x = q; for(U d = D; d-- > 0;) { i[d] = x % shape[d]; x /= shape[d]; }
        a[i][V - 1] = 1.0f; c.check(!a.IsAllNull(), "IsAllNull() with a nonzero element at %s", str(i).c_str()); c.check(v.IsAllNull() == !inside<D>(i, s, e), "IsAllNull() of the view with a nonzero element at %s", str(i).c_str()); a[i][V - 1] = 0.0f; }
      break; }
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C03"; h.level = "model_checking";
  h.assumptions = {"ranges passed to views, fills and copies are non-empty and lie inside the array", "element values after a resize are unspecified until written (as documented)", "element type float, 1-3 vector components, 1-4 axes"};
  h.space("subranges-1d", "shapes up to 7, all sub-ranges and sub-sub-ranges, 5 ways to write", 2, [](Ctx& c) { subranges<1, 2>(c, c.thorough ? 9 : 7); });
  h.space("subranges-2d", "shapes up to 4x4, all sub-ranges and sub-sub-ranges, 5 ways to write", 4, [](Ctx& c) { subranges<2, 3>(c, c.thorough ? 5 : c.lite ? 3 : 4); });
  h.space("subranges-3d", "shapes up to 2x2x2 (3x3x3 thorough), all sub-ranges and sub-sub-ranges, 5 ways to write", 5, [](Ctx& c) { subranges<3, 2>(c, c.thorough ? 3 : 2); });
  h.space("subranges-3d-1", "shapes up to 2x2x2, scalar elements", 5, [](Ctx& c) { subranges<3, 1>(c, 2); });
  h.space("subranges-4d", "shapes up to 2x2x2x2", 5, [](Ctx& c) { subranges<4, 2>(c, 2); }, 1);
  h.space("fill-1d", "all copies between ranges of shapes up to 5, source and destination plain or views", 3, [](Ctx& c) { fill_from<1, 2>(c, 5); });
  h.space("fill-2d", "all copies between ranges of shapes up to 3x3", 5, [](Ctx& c) { fill_from<2, 2>(c, c.lite ? 2 : 3); });
  h.space("fill-3d", "all copies between ranges of shapes up to 2x2x2", 6, [](Ctx& c) { fill_from<3, 2>(c, 2); }, 1);
  h.space("column", "all columns along the last axis, shapes up to 3 (4) per axis, 1-3 axes", 4, [](Ctx& c) { int d = c.range(1, 3); U m = c.thorough ? 5 : 3; if(d == 1) fill_column<1, 2>(c, m); else if(d == 2) fill_column<2, 2>(c, m); else fill_column<3, 2>(c, m); });
  h.space("append", "all sequences of 2 (3) appended slices of thickness up to 2 (3), 1-3 axes, from arrays and views, after resizing, to copies of views", 5, [](Ctx& c) { int d = c.range(1, 3); U m = c.thorough ? 3 : 2; int n = c.thorough ? 3 : 2; if(d == 1) append<1, 2>(c, m + 1, n); else if(d == 2) append<2, 2>(c, m, n); else append<3, 2>(c, m, n); });
  h.space("swap", "all axis pairs, shapes up to 4 per axis, 1-4 axes, arrays and views", 3, [](Ctx& c) { int d = c.range(1, 4); if(d == 1) swaps<1, 2>(c, 4); else if(d == 2) swaps<2, 3>(c, 4); else if(d == 3) swaps<3, 2>(c, 3); else swaps<4, 1>(c, 2); });
  h.space("nulls", "all null patterns of up to 10 (16) values, 1-3 axes, 1-3 components, and every sub-range", 4, [](Ctx& c) { int d = c.choose(5); U m = c.thorough ? 16 : c.lite ? 6 : 10; if(d == 0) nulls<1, 1>(c, m, m); else if(d == 1) nulls<1, 2>(c, m / 2, m); else if(d == 2) nulls<2, 2>(c, 3, m); else if(d == 3) nulls<2, 3>(c, 3, m); else nulls<3, 2>(c, 2, m); });
  h.space("large-1d", "one-dimensional arrays of up to 1000 elements, 4 views, 6 actions", 2, [](Ctx& c) { large<1, 2>(c, {8, 15, 16, 17, 31, 33, 64, 65, 127, 255, 256, 1000}); });
  h.space("large-2d", "two-dimensional arrays of up to 65x65 elements, 16 views, 6 actions", 3, [](Ctx& c) { large<2, 3>(c, {1, 8, 17, 65}); }, 1);
  h.space("large-3d", "three-dimensional arrays of up to 17x17x17 elements, 64 views, 6 actions", 3, [](Ctx& c) { large<3, 2>(c, {1, 5, c.thorough ? 33 : 16}); }, 1);
  h.space("histories-1d", "all histories of 4 (5) operations: resize, resize with value, write, clear, assign from view, append, write through view", 4, [](Ctx& c) { histories<1, 2>(c, c.thorough ? 6 : c.lite ? 3 : 5); });
  h.space("histories-2d", "all histories of 3 (4) operations", 4, [](Ctx& c) { histories<2, 2>(c, c.thorough ? 5 : c.lite ? 2 : 4); });
  h.space("histories-3d", "all histories of 3 operations", 4, [](Ctx& c) { histories<3, 3>(c, c.thorough ? 4 : 3); }, 1);
  h.space("sequential", "apply_sequential on views, shapes up to 4", 3, [](Ctx& c) { int d = c.range(1, 3); if(d == 1) sequential<1, 2>(c, 4); else if(d == 2) sequential<2, 2>(c, 4); else sequential<3, 3>(c, 3); });
  h.space("concatenation", "ShapeAllowsConcatenation for all pairs of shapes up to 3", 3, [](Ctx& c) { int d = c.range(1, 3); if(d == 1) concat<1>(c, 3); else if(d == 2) concat<2>(c, 3); else concat<3>(c, 3); });
  h.space("linear", "one-dimensional arrays up to 6 indexed by numbers, all views", 2, [](Ctx& c) { if(c.flag()) linear<2>(c, 6); else linear<3>(c, 6); });
  return mc::run_main(h, argc, argv);
}
