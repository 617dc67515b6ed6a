// C02: the payload cache (Cache) against a list of (key, payload) ordered by last use.
#include "mc.hh"
#include "Cache.hh"

using U = std::size_t;
using mc::Ctx;

// a payload without default construction order effects: carries the arguments it was built with
struct Payload {
  Payload(int a, int b) : built(a * 100 + b), value(-1) { }
  int built, value;
  Payload& operator=(const int& v) { value = v; return *this; }
};

template <class Key> Key make_key(int k);
template <> U make_key<U>(int k) { return (U)k * 8; }
template <> std::string make_key<std::string>(int k) { return std::string("chunk-") + std::string(k, 'x') + std::to_string(k); }

struct Ent { int k; int v; Payload* p; };

template <class Key> void history(Ctx& c, int depth, int nkeys, int nops) {
  Cache<Key, Payload> cache(depth, 4, 2);
  std::vector<Ent> lru;                        // oldest first
  auto find = [&](int k) { for(U i = 0; i < lru.size(); i++) if(lru[i].k == k) return (int)i; return -1; };
  int next_value = 1000;
  auto touch = [&](int i) { Ent e = lru[i]; lru.erase(lru.begin() + i); lru.push_back(e); };
  for(int n = 0; n < nops; n++) {
    // enabled operations: per key, insert variants or get/overwrite/evict; plus eviction of the oldest if full
    struct Op { int kind, key; };
    std::vector<Op> ops;
    for(int k = 0; k < nkeys; k++) {
      if(find(k) < 0) { if((int)lru.size() < depth) { ops.push_back({0, k}); ops.push_back({1, k}); } }
      else { ops.push_back({2, k}); ops.push_back({3, k}); }
    }
    if((int)lru.size() == depth) ops.push_back({4, 0});
    Op o = ops[c.choose((int)ops.size())];
    Key key = make_key<Key>(o.key);
    switch(o.kind) {
      case 0: { int v = next_value++; c.op("insert %d=%d", o.key, v); cache.insert_no_overwrite(key, v); lru.push_back({o.key, v, nullptr}); break; }
      case 1: { int v = next_value++; c.op("insert_ref %d=%d", o.key, v); Payload& p = cache.insert_ref_no_overwrite(key); p = v; lru.push_back({o.key, v, &p}); break; }
      case 2: {
        c.op("get %d", o.key); int i = find(o.key); Payload& p = cache.get(key);
        c.check(p.value == lru[i].v, "get returns payload %d instead of %d", p.value, lru[i].v);
        c.check(p.built == 402, "payload was not constructed from the supplied arguments");
        if(lru[i].p) c.check(lru[i].p == &p, "the payload moved while it was cached");
        lru[i].p = &p;
        touch(i);
        int v = next_value++; p = v; lru.back().v = v;       // written through the reference
        break;
      }
      case 3: { c.op("evict %d", o.key); int i = find(o.key); Payload& p = cache.evict(key);
        c.check(p.value == lru[i].v, "evict hands back payload %d instead of %d", p.value, lru[i].v); lru.erase(lru.begin() + i); break; }
      case 4: { c.op("evict oldest"); Payload& p = cache.evict_oldest_from_full_cache();
        c.check(p.value == lru[0].v, "eviction hands back payload %d instead of the least recently used one, %d", p.value, lru[0].v); lru.erase(lru.begin()); break; }
    }
    // observers
    c.check(cache.has_free_slot() == ((int)lru.size() < depth), "has_free_slot() with %zu of %d slots occupied", lru.size(), depth);
    for(int k = 0; k < nkeys; k++) c.check(cache.contains(make_key<Key>(k)) == (find(k) >= 0), "contains(%d)", k);
    std::vector<Key> ce = cache.contained_elements(), want;
    for(auto& e : lru) want.push_back(make_key<Key>(e.k));
    std::sort(ce.begin(), ce.end()); std::sort(want.begin(), want.end());
    c.check(ce == want, "contained_elements() lists %zu keys, expected %zu", ce.size(), want.size());
    std::vector<int> up, down, wv;
    cache.loop_over_elements_old_to_new([&](Payload& p) { up.push_back(p.value); c.check(up.size() <= 64, "iteration does not end"); });
    cache.loop_over_elements_new_to_old([&](Payload& p) { down.push_back(p.value); c.check(down.size() <= 64, "iteration does not end"); });
    for(auto& e : lru) wv.push_back(e.v);
    c.check(up == wv, "iteration from old to new does not visit the entries in the order of their last use");
    std::reverse(wv.begin(), wv.end());
    c.check(down == wv, "iteration from new to old does not visit the entries in the reverse order of their last use");
    std::uint64_t h = depth; for(auto& e : lru) h = mc::mix(h, e.k);
    c.state(h); c.observe(h);
  }
  // every remaining entry is handed back exactly once
  for(int pass = 0; pass < depth + 1 && !lru.empty(); pass++) {
    if((int)lru.size() == depth) { Payload& p = cache.evict_oldest_from_full_cache(); c.check(p.value == lru[0].v, "final eviction order"); lru.erase(lru.begin()); }
    else { int k = lru[0].k; Payload& p = cache.evict(make_key<Key>(k)); c.check(p.value == lru[0].v, "final eviction"); lru.erase(lru.begin()); }
    c.check(cache.contained_elements().size() == lru.size(), "an evicted entry is still listed");
  }
}

// long eviction sequences with many keys: sequential scan, repeated access to a hot key, and the write-back pattern of the chunk cache
void streams(Ctx& c) {
  int depth = c.range(1, 12), pattern = c.choose(5), nkeys = c.pick({3, 13, 40});
  Cache<U, Payload> cache(depth, 4, 2);
  std::vector<Ent> lru;
  auto find = [&](int k) { for(U i = 0; i < lru.size(); i++) if(lru[i].k == k) return (int)i; return -1; };
  c.op("stream pattern %d, depth %d, %d keys", pattern, depth, nkeys);
  for(int n = 0; n < 300; n++) {
    int k = pattern == 0 ? n % nkeys : pattern == 1 ? (n % 2 ? 0 : (n / 2) % nkeys) : pattern == 2 ? (n * 7 + n / 5) % nkeys : pattern == 3 ? std::abs(n % (2 * nkeys) - nkeys) % nkeys : (n * n) % nkeys;
    int i = find(k);
    if(pattern == 2 && i >= 0 && n % 3 == 0) {
      Payload& p = cache.evict(k); c.check(p.value == lru[i].v, "evict at step %d", n); lru.erase(lru.begin() + i);
    }
    else if(i >= 0) {
      Payload& p = cache.get(k); c.check(p.value == lru[i].v, "get at step %d returns %d instead of %d", n, p.value, lru[i].v);
      Ent e = lru[i]; lru.erase(lru.begin() + i); lru.push_back(e);
    }
    else {
      if(!cache.has_free_slot()) {
        c.check((int)lru.size() == depth, "no free slot although only %zu of %d are occupied", lru.size(), depth);
        Payload& p = cache.evict_oldest_from_full_cache(); c.check(p.value == lru[0].v, "evicted %d instead of %d at step %d", p.value, lru[0].v, n); lru.erase(lru.begin());
      }
      else c.check((int)lru.size() < depth, "free slot reported in a full cache");
      cache.insert_no_overwrite(k, n); lru.push_back({k, n, nullptr});
    }
    std::vector<int> up, wv; cache.loop_over_elements_old_to_new([&](Payload& p) { up.push_back(p.value); c.check(up.size() <= 64, "iteration does not end"); });
    for(auto& e : lru) wv.push_back(e.v);
    c.check(up == wv, "order of use is wrong at step %d", n);
    std::uint64_t h = depth; for(auto& e : lru) h = mc::mix(h, e.k);
    c.state(h); c.step();
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  h.property = "C02"; h.level = "model_checking";
  h.assumptions = {"cache depth at least 1 (a cache without slots cannot be constructed)", "callers respect the documented preconditions: insert only absent keys into a free slot, get and evict only contained keys, evict the oldest only from a full cache"};
  h.space("small", "all histories of 7 (8 thorough) operations (insert, insert by reference, get, evict, evict oldest) on 3 keys, depths 1-4", 4, [](Ctx& c) { int d = c.range(1, 4); history<U>(c, d, 3, c.thorough ? 8 : c.lite ? 4 : 7); });
  h.space("wide", "all histories of 6 (7 thorough) operations on 5 keys, depths 3-5", 3, [](Ctx& c) { int d = c.range(3, 5); history<U>(c, d, 5, c.thorough ? 7 : c.lite ? 3 : 6); });
  h.space("string-keys", "all histories of 5 (6 thorough) operations on 4 string keys, depths 1-3", 3, [](Ctx& c) { int d = c.range(1, 3); history<std::string>(c, d, 4, c.thorough ? 7 : c.lite ? 3 : 5); });
  h.space("streams", "access streams of 300 steps: 5 patterns x 3 key counts x depths 1-12", 2, streams);
  return mc::run_main(h, argc, argv);
}
