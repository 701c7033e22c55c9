// S10: the cache is a bounded map with least-recently-used replacement.
#include "eisv.hh"
#include "Cache.hh"
#include <list>

namespace {
struct Entry { int idx; long payload; };   // idx: number of the key

struct Payload { long v; std::string s; Payload(long v = -1) : v(v), s("init") { } };

// reference: list ordered from least to most recently used
struct Ref {
  std::size_t depth; std::list<Entry> l;
  bool has(int i) const { for(auto& e : l) { if(e.idx == i) { return true; } } return false; }
  std::list<Entry>::iterator find(int i) { return std::find_if(l.begin(), l.end(), [&](auto& e){ return e.idx == i; }); }
};
}

template <class CacheT, class Key, class GetV, class SetV>
static void history(pbt::Case& c, CacheT& cache, std::size_t depth, Key key, GetV getv, SetV setv) {
  Ref ref{depth, {}};
  int universe = c.integer(1, (int)(2 * depth + 3));
  long next = 1; std::size_t n = 0, evictions = 0, hits = 0;
  NOTE(c, "depth " << depth << ", keys 0.." << universe - 1);
  auto verify = [&]() {
    CHECK(c, cache.has_free_slot() == (ref.l.size() < depth), "has_free_slot with " << ref.l.size() << " entries of " << depth);
    for(int i = 0; i < universe; i++) { CHECK(c, cache.contains(key(i)) == ref.has(i), "contains(" << i << ")"); }
    auto ce = cache.contained_elements(); std::multiset<decltype(key(0))> a(ce.begin(), ce.end()), b; for(auto& e : ref.l) { b.insert(key(e.idx)); }
    CHECK(c, a == b, "contained_elements");
    std::vector<long> o, nw, want; for(auto& e : ref.l) { want.push_back(e.payload); }
    cache.loop_over_elements_old_to_new([&](auto& p) { o.push_back(getv(p)); CHECK(c, o.size() <= depth, "old-to-new loop does not end"); });
    cache.loop_over_elements_new_to_old([&](auto& p) { nw.push_back(getv(p)); CHECK(c, nw.size() <= depth, "new-to-old loop does not end"); });
    CHECK(c, o == want, "payloads from old to new differ");
    std::reverse(nw.begin(), nw.end());
    CHECK(c, nw == want, "payloads from new to old differ");
  };
  verify();
  while(c.more(n, 60, 25)) {
    n++;
    pbt::Case::Span span(c);
    switch(c.weighted({6, 5, 2, 3, 1})) {
      case 0: {   // insert, evicting first if full
        int i = c.integer(0, universe - 1);
        if(ref.has(i)) { // overwrite through a look-up
          long v = next++; setv(cache.get(key(i)), v); auto it = ref.find(i); it -> payload = v; ref.l.splice(ref.l.end(), ref.l, it);
          NOTE(c, "update " << i); hits++; break;
        }
        if(ref.l.size() == depth) {
          auto& p = cache.evict_oldest_from_full_cache();
          CHECK(c, getv(p) == ref.l.front().payload, "evicted payload " << getv(p) << ", least recently used is key " << ref.l.front().idx << " payload " << ref.l.front().payload);
          NOTE(c, "evict oldest (" << ref.l.front().idx << ")");
          ref.l.pop_front(); evictions++;
        }
        long v = next++;
        if(c.boolean()) { auto& p = cache.insert_ref_no_overwrite(key(i)); setv(p, v); NOTE(c, "insert_ref " << i); }
        else { typename std::remove_reference_t<decltype(cache.get(key(0)))> pv(0); setv(pv, v); cache.insert_no_overwrite(key(i), pv); NOTE(c, "insert " << i); }
        ref.l.push_back({i, v});
        break;
      }
      case 1: {   // look-up
        if(ref.l.empty()) { break; }
        auto it = std::next(ref.l.begin(), c.integer<std::size_t>(0, ref.l.size() - 1));
        NOTE(c, "get " << it -> idx);
        auto& p = cache.get(key(it -> idx));
        CHECK(c, getv(p) == it -> payload, "get(" << it -> idx << ") gives " << getv(p) << " expected " << it -> payload);
        ref.l.splice(ref.l.end(), ref.l, it); hits++;
        break;
      }
      case 2: {   // look-up of something that is not there
        int i = c.integer(0, universe - 1);
        if(ref.has(i)) { break; }
        CHECK(c, pbt::throws([&]{ cache.get(key(i)); }), "look-up of absent key " << i << " did not fail");
        break;
      }
      case 3: {   // targeted evict
        if(ref.l.empty()) { break; }
        auto it = std::next(ref.l.begin(), c.integer<std::size_t>(0, ref.l.size() - 1));
        NOTE(c, "evict " << it -> idx);
        auto& p = cache.evict(key(it -> idx));
        CHECK(c, getv(p) == it -> payload, "evict(" << it -> idx << ") gives " << getv(p) << " expected " << it -> payload);
        ref.l.erase(it);
        break;
      }
      case 4: {   // drain through evict_oldest, if full
        if(ref.l.size() != depth) { break; }
        auto& p = cache.evict_oldest_from_full_cache();
        CHECK(c, getv(p) == ref.l.front().payload, "evicted payload " << getv(p) << ", least recently used is key " << ref.l.front().idx);
        NOTE(c, "evict oldest (" << ref.l.front().idx << ")");
        ref.l.pop_front(); evictions++;
        break;
      }
    }
    verify();
  }
  c.label(depth == 1 ? "depth 1" : depth <= 3 ? "depth 2-3" : "depth 4+");
  c.label_if(evictions > 0, "with LRU eviction");
  c.nontrivial(evictions > 0 && hits > 0);
}

static std::size_t draw_depth(pbt::Case& c) { return c.chance(1, 12) ? c.integer<std::size_t>(10, 40) : c.small<std::size_t>(1, 9); }
PROPERTY(lru_int, 3) {
  std::size_t depth = draw_depth(c); int step = c.pick({1, 1, -1, 1000003});
  Cache<int, long> cache(depth, -1L);
  history(c, cache, depth, [step](int i) { return i * step; }, [](long& p) { return p; }, [](long& p, long v) { p = v; });
}

PROPERTY(lru_object, 1) {
  std::size_t depth = draw_depth(c); std::size_t step = c.pick<std::size_t>({1, 97, 1ull << 32, (1ull << 40) + 1}), base = c.pick<std::size_t>({0, ~0ull / 2});
  Cache<std::size_t, Payload> cache(depth, -1L);
  history(c, cache, depth, [step, base](int i) { return base + (std::size_t)i * step; }, [](Payload& p) { return p.s == std::to_string(p.v) ? p.v : -99; }, [](Payload& p, long v) { p.v = v; p.s = std::to_string(v); });
}
