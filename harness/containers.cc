// K16: maps, sets, bit vectors and arrays against plain reference containers, over generated operation sequences.
#include "pbt.h"

#include <deque>
#include <optional>
#include <thread>
#include <barrier>

#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>

#include "kaminpar-common/datastructures/bitvector_rank.h"
#include "kaminpar-common/datastructures/cache_aligned_vector.h"
#include "kaminpar-common/datastructures/compact_hash_map.h"
#include "kaminpar-common/ranges.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
#include "kaminpar-common/datastructures/concurrent_circular_vector.h"
#include "kaminpar-common/datastructures/concurrent_fast_reset_array.h"
#include "kaminpar-common/datastructures/dynamic_map.h"
#include "kaminpar-common/datastructures/fast_reset_array.h"
#include "kaminpar-common/datastructures/fixed_size_sparse_map.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/maxsize_vector.h"
#include "kaminpar-common/datastructures/noinit_vector.h"
#include "kaminpar-common/datastructures/queue.h"
#include "kaminpar-common/datastructures/rating_map.h"
#include "kaminpar-common/datastructures/scalable_vector.h"
#include "kaminpar-common/datastructures/sparse_map.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/datastructures/ts_navigable_linked_list.h"

using namespace pbt;
using namespace kaminpar;

using Model = std::map<u64, i64>;

// Keys from a pool, so that keys repeat; pools with far or colliding keys included
struct KeyPool {
  std::vector<u64> pool;
  KeyPool(Gen &g, u64 universe, u64 max_pool) {
    const u64 n = g.logsize(1, std::min(universe, max_pool));
    const int mode = g.draw(3);
    const u64 stride = mode == 1 ? (u64)1 << g.draw(12) : 1;
    Rng r(g.seed());
    std::set<u64> s;
    const u64 base = mode == 2 ? 0 : r.below(universe);
    for (u64 i = 0; i < n; ++i) s.insert(mode == 2 ? r.below(universe) : (base + i * stride) % universe);
    pool.assign(s.begin(), s.end());
    r.shuffle(pool);
  }
  u64 operator()(Gen &g) const { return pool[g.draw(pool.size())]; }
};

template <typename Entries, typename Fn> Model collect(Entries &&es, Fn get, const std::string &op) {
  Model out;
  for (const auto &e : es) {
    auto [k, v] = get(e);
    CHECK_MSG(out.emplace(k, v).second, "entry-twice", op << ": key " << k << " is listed twice");
  }
  return out;
}

inline std::string show(const Model &m) {
  std::ostringstream o;
  int c = 0;
  for (auto &[k, v] : m) { if (c++ > 12) { o << "..."; break; } o << k << ":" << v << " "; }
  return o.str();
}
inline void same(const Model &got, const Model &want, const std::string &tag, const std::string &op) {
  CHECK_MSG(got == want, tag.c_str(), op << ": has {" << show(got) << "} instead of {" << show(want) << "}");
}

// --- maps with operator[], contains, clear ------------------------------------------------------------
template <typename Key, typename Value> void dynamic_flat(Gen &g) {
  DynamicFlatMap<Key, Value> map;
  Model model;
  KeyPool keys(g, std::numeric_limits<Key>::max(), g.chance(1, 8) ? 9000 : 400);
  const u64 ops = g.logsize(1, 60);
  u64 peak = 0, clears = 0;
  auto check = [&](const std::string &op) {
    CHECK_EQ((u64)map.size(), (u64)model.size(), "size", op);
    Model got;
    map.for_each([&](Key k, Value v) { CHECK_MSG(got.emplace(k, v).second, "entry-twice", op << " key " << k); });
    same(got, model, "for-each", op);
    for (int i = 0; i < 5; ++i) {
      const u64 k = keys.pool[(i * 7919) % keys.pool.size()];
      CHECK_EQ(map.contains(k), model.count(k) != 0, "contains", op << " key " << k);
      const Value *p = map.get_if_contained(k);
      CHECK_EQ(p != map.end(), model.count(k) != 0, "get-if-contained", op << " key " << k);
      if (p) { CHECK_EQ((i64)*p, model[k], "get-if-contained-value", op << " key " << k); CHECK_EQ((i64)map.get(k), model[k], "get", op); }
    }
  };
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (g.weighted({6, 3, 1, 1})) {
    case 0: { const u64 k = keys(g); const i64 v = g.draw(100); map[k] += v; model[k] += v; op = "[" + std::to_string(k) + "]+=" + std::to_string(v); break; }
    case 1: { const u64 c = g.draw(keys.pool.size() + 1), s = g.draw(keys.pool.size()); for (u64 j = 0; j < c; ++j) { const u64 k = keys.pool[(s + j) % keys.pool.size()]; map[k] = j; model[k] = j; } op = "bulk " + std::to_string(c); break; }
    case 2: map.clear(); model.clear(); ++clears; op = "clear"; break;
    case 3: { DynamicFlatMap<Key, Value> other(std::move(map)); other.clear(); model.clear(); map = std::move(other); ++clears; op = "move+clear"; break; }
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    check(op);
  }
  g.label(peak > 6 ? "dynamic: grew" : "dynamic: small");
  g.nontrivial(peak > 1);
}
PBT_TEST(dynamic_flat_map, 4) { g.flip() ? dynamic_flat<u32, i32>(g) : dynamic_flat<u64, i64>(g); }

template <typename Key, typename Value, typename Timestamp> void remembering(Gen &g, u64 max_clears) {
  DynamicRememberingFlatMap<Key, Value, Timestamp> map;
  Model model;
  std::vector<u64> order;
  KeyPool keys(g, std::numeric_limits<Key>::max(), g.chance(1, 8) ? 9000 : 400);
  const u64 ops = g.logsize(1, 60);
  u64 peak = 0, clears = 0;
  auto put = [&](u64 k, i64 v) { if (!model.count(k)) order.push_back(k); map[k] += v; model[k] += v; };
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (g.weighted({6, 3, 2})) {
    case 0: { const u64 k = keys(g); const i64 v = g.draw(100); put(k, v); op = "[" + std::to_string(k) + "]+=" + std::to_string(v); break; }
    case 1: { const u64 c = g.draw(keys.pool.size() + 1), s = g.draw(keys.pool.size()); for (u64 j = 0; j < c; ++j) put(keys.pool[(s + j) % keys.pool.size()], j); op = "bulk " + std::to_string(c); break; }
    case 2: if (clears >= max_clears) continue; map.clear(); model.clear(); order.clear(); ++clears; op = "clear"; break;
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    CHECK_EQ((u64)map.size(), (u64)model.size(), "size", op);
    Model got;
    u64 at = 0;
    map.for_each([&](Key k, Value v) { CHECK_MSG(got.emplace(k, v).second, "entry-twice", op << " key " << k); if (at < order.size()) CHECK_EQ((u64)k, order[at], "insertion-order", op); ++at; });
    same(got, model, "for-each", op);
    same(collect(map.entries(), [](const auto &e) { return std::pair<u64, i64>(e.first, e.second); }, op), model, "entries", op);
    for (int j = 0; j < 5; ++j) {
      const u64 k = keys.pool[(j * 7919) % keys.pool.size()];
      CHECK_EQ(map.contains(k), model.count(k) != 0, "contains", op << " key " << k);
      if (model.count(k)) CHECK_EQ((i64)map.get(k), model[k], "get", op);
    }
  }
  g.label(peak > 6 ? "remembering: grew" : "remembering: small");
  g.nontrivial(peak > 1);
}
PBT_TEST(dynamic_remembering_flat_map, 4) {
  switch (g.draw(3)) {
  case 0: remembering<u32, i32, std::size_t>(g, 1000); break;
  case 1: remembering<u32, i64, u32>(g, 1000); break;
  default: remembering<u64, i64, std::size_t>(g, 1000); break;
  }
}

// FixedSizeSparseMap: at most half full, as its users guarantee
template <std::size_t SIZE> void fixed_sparse(Gen &g) {
  const i64 init = g.flip() ? 0 : (i64)g.draw(9) - 4;
  const bool sized = g.flip();
  const u64 want = g.logsize(2, 300);
  FixedSizeSparseMap<u32, i64, SIZE> a(init), b((std::size_t)want, init), &map = sized ? b : a;
  if (sized) CHECK_MSG(map.capacity() >= want, "capacity", "capacity " << map.capacity() << " for a maximum size of " << want);
  Model model;
  KeyPool keys(g, 0xffffffffull, 400);
  u64 peak = 0;
  const u64 ops = g.logsize(1, 80);
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (g.weighted({8, 3, 2, 1})) {
    case 0: { const u64 k = keys(g); if (!model.count(k) && model.size() + 1 >= map.capacity()) continue; const i64 v = (i64)g.draw(100) - 50; if (!model.count(k)) model[k] = init; map[k] += v; model[k] += v; op = "+= " + std::to_string(k); break; }
    case 1: { const u64 c = g.draw(keys.pool.size() + 1); for (u64 j = 0; j < c; ++j) { const u64 k = keys.pool[j]; if (!model.count(k) && model.size() + 1 >= map.capacity()) break; map[k] = j; model[k] = j; } op = "bulk"; break; }
    case 2: map.clear(); model.clear(); op = "clear"; break;
    case 3: { const u64 m = g.logsize(1, 1000); map.clear(); model.clear(); map.set_max_size(m); CHECK_MSG(map.capacity() >= m, "capacity", "capacity " << map.capacity() << " after set_max_size(" << m << ")"); op = "set_max_size " + std::to_string(m); break; }
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    CHECK_EQ((u64)map.size(), (u64)model.size(), "size", op);
    same(collect(map.entries(), [](const auto &e) { return std::pair<u64, i64>(e.key, e.value); }, op), model, "entries", op);
    for (int j = 0; j < 5; ++j) {
      const u64 k = keys.pool[(j * 7919) % keys.pool.size()];
      CHECK_EQ(map.contains(k), model.count(k) != 0, "contains", op << " key " << k);
      if (model.count(k)) CHECK_EQ((i64)map.get(k), model[k], "get", op);
    }
  }
  g.nontrivial(peak > 1);
}
PBT_TEST(fixed_size_sparse_map, 4) { g.flip() ? fixed_sparse<128>(g) : fixed_sparse<16>(g); }

PBT_TEST(sparse_map, 4) {
  u64 cap = g.logsize(1, 300);
  const bool by_ctor = g.flip();
  SparseMap<u32, i64> a(cap), b, &map = by_ctor ? a : b;
  if (!by_ctor) { CHECK_EQ(map.is_allocated(), false, "allocated", ""); map.resize(cap); }
  Model model;
  u64 peak = 0, removed = 0;
  const u64 ops = g.logsize(1, 120);
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    const u64 k = g.draw(cap);
    switch (g.weighted({6, 3, 5, 2, 1, 1})) {
    case 0: { const i64 v = (i64)g.draw(100) - 50; map[k] += v; model[k] += v; op = "+= " + std::to_string(k); break; }
    case 1: { const i64 v = g.draw(100); map.add(k, v); model.emplace(k, v); op = "add " + std::to_string(k); break; }
    case 2: removed += model.count(k); map.remove(k); model.erase(k); op = "remove " + std::to_string(k); break;
    case 3: map.clear(); model.clear(); op = "clear"; break;
    case 4: map.clear(); model.clear(); cap = g.logsize(1, 300); map.resize(cap); op = "resize " + std::to_string(cap); break;
    case 5: { SparseMap<u32, i64> other(std::move(map)); for (auto &[kk, v] : model) CHECK_EQ((i64)other.get(kk), v, "moved", ""); map = std::move(other); op = "move"; break; }
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    CHECK_EQ((u64)map.size(), (u64)model.size(), "size", op);
    CHECK_EQ((u64)map.capacity(), cap, "capacity", op);
    same(collect(map.entries(), [](const auto &e) { return std::pair<u64, i64>(e.key, e.value); }, op), model, "entries", op);
    for (u64 j = 0; j < std::min<u64>(cap, 40); ++j) {
      CHECK_EQ(map.contains(j), model.count(j) != 0, "contains", op << " key " << j);
      if (model.count(j)) CHECK_EQ((i64)map.get(j), model[j], "get", op);
    }
  }
  g.label(removed ? "sparse: removed" : "sparse: no removal");
  g.nontrivial(peak > 1);
}

// CompactHashMap as used by the gain caches: keys below a bound, capacity for all present keys (one free slot unless full maps are allowed)
template <typename Word, bool FULL> void compact_hash(Gen &g) {
  constexpr int W = std::numeric_limits<Word>::digits;
  const int size_bits = g.range(FULL ? 0 : 1, 7);
  const u64 size = (u64)1 << size_bits;
  const int key_bits = g.range(1, W - 2);
  const u64 max_key = (u64)1 << std::min(key_bits, 20); // keys in [0, max_key)
  CHECK_EQ((CompactHashMap<Word, FULL>::compute_key_bits((Word)((u64)1 << key_bits))), key_bits, "key-bits", "2^" << key_bits << " keys");
  const u64 max_value = W - key_bits >= 63 ? ~(u64)0 >> 1 : ((u64)1 << (W - key_bits)) - 1;
  std::vector<Word> data(size + 2, 0);
  data[0] = data[size + 1] = (Word)0xa5;
  CompactHashMap<Word, FULL> map(data.data() + 1, size, key_bits);
  CompactHashMap<const Word, FULL> cmap(data.data() + 1, size, key_bits);
  std::map<u64, u64> model;
  const u64 limit = FULL ? size : size - 1;
  std::vector<u64> pool;
  {
    Rng r(g.seed());
    std::set<u64> s;
    const int mode = g.draw(3);
    const u64 n = std::min<u64>(limit + g.draw(limit + 1), max_key);
    for (u64 tries = 0; s.size() < n && tries < 4 * n; ++tries) s.insert(mode == 0 ? s.size() : mode == 1 ? r.below(max_key) : (r.below(3) + size * r.below(max_key)) % max_key);
    pool.assign(s.begin(), s.end());
  }
  u64 peak = 0, removals = 0;
  const u64 ops = g.logsize(1, 200);
  auto check = [&](const std::string &op) {
    for (u64 k : pool) {
      const u64 want = model.count(k) ? model[k] : 0;
      CHECK_EQ((u64)map.get(k), want, "get", op << " key " << k);
      CHECK_EQ((u64)cmap.get(k), want, "const-get", op << " key " << k);
    }
    CHECK_EQ((u64)map.count(), (u64)model.size(), "count", op);
    std::map<u64, u64> got;
    cmap.for_each([&](u64 k, u64 v) { CHECK_MSG(got.emplace(k, v).second, "entry-twice", op << " key " << k); });
    CHECK_MSG(got == model, "for-each", op << ": entries differ from the model");
    CHECK_EQ((u64)data[0], (u64)0xa5, "guard", op);
    CHECK_EQ((u64)data[size + 1], (u64)0xa5, "guard", op);
  };
  CHECK_EQ((u64)map.capacity(), size, "capacity", "");
  for (u64 i = 0; i < ops; ++i) {
    const u64 k = pool[g.draw(pool.size())];
    std::string op;
    if (model.count(k) && g.chance(3, 5)) {
      const u64 v = g.chance(2, 3) ? model[k] : g.range(1, std::min<u64>(model[k], 1000));
      op = "decrease " + std::to_string(k) + " by " + std::to_string(v) + " of " + std::to_string(model[k]);
      const bool gone = map.decrease_by(k, v);
      CHECK_EQ(gone, v == model[k], "decrease-result", op);
      if (v == model[k]) { model.erase(k); ++removals; } else model[k] -= v;
    } else {
      if (!model.count(k) && model.size() >= limit) continue;
      const u64 room = max_value - (model.count(k) ? model[k] : 0);
      if (room == 0) continue;
      const u64 v = g.chance(1, 5) ? room : g.range(1, std::min<u64>(room, 100));
      op = "increase " + std::to_string(k) + " by " + std::to_string(v);
      const bool fresh = map.increase_by(k, v);
      CHECK_EQ(fresh, model.count(k) == 0, "increase-result", op);
      model[k] += v;
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    check(op);
  }
  g.label(peak == limit ? "compact: full" : "compact: not full");
  g.nontrivial(peak > 1 && removals);
}
PBT_TEST(compact_hash_map, 8) {
  switch (g.draw(5)) {
  case 0: compact_hash<u32, false>(g); break;
  case 1: compact_hash<u32, true>(g); break;
  case 2: compact_hash<u64, false>(g); break;
  case 3: compact_hash<u64, true>(g); break;
  default: compact_hash<u32, true>(g); break;
  }
}

// FastResetArray: entries are "used" once touched and hold non-default values
template <typename V, typename S> void fast_reset(Gen &g) {
  u64 cap = g.logsize(1, 300);
  FastResetArray<V, S> arr(cap);
  Model model;
  u64 peak = 0;
  const u64 ops = g.logsize(1, 100);
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    const u64 k = g.draw(cap);
    switch (g.weighted({6, 3, 2, 1, 1})) {
    case 0: { const i64 v = g.range(1, 50); arr[k] += v; model[k] += v; op = "+= " + std::to_string(k); break; }
    case 1: { const i64 v = g.range(1, 50); arr.set(k, v); model[k] = v; op = "set " + std::to_string(k); break; }
    case 2: arr.clear(); model.clear(); op = "clear"; break;
    case 3: arr.clear(); model.clear(); cap = g.logsize(1, 300); arr.resize(cap); op = "resize " + std::to_string(cap); break;
    case 4: { FastResetArray<V, S> other(std::move(arr)); arr = std::move(other); op = "move"; break; }
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    CHECK_EQ((u64)arr.size(), (u64)model.size(), "size", op);
    CHECK_EQ(arr.empty(), model.empty(), "empty", op);
    CHECK_EQ((u64)arr.capacity(), cap, "capacity", op);
    same(collect(arr.entries(), [](const auto &e) { return std::pair<u64, i64>(e.first, (i64)e.second); }, op), model, "entries", op);
    std::multiset<i64> vals, want;
    for (const auto v : arr.used_entry_values()) vals.insert((i64)v);
    for (auto &[kk, v] : model) want.insert(v);
    CHECK_MSG(vals == want, "values", op);
    const auto &c = arr;
    for (u64 j = 0; j < std::min<u64>(cap, 50); ++j) {
      CHECK_EQ(c.exists(j), model.count(j) != 0, "exists", op << " pos " << j);
      CHECK_EQ((i64)c[j], model.count(j) ? model[j] : 0, "const-access", op << " pos " << j);
      CHECK_EQ((i64)c.get(j), model.count(j) ? model[j] : 0, "get", op << " pos " << j);
    }
  }
  g.nontrivial(peak > 1);
}
PBT_TEST(fast_reset_array, 4) { g.flip() ? fast_reset<i32, u32>(g) : fast_reset<i64, std::size_t>(g); }

// RatingMap: the map handed out for an upper bound takes that many keys below the maximum size, and is empty after the previous user cleared it
template <template <typename, typename> typename Large> void rating(Gen &g) {
  u64 max_size = g.chance(1, 5) ? g.range(32768, 60000) : g.logsize(1, 2000);
  RatingMap<i64, u32, Large> map(max_size);
  const u64 rounds = g.logsize(1, 12);
  std::set<int> types;
  u64 peak = 0;
  for (u64 r = 0; r < rounds; ++r) {
    if (g.chance(1, 6)) { max_size = g.chance(1, 5) ? g.range(32768, 60000) : g.logsize(1, 2000); map.change_max_size(max_size); }
    CHECK_EQ((u64)map.max_size(), max_size, "max-size", "");
    const u64 bound = g.chance(1, 4) ? g.range(30, 60) : g.chance(1, 6) ? g.range(10900, 11000) : g.logsize(1, max_size);
    const u64 seed = g.seed();
    const u64 adds = g.draw(bound + 1);
    g.note("max " + std::to_string(max_size) + " bound " + std::to_string(bound) + " keys " + std::to_string(adds));
    map.execute(bound, [&](auto &m) {
      Rng rng(seed);
      Model model;
      for (u64 i = 0; i < adds; ++i) { const u64 k = rng.below(max_size); const i64 v = rng.range(1, 9); m[k] += v; model[k] += v; }
      Model got;
      for (const auto &e : m.entries()) {
        const auto &[k, v] = e;
        CHECK_MSG(got.emplace(k, v).second, "entry-twice", "key " << k);
      }
      same(got, model, "entries", "round");
      m.clear();
      u64 left = 0;
      for ([[maybe_unused]] const auto &e : m.entries()) ++left;
      CHECK_EQ(left, (u64)0, "cleared", "");
      peak = std::max<u64>(peak, model.size());
    });
    types.insert((int)map.update_upper_bound(bound));
  }
  for (int t : types) g.label(t == 0 ? "rating: super small" : t == 1 ? "rating: small" : "rating: large");
  g.nontrivial(peak > 1);
}
PBT_TEST(rating_map, 4) {
  switch (g.draw(4)) {
  case 0: rating<rm_backyard::FastResetArray>(g); break;
  case 1: rating<rm_backyard::SparseMap>(g); break;
  case 2: rating<rm_backyard::UnorderedMap>(g); break;
  default: rating<rm_backyard::Sparsehash>(g); break;
  }
}

// --- markers and queues -----------------------------------------------------------------------------
template <std::size_t K, typename V, template <typename...> typename C> void marker(Gen &g) {
  u64 n = g.logsize(1, 120);
  Marker<K, V, C> m(n);
  std::vector<std::array<bool, K>> model(n);
  std::array<u64, K> first{};
  std::array<bool, K> tracked;
  tracked.fill(true);
  auto check = [&](const std::string &op) {
    CHECK_EQ((u64)m.size(), n, "size", op);
    for (u64 i = 0; i < n; ++i)
      for (std::size_t k = 0; k < K; ++k) CHECK_EQ(m.get(i, k), (bool)model[i][k], "get", op << " element " << i << " marker " << k);
    for (std::size_t k = 0; k < K; ++k) if (tracked[k]) CHECK_EQ((u64)m.first_unmarked_element(k), first[k], "first-unmarked", op << " marker " << k);
  };
  const u64 ops = g.logsize(1, 150);
  u64 resets = 0, sets = 0;
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    const std::size_t k = g.draw(K);
    switch (g.weighted({8, 3, 2, 1, 1})) {
    case 0:
    case 1: {
      const u64 e = g.flip() ? std::min(first[k], n - 1) : g.draw(n);
      const bool track = g.chance(4, 5);
      op = "set(" + std::to_string(e) + "," + std::to_string(k) + ")";
      track ? m.template set<true>(e, k) : m.set(e, k);
      model[e][k] = true;
      ++sets;
      if (track) { while (first[k] < n && model[first[k]][k]) ++first[k]; tracked[k] = true; } else tracked[k] = false;
      break;
    }
    case 2: {
      const u64 c = g.chance(1, 5) ? g.range(1, 300) : 1;
      for (u64 j = 0; j < c; ++j) m.reset();
      resets += c;
      for (auto &x : model) x.fill(false);
      first.fill(0);
      tracked.fill(true);
      op = std::to_string(c) + " resets";
      break;
    }
    case 3: {
      const u64 n2 = g.logsize(1, 120);
      m.resize(n2);
      model.resize(n2);
      n = n2;
      op = "resize " + std::to_string(n2) + " + reset";
      m.reset();
      for (auto &x : model) x.fill(false);
      first.fill(0);
      tracked.fill(true);
      break;
    }
    case 4: { Marker<K, V, C> o(std::move(m)); m = std::move(o); op = "move"; break; }
    }
    g.note(op + "; ");
    check(op);
  }
  g.label(resets > 100 ? "marker: timestamp wraps" : "marker");
  g.nontrivial(sets && resets);
}
PBT_TEST(marker, 6) {
  switch (g.draw(5)) {
  case 0: marker<1, std::size_t, std::vector>(g); break;
  case 1: marker<2, std::size_t, std::vector>(g); break;
  case 2: marker<3, std::uint8_t, std::vector>(g); break;
  case 3: marker<1, std::uint8_t, ScalableVector>(g); break;
  default: marker<3, std::uint16_t, std::vector>(g); break;
  }
}
// Billions of resets: the timestamp outgrows 32 bits
PBT_TEST(marker_many_resets, 1) {
  if (!g.chance(1, 20)) g.reject();
  Marker<2> m(4);
  const u64 at = ((u64)1 << 30) - 2;
  for (u64 i = 0; i < at; ++i) m.reset();
  for (u64 i = 0; i < 6; ++i) {
    for (u64 e = 0; e < 4; ++e) CHECK_EQ(m.get(e, 1), false, "stale mark", "after " << at + i << " resets");
    m.set(i % 4, 1);
    CHECK_EQ(m.get(i % 4, 1), true, "mark lost", "after " << at + i << " resets");
    CHECK_EQ(m.get(i % 4, 0), false, "other marker", "after " << at + i << " resets");
    m.reset();
  }
  g.nontrivial(true);
}

PBT_TEST(queue, 4) {
  u64 cap = g.logsize(1, 60);
  Queue<u32> q(cap);
  std::deque<u32> model;
  u64 head = 0; // elements in front of the head that push_head may reuse
  u64 tail = 0;
  u64 done = 0;
  const u64 ops = g.logsize(1, 150);
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    const u32 v = g.draw(1000);
    switch (g.weighted({8, 3, 5, 2, 1, 1})) {
    case 0: if (tail == cap) continue; q.push_tail(v); model.push_back(v); ++tail; op = "push_tail"; break;
    case 1: if (head == 0) continue; q.push_head(v); model.push_front(v); --head; op = "push_head"; break;
    case 2: if (model.empty()) continue; q.pop_head(); model.pop_front(); ++head; op = "pop_head"; break;
    case 3: if (model.empty()) continue; q.pop_tail(); model.pop_back(); --tail; op = "pop_tail"; break;
    case 4: q.clear(); model.clear(); head = tail = 0; op = "clear"; break;
    case 5: cap = g.logsize(1, 60); q.resize(cap); model.clear(); head = tail = 0; op = "resize"; break;
    }
    g.note(op + "; ");
    ++done;
    CHECK_EQ((u64)q.size(), (u64)model.size(), "size", op);
    CHECK_EQ(q.empty(), model.empty(), "empty", op);
    CHECK_EQ((u64)q.capacity(), cap, "capacity", op);
    if (!model.empty()) CHECK_EQ(q.head(), model.front(), "head", op);
    CHECK_MSG(std::equal(q.begin(), q.end(), model.begin(), model.end()), "contents", op);
    CHECK_MSG(std::equal(q.cbegin(), q.cend(), model.begin(), model.end()), "const-contents", op);
    for (u64 j = 0; j < model.size(); ++j) CHECK_EQ(q[j], model[j], "access", op << " " << j);
  }
  g.nontrivial(done > 2);
}

// --- arrays -----------------------------------------------------------------------------------------
template <typename T> void static_array_ops(Gen &g) {
  StaticArray<T> a;
  std::vector<T> model;
  std::optional<std::vector<T>> full; // contents before restrict()
  const u64 ops = g.logsize(1, 40);
  auto val = [&] { return (T)g.draw(1000000); };
  u64 peak = 0;
  std::vector<T> backing;
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (g.weighted({3, 4, 2, 2, 2, 1, 1, 1, 1})) {
    case 0: {
      const u64 n = g.chance(1, 6) ? 0 : g.logsize(1, 3000);
      const T v = val();
      if (a.is_span()) a = StaticArray<T>();
      switch (g.draw(5)) {
      case 0: a.resize(n); model.assign(n, T()); break;
      case 1: a.resize(n, v); model.assign(n, v); break;
      case 2: a.resize(n, v, static_array::seq); model.assign(n, v); break;
      case 3: a.resize(n, static_array::small, static_array::noinit); model.assign(n, v); for (u64 j = 0; j < n; ++j) a.at(j) = v; break;
      case 4: a = StaticArray<T>(n, v); model.assign(n, v); break;
      }
      full.reset();
      op = "resize " + std::to_string(n);
      break;
    }
    case 1: if (model.empty()) continue; { const u64 k = g.draw(model.size()); const T v = val(); g.flip() ? (void)(a[k] = v) : a.write(k, v); model[k] = v; op = "write"; } break;
    case 2: { if (full) continue; const u64 n = g.draw(model.size() + 1); full = model; a.restrict(n); model.resize(n); op = "restrict " + std::to_string(n); break; }
    case 3: { if (!full) continue; a.unrestrict(); std::copy(model.begin(), model.end(), full->begin()); model = *full; full.reset(); op = "unrestrict"; break; }
    case 4: { const T v = val(); const u64 c = g.draw(model.size() + 1); a.assign(c, v, g.flip()); std::fill_n(model.begin(), c, v); op = "assign " + std::to_string(c); break; }
    case 5: { StaticArray<T> b(std::move(a)); a = std::move(b); op = "move"; break; }
    case 6: a.free(); model.clear(); full.reset(); op = "free"; break;
    case 7: { const u64 n = g.logsize(1, 500); Rng r(g.seed()); std::vector<T> v(n); for (auto &x : v) x = (T)r.below(1000); a = g.flip() ? static_array::create(v) : StaticArray<T>(v.begin(), v.end()); model = v; full.reset(); op = "from vector"; break; }
    case 8: { const u64 n = g.logsize(1, 500); Rng r(g.seed()); backing.resize(n); for (auto &x : backing) x = (T)r.below(1000); a = StaticArray<T>(n, backing.data()); CHECK_EQ(a.is_span(), true, "span", ""); CHECK_EQ((void *)a.data(), (void *)backing.data(), "span-data", ""); model = backing; full.reset(); op = "span"; break; }
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    const auto &c = a;
    CHECK_EQ((u64)c.size(), (u64)model.size(), "size", op);
    CHECK_EQ(c.empty(), model.empty(), "empty", op);
    CHECK_MSG(std::equal(c.begin(), c.end(), model.begin(), model.end()), "contents", op);
    CHECK_MSG(std::equal(a.begin(), a.end(), model.begin(), model.end()), "mutable-contents", op);
    if (!model.empty()) {
      CHECK_EQ(c.front(), model.front(), "front", op);
      CHECK_EQ(c.back(), model.back(), "back", op);
      const u64 k = (i * 37) % model.size();
      CHECK_EQ(c[k], model[k], "access", op);
      CHECK_EQ(*(c.begin() + k), model[k], "iterator", op);
      CHECK_EQ((u64)(c.end() - c.begin()), (u64)model.size(), "distance", op);
      CHECK_EQ(c.begin()[k], model[k], "iterator-index", op);
      // Equality is elementwise
      StaticArray<T> same(model.begin(), model.end());
      CHECK_EQ(same == c, true, "equal", op);
      same[k] = (T)(model[k] + (T)1);
      CHECK_EQ(same == c, false, "unequal", op << " (differs at position " << k << " of " << model.size() << ")");
    }
  }
  g.nontrivial(peak > 1);
}
PBT_TEST(static_array, 6) {
  switch (g.draw(4)) {
  case 0: static_array_ops<std::uint8_t>(g); break;
  case 1: static_array_ops<u32>(g); break;
  case 2: static_array_ops<i64>(g); break;
  default: static_array_ops<double>(g); break;
  }
}

template <typename Int> void compact_array(Gen &g) {
  CompactStaticArray<Int> a;
  std::vector<Int> model;
  std::optional<std::vector<Int>> full;
  u64 width = 1, peak = 0;
  const u64 ops = g.logsize(1, 60);
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (i == 0 ? 0 : g.weighted({1, 10, 1, 1, 1, 4})) {
    case 0: { width = g.range(1, sizeof(Int)); const u64 n = g.chance(1, 8) ? 0 : g.logsize(1, 300); g.flip() ? a.resize(width, n) : (void)(a = CompactStaticArray<Int>(width, n)); model.assign(n, 0); full.reset(); op = "resize " + std::to_string(width) + "x" + std::to_string(n); break; }
    case 1:
    case 5: {
      if (model.empty()) continue;
      const u64 top = width == 8 ? ~(u64)0 : ((u64)1 << (8 * width)) - 1;
      const u64 k = g.draw(model.size());
      const u64 v = g.weighted({1, 1, 2}) == 0 ? top : g.flip() ? g.draw(256) : (mix(g.seed()) & top);
      a.write(k, (Int)v); model[k] = (Int)v; op = "write " + std::to_string(k); break;
    }
    case 2: { if (full) continue; const u64 n = g.draw(model.size() + 1); full = model; a.restrict(n); model.resize(n); op = "restrict"; break; }
    case 3: { if (!full) continue; a.unrestrict(); std::copy(model.begin(), model.end(), full->begin()); model = *full; full.reset(); op = "unrestrict"; break; }
    case 4: {
      if (full) continue;
      if (g.flip()) { CompactStaticArray<Int> b(std::move(a)); a = std::move(b); op = "move"; }
      else { // as when read from a file
        auto raw = std::make_unique<std::uint8_t[]>(a.memory_space());
        std::memcpy(raw.get(), a.data(), a.memory_space());
        const u64 sz = a.memory_space();
        a = CompactStaticArray<Int>(width, sz, std::move(raw));
        op = "reload";
      }
      break;
    }
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    const auto &c = a;
    CHECK_EQ((u64)c.size(), (u64)model.size(), "size", op);
    CHECK_EQ(c.empty(), model.empty(), "empty", op);
    CHECK_EQ((u64)c.byte_width(), width, "width", op);
    for (u64 k = 0; k < model.size(); ++k) CHECK_EQ(c[k], model[k], "access", op << " position " << k << " width " << width);
    u64 k = 0;
    for (auto it = c.begin(), e = c.end(); it != e; ++it, ++k) { CHECK_MSG(k < model.size(), "iterate-too-far", op); CHECK_EQ(*it, model[k], "iterate", op << " position " << k); }
    CHECK_EQ(k, (u64)model.size(), "iterate-length", op);
    if (!model.empty()) { const u64 j = (i * 31) % model.size(); CHECK_EQ(*(c.begin() + j), model[j], "iterator", op); CHECK_EQ(*(c.end() - (model.size() - j)), model[j], "iterator-back", op); }
  }
  g.label("compact array: width " + std::to_string(width));
  g.nontrivial(peak > 1);
}
PBT_TEST(compact_static_array, 6) { g.flip() ? compact_array<u32>(g) : compact_array<u64>(g); }

template <std::size_t BW, std::size_t HW> void rank_vector(Gen &g) {
  constexpr u64 data_w = BW - HW, super_w = ((u64)1 << HW) - (((u64)1 << HW) / BW) * HW;
  u64 n;
  switch (g.draw(5)) {
  case 0: n = g.range(1, 200); break;
  case 1: n = g.range(1, 4) * data_w + (i64)g.draw(3) - 1; break;
  case 2: n = g.range(1, 3) * super_w + (i64)g.draw(3) - 1; break;
  case 3: n = g.range(super_w, 3 * super_w); break;
  default: n = g.logsize(1, 40000); break;
  }
  using BV = RankCombinedBitVector<BW, HW>;
  std::vector<char> model(n);
  const int ctor = g.draw(3);
  BV bv = ctor == 0 ? BV(n) : BV(n, ctor == 2);
  if (ctor == 0) for (u64 i = 0; i < n; ++i) bv.unset(i);
  std::fill(model.begin(), model.end(), ctor == 2);
  CHECK_EQ((u64)bv.length(), n, "length", "");
  Rng r(g.seed());
  const u64 rounds = g.range(1, 3);
  for (u64 round = 0; round < rounds; ++round) {
    const int mode = g.draw(4);
    const u64 dens = g.range(1, 100);
    for (u64 i = 0; i < n; ++i) {
      if (mode == 0 && !r.chance(dens, 100)) continue;
      const bool v = mode == 1 ? true : mode == 2 ? false : r.chance(dens, 100);
      switch (r.below(3)) {
      case 0: bv.set(i, v); break;
      default: v ? bv.set(i) : bv.unset(i); break;
      }
      model[i] = v;
    }
    if (g.flip()) for (u64 i = 0; i < n; ++i) CHECK_EQ(bv.is_set(i), (bool)model[i], "is-set", "before update, position " << i << " of " << n);
    bv.update();
    if (g.chance(1, 4)) { BV o(std::move(bv)); bv = std::move(o); }
    u64 ones = 0;
    for (u64 i = 0; i < n; ++i) {
      CHECK_EQ((u64)bv.rank(i), ones, "rank", "position " << i << " of " << n << " in round " << round);
      CHECK_EQ(bv.is_set(i), (bool)model[i], "is-set", "position " << i << " of " << n);
      ones += model[i];
    }
  }
  g.label(n > super_w ? "rank: several superblocks" : n > data_w ? "rank: several blocks" : "rank: one block");
  g.nontrivial(n > 1);
}
PBT_TEST(rank_bit_vector, 4) {
  switch (g.draw(3)) {
  case 0: rank_vector<512, 14>(g); break;
  case 1: rank_vector<128, 9>(g); break;
  default: rank_vector<256, 10>(g); break;
  }
}

PBT_TEST(max_size_vector, 2) {
  const u64 cap = g.logsize(1, 200);
  MaxSizeVector<u64> v(cap);
  std::vector<u64> model;
  const u64 ops = g.logsize(1, 60);
  u64 peak = 0;
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (g.weighted({5, 3, 1, 1, 2})) {
    case 0: if (model.size() == cap) continue; v.push_back(i); model.push_back(i); op = "push"; break;
    case 1: { const u64 c = g.draw(cap - model.size() + 1); for (u64 j = 0; j < c; ++j) { v.emplace_back(j); model.push_back(j); } op = "push " + std::to_string(c); break; }
    case 2: v.clear(); model.clear(); op = "clear"; break;
    case 3: { const u64 n = g.draw(cap + 1); v.resize(n); model.resize(n); op = "resize " + std::to_string(n); break; }
    case 4: if (model.empty()) continue; v.pop_back(); model.pop_back(); op = "pop"; break;
    }
    g.note(op + "; ");
    peak = std::max<u64>(peak, model.size());
    CHECK_EQ((u64)v.size(), (u64)model.size(), "size", op);
    CHECK_MSG(v.capacity() <= cap, "capacity", op);
    CHECK_EQ((u64)v.max_size(), cap, "max-size", op);
    CHECK_MSG(std::equal(v.begin(), v.end(), model.begin(), model.end()), "contents", op);
  }
  g.label(peak == cap ? "max size: reached" : "max size: not reached");
  g.nontrivial(peak > 1);
}

template <typename Vec> void vector_like(Gen &g) {
  Vec v;
  std::vector<u32> model;
  const u64 ops = g.logsize(1, 30);
  for (u64 i = 0; i < ops; ++i) {
    switch (g.weighted({4, 2, 1})) {
    case 0: v.push_back(i); model.push_back(i); break;
    case 1: { const u64 o = model.size(), n = g.draw(500); v.resize(n); model.resize(n); for (u64 j = o; j < n; ++j) v[j] = model[j] = j; break; }
    case 2: v.clear(); model.clear(); break;
    }
    CHECK_MSG(std::equal(v.begin(), v.end(), model.begin(), model.end()), "contents", "");
  }
  g.nontrivial(model.size() > 1);
}
PBT_TEST(vectors, 1) {
  switch (g.draw(3)) {
  case 0: vector_like<NoinitVector<u32>>(g); break;
  case 1: vector_like<ScalableVector<u32>>(g); break;
  default: vector_like<CacheAlignedVector<u32>>(g); break;
  }
}

// --- shared by threads -------------------------------------------------------------------------------
PBT_TEST(concurrent_fast_reset_array, 2) {
  const int threads = g.range(1, 8);
  tbb::task_arena arena(threads);
  u64 cap = g.logsize(1, 2000);
  const u64 rounds = g.range(1, 4);
  const u64 seed = g.seed();
  const int resize_at = g.flip() ? (int)g.draw(4) : -1;
  const u64 cap2 = g.logsize(1, 2000);
  arena.execute([&] {
    ConcurrentFastResetArray<i64, u32> arr(cap);
    for (u64 r = 0; r < rounds; ++r) {
      if ((int)r == resize_at) { cap = cap2; arr.resize(cap); }
      CHECK_EQ((u64)arr.capacity(), cap, "capacity", "");
      std::vector<i64> want(cap, 0);
      for (u64 i = 0; i < cap; ++i) if (mix(seed + r * 31 + i) % 3) want[i] = 1 + mix(seed ^ (i + r)) % 50;
      tbb::parallel_for<u64>(0, cap, [&](const u64 i) { if (want[i]) { arr[i] += want[i]; arr.local_used_entries().push_back(i); } });
      std::vector<std::atomic<int>> seen(cap);
      std::atomic<u64> wrong{0}, bad{~(u64)0};
      arr.iterate_and_reset([&](auto, auto &&entries) {
        for (const auto &[pos, v] : entries) { ++seen[pos]; if (v != want[pos]) { ++wrong; bad = pos; } }
      });
      CHECK_EQ(wrong.load(), (u64)0, "value", "position " << bad.load());
      for (u64 i = 0; i < cap; ++i) {
        CHECK_EQ(seen[i].load(), want[i] != 0 ? 1 : 0, "visited", "position " << i << " in round " << r);
        CHECK_EQ((i64)arr[i], (i64)0, "reset", "position " << i);
      }
    }
  });
  g.label("threads " + std::to_string(threads));
  g.nontrivial(cap > 1);
}

// Threads draw tickets and add their amounts; ticket i must see exactly the sum of the amounts of tickets < i
template <typename Buf> void ring(Gen &g) {
  const bool spins = std::is_same_v<Buf, ConcurrentCircularVectorSpinlock<u32, u64>>; // spinning is slow with more threads than cores
  const int threads = g.range(1, spins ? 3 : 8);
  const u64 tickets = g.logsize(1, spins ? 60 : 2000);
  const u64 seed = g.seed();
  Buf buf(threads);
  std::vector<u64> got(tickets, 0);
  std::vector<int> times(tickets, 0);
  std::vector<std::thread> ts;
  std::atomic<u64> extra{0};
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&] {
      for (;;) {
        const u32 i = buf.next();
        const u64 d = i < tickets ? mix(seed + i) % 1000 : 0;
        if (i < tickets && mix(seed ^ i) % 7 == 0) std::this_thread::yield();
        const u64 v = buf.fetch_and_update(i, d);
        if (i >= tickets) { ++extra; break; }
        got[i] = v;
        ++times[i];
      }
    });
  for (auto &t : ts) t.join();
  u64 sum = 0;
  for (u64 i = 0; i < tickets; ++i) {
    CHECK_EQ(times[i], 1, "ticket", "ticket " << i);
    CHECK_EQ(got[i], sum, "offset", "ticket " << i << " with " << threads << " threads");
    sum += mix(seed + i) % 1000;
  }
  CHECK_EQ(extra.load(), (u64)threads, "threads", "");
  g.nontrivial(threads > 1 && tickets > 1);
}
PBT_TEST(circular_vector_mutex, 1) { ring<ConcurrentCircularVectorMutex<u32, u64>>(g); }
PBT_TEST(circular_vector_spinlock, 1) { ring<ConcurrentCircularVectorSpinlock<u32, u64>>(g); }

// Threads append runs of elements, each run behind a marker; afterwards every run is found behind its marker
template <typename T> using ListVec = ScalableVector<T>;
template <typename T> using GlobalVec = ScalableVector<T>;
PBT_TEST(navigable_linked_list, 1) {
  const int threads = g.range(1, 8);
  const u64 runs = g.logsize(1, 300);
  const u64 seed = g.seed();
  const u64 max_len = g.chance(1, 4) ? 3000 : g.logsize(1, 100);
  auto len = [&](u64 i) { return mix(seed + i) % (max_len + 1); };
  tbb::task_arena arena(threads);
  NavigableLinkedList<u32, u64, ListVec> list;
  u64 total = 0;
  for (u64 i = 0; i < runs; ++i) total += len(i);
  arena.execute([&] {
    tbb::parallel_for<u64>(0, runs, [&](u64 i) {
      auto &l = list.local();
      l.mark(i);
      for (u64 j = 0; j < len(i); ++j) {
        if (j % 3 == 0) l.emplace_back(i * 10000 + j);
        else { const u64 x = i * 10000 + j; l.push_back(x); }
      }
    });
  });
  GlobalVec<NavigationMarker<u32, u64, ListVec>> init;
  if (g.flip()) init.resize(g.draw(2 * runs + 1));
  const u64 given = init.size();
  auto markers = ts_navigable_list::combine<u32, u64, ListVec, GlobalVec>(list, std::move(init));
  CHECK_MSG(markers.size() >= runs, "markers", markers.size() << " markers for " << runs << " runs");
  CHECK_EQ((u64)markers.size(), std::max(runs, given), "marker-count", "");
  std::vector<int> seen(runs, 0);
  for (u64 m = 0; m < runs; ++m) {
    const auto &mk = markers[m];
    CHECK_MSG(mk.key < runs, "marker-key", "key " << mk.key);
    ++seen[mk.key];
    for (u64 j = 0; j < len(mk.key); ++j) CHECK_EQ((u64)std::as_const(*mk.local_list).get(mk.position + j), (u64)mk.key * 10000 + j, "element", "run " << mk.key << " element " << j);
  }
  for (u64 i = 0; i < runs; ++i) CHECK_EQ(seen[i], 1, "marker-twice", "run " << i);
  g.label(total > 32768 ? "list: several chunks" : "list: one chunk");
  g.nontrivial(total > 1);
}

PBT_MAIN()
