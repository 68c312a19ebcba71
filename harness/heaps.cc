// K15: every priority queue against a plain map, over generated operation sequences.
#include "pbt.h"

#include "kaminpar-common/datastructures/binary_heap.h"
#include "kaminpar-common/datastructures/scalable_vector.h"

using namespace pbt;
using namespace kaminpar;

// Keys: few distinct values (ties), small, wide, or extreme; the sentinels of the queues (lowest / max) are left out.
template <typename Key> struct Keys {
  int mode;
  explicit Keys(Gen &g) : mode(g.draw(4)) {}
  Key operator()(Gen &g) const {
    if constexpr (std::is_floating_point_v<Key>) {
      return mode == 0 ? (Key)(i64)g.draw(3) : mode == 1 ? (Key)((i64)g.draw(41) - 20) / 8 : (Key)((i64)g.draw(2000001) - 1000000) / (mode == 2 ? 1000 : 1);
    } else {
      const Key top = std::numeric_limits<Key>::max() - 1;
      switch (mode) {
      case 0: return (Key)g.draw(3);
      case 1: return (Key)((i64)g.draw(41) - 20);
      case 2: return (Key)((i64)g.draw(2000001) - 1000000);
      default: { const Key d = (Key)g.draw(5); return g.flip() ? top - d : (Key)(-top + d); }
      }
    }
  }
};

template <typename K> std::string kstr(K k) { std::ostringstream o; o << k; return o.str(); }

// Addressable queues over ids [0, cap)
template <typename Key, bool MAX, typename Heap> void check_addressable(Gen &g, Heap h, u64 cap, std::function<bool(Heap &)> extra) {
  std::map<u64, Key> model;
  Keys<Key> keys(g);
  const u64 ops = g.logsize(1, 120);
  u64 peak = 0, changes = 0;
  auto best = [&] { Key b = model.begin()->second; for (auto &[i, k] : model) b = MAX ? std::max(b, k) : std::min(b, k); return b; };
  auto check = [&](const std::string &op) {
    CHECK_EQ((u64)h.size(), (u64)model.size(), "size", op);
    CHECK_EQ(h.empty(), model.empty(), "empty", op);
    for (u64 i = 0; i < cap; ++i) {
      CHECK_EQ(h.contains(i), model.count(i) != 0, "contains", op << " id " << i);
      if (model.count(i)) CHECK_EQ(h.key(i), model[i], "key", op << " id " << i);
    }
    if (!model.empty()) {
      CHECK_EQ(h.peek_key(), best(), "peek-key", op);
      const u64 id = h.peek_id();
      CHECK_MSG(model.count(id), "peek-id", op << " top id " << id << " is not in the queue");
      CHECK_EQ(model[id], best(), "peek-id-key", op << " id " << id);
    }
  };
  auto member = [&] { auto it = model.begin(); std::advance(it, g.draw(model.size())); return it->first; };
  for (u64 i = 0; i < ops; ++i) {
    std::string op;
    switch (g.weighted({8, 2, 3, 4, 4, 1, 1})) {
    case 0: {
      const u64 id = g.draw(cap);
      if (model.count(id)) continue;
      const Key k = keys(g);
      op = "push(" + std::to_string(id) + "," + kstr(k) + ")";
      g.note(op + " ");
      h.push(id, k);
      model[id] = k;
      break;
    }
    case 1:
      if (model.empty()) continue;
      { const u64 id = h.peek_id(); op = "pop[" + std::to_string(id) + "]"; g.note(op + " "); h.pop(); model.erase(id); }
      break;
    case 2:
      if (model.empty()) continue;
      { const u64 id = member(); op = "remove(" + std::to_string(id) + ")"; g.note(op + " "); h.remove(id); model.erase(id); }
      break;
    case 3:
      if (model.empty()) continue;
      { const u64 id = member(); const Key k = keys(g); op = "change(" + std::to_string(id) + "," + kstr(k) + ")"; g.note(op + " "); h.change_priority(id, k); model[id] = k; ++changes; }
      break;
    case 4: { const u64 id = g.draw(cap); const Key k = keys(g); op = "push_or_change(" + std::to_string(id) + "," + kstr(k) + ")"; g.note(op + " "); h.push_or_change_priority(id, k); model[id] = k; ++changes; break; }
    case 5: if (!g.chance(1, 4)) continue; op = "clear"; g.note("clear "); h.clear(); model.clear(); break;
    case 6: {
      if (g.flip()) { op = "move"; g.note("move "); Heap other = std::move(h); h = std::move(other); }
      else { if (!model.empty()) { h.clear(); model.clear(); } op = "extra"; g.note("resize "); if (!extra(h)) continue; }
      break;
    }
    }
    peak = std::max<u64>(peak, model.size());
    check(op);
  }
  // Drain: keys come out in order
  while (!model.empty()) {
    const u64 id = h.peek_id();
    CHECK_EQ(h.peek_key(), best(), "drain-key", "");
    CHECK_MSG(model.count(id) && model[id] == best(), "drain-id", "id " << id);
    h.pop();
    model.erase(id);
  }
  CHECK_MSG(h.empty(), "drain-empty", "elements remain");
  g.nontrivial(peak >= 3);
}

#define FIXED(NAME, KEY, MAXV, TYPE)                                                               \
  PBT_TEST(NAME, 2) {                                                                              \
    u64 cap = 1 + g.logsize(0, 60);                                                                \
    g.note("cap=" + std::to_string(cap) + " ");                                                    \
    u64 *c = &cap;                                                                                 \
    check_addressable<KEY, MAXV, TYPE<KEY>>(g, TYPE<KEY>(cap), cap, [&g, c](TYPE<KEY> &h) { h.resize(*c + g.draw(20)); h.resize(*c); return true; }); \
  }
FIXED(binary_max_i64, std::int64_t, true, BinaryMaxHeap)
FIXED(binary_min_i64, std::int64_t, false, BinaryMinHeap)
FIXED(binary_max_i32, std::int32_t, true, BinaryMaxHeap)
FIXED(binary_max_double, double, true, BinaryMaxHeap)
FIXED(binary_min_double, double, false, BinaryMinHeap)

// Several queues sharing one handle array; an id is in at most one of them
template <typename Key, bool MAX, typename Heap> void check_shared(Gen &g) {
  const u64 cap = 1 + g.logsize(0, 60), nh = 1 + g.draw(4);
  g.note("cap=" + std::to_string(cap) + " queues=" + std::to_string(nh) + " ");
  std::vector<std::size_t> handles(cap, Heap::kInvalidID);
  std::vector<Heap> hs;
  for (u64 i = 0; i < nh; ++i) hs.emplace_back(cap, handles.data());
  std::vector<std::map<u64, Key>> model(nh);
  std::map<u64, u64> where;
  Keys<Key> keys(g);
  u64 peak = 0;
  for (u64 i = 0, ops = g.logsize(1, 120); i < ops; ++i) {
    const u64 id = g.draw(cap), q = g.draw(nh);
    switch (g.weighted({6, 2, 2, 3, 1})) {
    case 0:
      if (!where.count(id)) { const Key k = keys(g); g.note("push(" + std::to_string(q) + "," + std::to_string(id) + "," + kstr(k) + ") "); hs[q].push(id, k); model[q][id] = k; where[id] = q; }
      else { const Key k = keys(g); const u64 w = where[id]; g.note("poc(" + std::to_string(w) + "," + std::to_string(id) + "," + kstr(k) + ") "); hs[w].push_or_change_priority(id, k); model[w][id] = k; }
      break;
    case 1: if (!model[q].empty()) { const u64 t = hs[q].peek_id(); g.note("pop(" + std::to_string(q) + ") "); hs[q].pop(); CHECK_MSG(model[q].erase(t), "pop", "id " << t << " was not in queue " << q); where.erase(t); } break;
    case 2: if (where.count(id)) { const u64 w = where[id]; g.note("remove(" + std::to_string(w) + "," + std::to_string(id) + ") "); hs[w].remove(id); model[w].erase(id); where.erase(id); } break;
    case 3: if (where.count(id)) { const Key k = keys(g); const u64 w = where[id]; g.note("change(" + std::to_string(w) + "," + std::to_string(id) + "," + kstr(k) + ") "); hs[w].change_priority(id, k); model[w][id] = k; } break;
    case 4: if (g.chance(1, 3)) { g.note("clear(" + std::to_string(q) + ") "); hs[q].clear(); for (auto &[x, k] : model[q]) where.erase(x); model[q].clear(); } break;
    }
    for (u64 x = 0; x < cap; ++x) {
      CHECK_EQ(hs[q].contains(x), where.count(x) != 0, "contains", "id " << x);
      if (where.count(x)) CHECK_EQ(hs[where[x]].key(x), model[where[x]][x], "key", "id " << x);
    }
    for (u64 h = 0; h < nh; ++h) {
      CHECK_EQ((u64)hs[h].size(), (u64)model[h].size(), "size", "queue " << h);
      CHECK_EQ(hs[h].empty(), model[h].empty(), "empty", "queue " << h);
      if (!model[h].empty()) {
        Key b = model[h].begin()->second;
        for (auto &[x, k] : model[h]) b = MAX ? std::max(b, k) : std::min(b, k);
        CHECK_EQ(hs[h].peek_key(), b, "peek-key", "queue " << h);
        const u64 t = hs[h].peek_id();
        CHECK_MSG(model[h].count(t) && model[h][t] == b, "peek-id", "queue " << h << " id " << t);
      }
      peak = std::max<u64>(peak, model[h].size());
    }
  }
  g.nontrivial(peak >= 3);
}
PBT_TEST(shared_max, 3) { check_shared<std::int64_t, true, SharedBinaryMaxHeap<std::int64_t>>(g); }
PBT_TEST(shared_min, 3) { check_shared<std::int32_t, false, SharedBinaryMinHeap<std::int32_t>>(g); }

// Forests: addressable queues with shared positions; MODE 0 max, 1 min, 2 min-max
template <typename Key, typename ID, int MODE, typename F> void check_forest(Gen &g) {
  u64 cap = 1 + g.logsize(0, 60), nh = 1 + g.draw(5);
  g.note("cap=" + std::to_string(cap) + " queues=" + std::to_string(nh) + " ");
  F f = g.flip() ? F(cap, nh) : F();
  if (f.capacity() == 0) f.init(cap, nh);
  CHECK_EQ((u64)f.capacity(), cap, "capacity", "");
  std::vector<std::map<u64, Key>> model(nh);
  std::map<u64, u64> where;
  Keys<Key> keys(g);
  u64 peak = 0;
  for (u64 i = 0, ops = g.logsize(1, 120); i < ops; ++i) {
    const u64 id = g.draw(cap), q = g.draw(nh);
    auto drop = [&](u64 t) { CHECK_MSG(model[q].erase(t), "pop", "id " << t << " was not in queue " << q); where.erase(t); };
    switch (g.weighted({7, 2, 2, 4, 1, 1})) {
    case 0: if (!where.count(id)) { const Key k = keys(g); g.note("push(" + std::to_string(q) + "," + std::to_string(id) + "," + kstr(k) + ") "); f.push(q, (ID)id, k); model[q][id] = k; where[id] = q; } break;
    case 1:
      if (model[q].empty()) break;
      if constexpr (MODE == 2) {
        if (g.flip()) { const u64 t = f.peek_min_id(q); g.note("pop_min(" + std::to_string(q) + ") "); f.pop_min(q); drop(t); }
        else { const u64 t = f.peek_max_id(q); g.note("pop_max(" + std::to_string(q) + ") "); f.pop_max(q); drop(t); }
      } else { const u64 t = f.peek_id(q); g.note("pop(" + std::to_string(q) + ") "); f.pop(q); drop(t); }
      break;
    case 2: if (where.count(id)) { const u64 w = where[id]; g.note("remove(" + std::to_string(w) + "," + std::to_string(id) + ") "); f.remove(w, (ID)id); model[w].erase(id); where.erase(id); } break;
    case 3: if (where.count(id)) { const Key k = keys(g); const u64 w = where[id]; g.note("change(" + std::to_string(w) + "," + std::to_string(id) + "," + kstr(k) + ") "); f.change_priority(w, (ID)id, k); model[w][id] = k; } break;
    case 4: if (g.chance(1, 3)) { g.note("clear(" + std::to_string(q) + ") "); f.clear(q); for (auto &[x, k] : model[q]) where.erase(x); model[q].clear(); } break;
    case 5: if (g.chance(1, 6)) { g.note("clear "); f.clear(); where.clear(); for (auto &m : model) m.clear(); } break;
    }
    u64 total = 0;
    for (u64 x = 0; x < cap; ++x) {
      CHECK_EQ(f.contains((ID)x), where.count(x) != 0, "contains", "id " << x);
      if (where.count(x)) CHECK_EQ(f.key(where[x], (ID)x), model[where[x]][x], "key", "id " << x);
    }
    for (u64 h = 0; h < nh; ++h) {
      total += model[h].size();
      CHECK_EQ((u64)f.size(h), (u64)model[h].size(), "size", "queue " << h);
      CHECK_EQ(f.empty(h), model[h].empty(), "empty", "queue " << h);
      std::map<u64, Key> el;
      for (const auto &e : f.elements(h)) el[e.id] = e.key;
      CHECK_MSG(el == model[h], "elements", "queue " << h);
      peak = std::max<u64>(peak, model[h].size());
      if (model[h].empty()) continue;
      Key mx = model[h].begin()->second, mn = mx;
      for (auto &[x, k] : model[h]) { mx = std::max(mx, k); mn = std::min(mn, k); }
      auto top = [&](u64 t, Key k, Key want, const char *what) {
        CHECK_EQ(k, want, what, "queue " << h);
        CHECK_MSG(model[h].count(t) && model[h][t] == want, what, "queue " << h << " id " << t);
      };
      if constexpr (MODE == 2) { top(f.peek_min_id(h), f.peek_min_key(h), mn, "min"); top(f.peek_max_id(h), f.peek_max_key(h), mx, "max"); }
      else top(f.peek_id(h), f.peek_key(h), MODE == 0 ? mx : mn, "peek");
    }
    CHECK_EQ((u64)f.size(), total, "total-size", "");
  }
  g.nontrivial(peak >= 3);
}
PBT_TEST(forest_max, 2) { check_forest<std::int64_t, std::uint32_t, 0, DynamicBinaryMaxForest<std::uint32_t, std::int64_t>>(g); }
PBT_TEST(forest_min, 2) { check_forest<std::int32_t, std::uint32_t, 1, DynamicBinaryMinForest<std::uint32_t, std::int32_t, ScalableVector>>(g); }
PBT_TEST(forest_max_double, 2) { check_forest<double, std::uint32_t, 0, DynamicBinaryMaxForest<std::uint32_t, double>>(g); }
PBT_TEST(forest_minmax, 4) { check_forest<std::int64_t, std::uint64_t, 2, DynamicBinaryMinMaxForest<std::uint64_t, std::int64_t>>(g); }
PBT_TEST(forest_minmax_double, 2) { check_forest<double, std::uint32_t, 2, DynamicBinaryMinMaxForest<std::uint32_t, double>>(g); }

// Not addressable: a multiset of (id, key)
template <typename Key, bool MAX, typename Heap> void check_dynamic(Gen &g) {
  Heap h(g.draw(4));
  std::multiset<std::pair<Key, u64>> model;
  Keys<Key> keys(g);
  u64 peak = 0;
  for (u64 i = 0, ops = g.logsize(1, 150); i < ops; ++i) {
    switch (g.weighted({6, 3, 1})) {
    case 0: { const u64 id = g.draw(50); const Key k = keys(g); g.note("push(" + std::to_string(id) + "," + kstr(k) + ") "); h.push(id, k); model.insert({k, id}); break; }
    case 1: if (!model.empty()) { g.note("pop "); const std::pair<Key, u64> t{h.peek_key(), h.peek_id()}; auto it = model.find(t); CHECK_MSG(it != model.end(), "pop", "popped an element that is not in the queue"); h.pop(); model.erase(it); } break;
    case 2: if (g.chance(1, 5)) { g.note("clear "); h.clear(); model.clear(); } break;
    }
    CHECK_EQ((u64)h.size(), (u64)model.size(), "size", "");
    CHECK_EQ(h.empty(), model.empty(), "empty", "");
    std::multiset<std::pair<Key, u64>> el;
    for (const auto &e : h.elements()) el.insert({e.key, e.id});
    CHECK_MSG(el == model, "elements", "");
    if (!model.empty()) CHECK_EQ(h.peek_key(), MAX ? model.rbegin()->first : model.begin()->first, "peek-key", "");
    peak = std::max<u64>(peak, model.size());
  }
  g.nontrivial(peak >= 3);
}
PBT_TEST(dynamic_max, 2) { check_dynamic<std::int64_t, true, DynamicBinaryMaxHeap<std::uint32_t, std::int64_t>>(g); }
PBT_TEST(dynamic_min, 2) { check_dynamic<std::int32_t, false, DynamicBinaryMinHeap<std::uint32_t, std::int32_t>>(g); }
PBT_TEST(dynamic_max_double, 2) { check_dynamic<double, true, DynamicBinaryMaxHeap<std::uint32_t, double>>(g); }
PBT_MAIN()
