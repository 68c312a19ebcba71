// K17: parallel primitives and integer helpers against their sequential or mathematical definitions.
#include "pbt.h"

#include <bit>
#include <thread>

#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>

#include "kaminpar-common/degree_buckets.h"
#include "kaminpar-common/math.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/atomic.h"
#include "kaminpar-common/parallel/loops.h"
#include "kaminpar-common/parallel/vector_ets.h"
#include "kaminpar-common/random.h"
#include "kaminpar-common/ranges.h"
#include "kaminpar-common/strutils.h"
#include "kaminpar-common/asserting_cast.h"

using namespace pbt;
using namespace kaminpar;

template <typename T> std::vector<T> values(Gen &g, u64 n, i64 lo, i64 hi) {
  Rng r(g.seed());
  std::vector<T> v(n);
  const int mode = g.draw(4);
  for (u64 i = 0; i < n; ++i) v[i] = mode == 0 ? (T)lo : mode == 1 ? (T)((i64)i % (hi - lo + 1) + lo) : (T)(lo + (i64)r.below(hi - lo + 1));
  if (mode == 3 && n) v[r.below(n)] = (T)hi;
  return v;
}
inline u64 length(Gen &g) { return g.chance(1, 10) ? g.draw(3) : g.logsize(1, g.chance(1, 20) ? 60000 : 3000); }

template <typename T> void reductions(Gen &g) {
  const int threads = g.range(1, 8);
  const u64 n = length(g);
  const bool neg = std::is_signed_v<T>;
  const auto v = values<T>(g, n, neg ? -1000 : 0, g.flip() ? 1000 : neg ? -1 : 5);
  const T init = (T)((i64)g.draw(100) - (neg ? 50 : 0));
  g.note("n=" + std::to_string(n) + " threads=" + std::to_string(threads));
  tbb::task_arena arena(threads);
  arena.execute([&] {
    T sum = init, twice = init, mx{}, diff{};
    for (u64 i = 0; i < n; ++i) {
      sum += v[i];
      twice += v[i] * 2 + 1;
      mx = i ? std::max(mx, v[i]) : v[i];
      if (i == 1) diff = v[1] - v[0];
      if (i > 1) diff = std::max<T>(diff, v[i] - v[i - 1]);
    }
    CHECK_EQ(parallel::accumulate(v, init), sum, "accumulate", "n " << n);
    CHECK_EQ(parallel::accumulate(v.begin(), v.end(), init), sum, "accumulate-range", "n " << n);
    CHECK_EQ((T)parallel::accumulate(v.begin(), v.end(), init, [](const T &x) -> T { return x * 2 + 1; }), twice, "accumulate-op", "n " << n);
    if (n) {
      CHECK_EQ(parallel::max_element(v), mx, "max-element", "n " << n);
      CHECK_EQ(parallel::max_element(v.begin(), v.end()), mx, "max-element-range", "n " << n);
    }
    if (n == 1) CHECK_EQ(parallel::max_difference(v), (T)0, "max-difference", "n 1");
    if (n > 1 && (neg || std::is_sorted(v.begin(), v.end()))) {
      CHECK_EQ(parallel::max_difference(v), diff, "max-difference", "n " << n);
      CHECK_EQ(parallel::max_difference(v.begin(), v.end()), diff, "max-difference-range", "n " << n);
    }
    // prefix sums: into another array, in place, into a shifted array
    std::vector<T> want(n), out(n + 1, (T)77), self = v;
    std::partial_sum(v.begin(), v.end(), want.begin());
    parallel::prefix_sum(v.begin(), v.end(), out.begin());
    for (u64 i = 0; i < n; ++i) CHECK_EQ(out[i], want[i], "prefix-sum", "position " << i << " of " << n);
    CHECK_EQ(out[n], (T)77, "prefix-sum-overrun", "n " << n);
    parallel::prefix_sum(self.begin(), self.end(), self.begin());
    for (u64 i = 0; i < n; ++i) CHECK_EQ(self[i], want[i], "prefix-sum-in-place", "position " << i << " of " << n);
  });
  g.label(n == 0 ? "n: 0" : n == 1 ? "n: 1" : n < 1000 ? "n: < 1000" : "n: >= 1000");
  g.nontrivial(n > 1);
}
PBT_TEST(reductions, 6) {
  switch (g.draw(6)) {
  case 0: reductions<u32>(g); break;
  case 1: reductions<i32>(g); break;
  case 2: reductions<u64>(g); break;
  case 3: reductions<i64>(g); break;
  case 4: reductions<double>(g); break;
  default: reductions<std::int16_t>(g); break;
  }
}

PBT_TEST(aligned_prefix_sum, 3) {
  const int threads = g.range(1, 8);
  const u64 n = g.chance(1, 10) ? g.draw(3) : g.logsize(1, 2000);
  Rng r(g.seed());
  const int mode = g.draw(3);
  std::vector<std::pair<u32, u32>> spec(n);
  for (auto &[al, val] : spec) {
    al = mode == 0 ? 8 : r.chance(1, 10) ? 0 : 1u << r.below(4);
    val = mode == 1 ? al * (u32)r.below(20) : r.below(40);
  }
  std::vector<u64> out(n + 1, 0xabcdef);
  u64 total = 0, res = 0;
  g.note("n=" + std::to_string(n) + " threads=" + std::to_string(threads));
  tbb::task_arena arena(threads);
  arena.execute([&] {
    res = parallel::aligned_prefix_sum(out.begin(), out.begin() + n, [&](const u64 i) {
      CHECK_MSG(i < n, "index", "asked for element " << i << " of " << n);
      return spec[i];
    });
  });
  CHECK_EQ(out[n], (u64)0xabcdef, "overrun", "");
  for (u64 i = 0; i < n; ++i) {
    if (i == 0) CHECK_EQ(out[0], (u64)0, "first", "");
    else CHECK_MSG(out[i] >= out[i - 1] + spec[i - 1].second, "overlap", "element " << i << " of " << n << " starts at " << out[i] << ", the one before at " << out[i - 1] << " has " << spec[i - 1].second << " bytes");
    if (spec[i].first) CHECK_MSG(out[i] % spec[i].first == 0, "alignment", "element " << i << " of " << n << " at " << out[i] << " alignment " << spec[i].first);
    total += spec[i].second;
  }
  if (n) CHECK_MSG(res >= out[n - 1] + spec[n - 1].second, "total", "total " << res << " but the last of " << n << " elements ends at " << out[n - 1] + spec[n - 1].second);
  else CHECK_EQ(res, (u64)0, "total", "");
  CHECK_MSG(res <= total + 8 * n + 8 * 8, "waste", "total " << res << " for " << total << " bytes in " << n << " elements");
  g.nontrivial(n > 1);
}

PBT_TEST(loops, 4) {
  const int threads = g.range(1, 8);
  const u64 nbuf = g.range(0, 12);
  Rng r(g.seed());
  const u64 max_len = g.logsize(1, 2000);
  std::vector<std::vector<u32>> bufs(nbuf);
  const int mode = g.draw(3);
  u64 total = 0;
  for (auto &b : bufs) { b.resize(mode == 0 ? r.below(3) : mode == 1 ? (r.chance(1, 3) ? r.below(max_len + 1) : 0) : r.below(max_len + 1)); for (auto &x : b) x = total++; }
  const i64 from = g.draw(1000), n = length(g);
  g.note("buffers=" + std::to_string(nbuf) + " elements=" + std::to_string(total) + " n=" + std::to_string(n) + " threads=" + std::to_string(threads));
  tbb::task_arena arena(threads);
  arena.execute([&] {
    std::vector<std::atomic<int>> seen(total), seen2(total);
    std::atomic<u64> wrong{0};
    parallel::chunked_for(bufs, [&](u32 &x) { ++seen[x]; });
    parallel::chunked_for(bufs, [&](u32 &x, int chunk) { ++seen2[x]; const auto &b = bufs[chunk]; if (&x < b.data() || &x >= b.data() + b.size()) ++wrong; });
    for (u64 i = 0; i < total; ++i) { CHECK_EQ(seen[i].load(), 1, "chunked-for", "element " << i); CHECK_EQ(seen2[i].load(), 1, "chunked-for-id", "element " << i); }
    CHECK_EQ(wrong.load(), (u64)0, "chunk-id", "");
    auto det = [&](auto lo, auto hi) {
      using I = decltype(lo);
      std::vector<std::atomic<int>> hit(hi - lo);
      std::array<std::atomic<int>, 64> cpus{};
      std::vector<std::pair<I, I>> r1(64), r2(64);
      const int p = parallel::deterministic_for<I>(lo, hi, [&](const I a, const I b, const int cpu) { ++cpus[cpu]; r1[cpu] = {a, b}; for (I i = a; i < b; ++i) ++hit[i - lo]; });
      const int p2 = parallel::deterministic_for<I>(lo, hi, [&](const I a, const I b, const int cpu) { r2[cpu] = {a, b}; });
      CHECK_EQ(p, p2, "deterministic-for-cpus", "");
      CHECK_MSG(r1 == r2, "deterministic-for-ranges", "ranges differ between two runs");
      for (u64 i = 0; i < hit.size(); ++i) CHECK_EQ(hit[i].load(), 1, "deterministic-for", "index " << i << " of " << hit.size());
      for (int c = 0; c < 64; ++c) CHECK_EQ(cpus[c].load(), c < p ? 1 : 0, "deterministic-for-cpu", "cpu " << c << " of " << p);
      for (int c = 1; c < p; ++c) CHECK_EQ(r1[c].first, r1[c - 1].second, "deterministic-for-order", "cpu " << c);
    };
    det((u32)from, (u32)(from + n));
    det((u64)from, (u64)(from + n));
    parallel::vector_ets<i64> ets(5);
    tbb::parallel_for<u64>(0, n, [&](u64 i) { ets.local()[i % 5] += i; });
    const auto sums = ets.combine(std::plus<i64>{});
    if (n) {
      for (u64 k = 0; k < 5; ++k) { i64 want = 0; for (i64 i = k; i < n; i += 5) want += i; CHECK_EQ(sums[k], want, "vector-ets", "slot " << k); }
    }
  });
  g.nontrivial(total + n > 1);
}

// Atomics: every operation against the plain value, then concurrent increments
template <typename T> void atomics(Gen &g) {
  parallel::Atomic<T> a;
  CHECK_EQ(a.load(), (T)0, "initial", "");
  T x = (T)g.draw(100);
  a = x;
  const u64 ops = g.logsize(1, 60);
  std::string trace;
  for (u64 i = 0; i < ops; ++i) {
    const T y = (T)g.draw(50);
    const int op = g.draw(19);
    trace = "operation " + std::to_string(op) + " with " + std::to_string(y);
    T got{}, want{};
    switch (op) {
    case 0: a.store(y); x = y; break;
    case 1: got = a.exchange(y); want = x; x = y; break;
    case 2: got = a.fetch_add(y); want = x; x += y; break;
    case 3: got = a.fetch_sub(y); want = x; x -= y; break;
    case 4: got = a.fetch_and(y); want = x; x &= y; break;
    case 5: got = a.fetch_or(y); want = x; x |= y; break;
    case 6: got = a.fetch_xor(y); want = x; x ^= y; break;
    case 7: got = ++a; want = ++x; break;
    case 8: got = a++; want = x++; break;
    case 9: got = --a; want = --x; break;
    case 10: got = a--; want = x--; break;
    case 11: got = a += y; want = x += y; break;
    case 12: got = a -= y; want = x -= y; break;
    case 13: got = a &= y; want = x &= y; break;
    case 14: got = a |= y; want = x |= y; break;
    case 15: got = a ^= y; want = x ^= y; break;
    case 16: { T e = g.flip() ? x : (T)(x + 1); const T e0 = e; const bool ok = a.compare_exchange_strong(e, y); CHECK_EQ(ok, e0 == x, "cas", trace); CHECK_EQ(e, x, "cas-expected", trace); if (ok) x = y; break; }
    case 17: { T e = (T)(x + 1); const bool ok = a.compare_exchange_weak(e, y); CHECK_EQ(ok, false, "cas-weak", trace); e = x; while (!a.compare_exchange_weak(e, y)); x = y; break; }
    case 18: { parallel::Atomic<T> b(a), c(std::move(b)); b = c; CHECK_EQ((T)b, x, "copy", ""); a = std::move(b); break; }
    }
    CHECK_EQ(got, want, "result", trace);
    CHECK_EQ(a.load(), x, "value", trace);
    CHECK_EQ((T)a, x, "conversion", trace);
  }
  g.nontrivial(ops > 1);
}
PBT_TEST(atomics, 3) { switch (g.draw(3)) { case 0: atomics<u32>(g); break; case 1: atomics<i64>(g); break; default: atomics<u64>(g); } }
PBT_TEST(atomics_concurrent, 1) {
  const int threads = g.range(2, 8);
  const u64 per = g.logsize(1, 2000);
  parallel::Atomic<u64> inc, add, cas;
  std::vector<std::thread> ts;
  std::vector<std::atomic<int>> tickets(threads * per);
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      for (u64 i = 0; i < per; ++i) {
        ++tickets[inc++];
        add += t;
        u64 e = cas;
        while (!cas.compare_exchange_weak(e, e + 1)) {}
      }
    });
  for (auto &t : ts) t.join();
  CHECK_EQ(inc.load(), threads * per, "increment", "");
  CHECK_EQ(add.load(), per * threads * (threads - 1) / 2, "add", "");
  CHECK_EQ(cas.load(), threads * per, "cas", "");
  for (auto &x : tickets) CHECK_EQ(x.load(), 1, "ticket", "");
  g.nontrivial(true);
}

// Values spread over all bit lengths, with powers of two and their neighbours
template <typename T> T wide(Gen &g, int max_bits = std::numeric_limits<T>::digits) {
  const int b = g.range(0, max_bits - 1);
  const T p = (T)1 << b;
  switch (g.draw(4)) {
  case 0: return p;
  case 1: return p - 1;
  case 2: return p | 1;
  default: return p | (T)(mix(g.seed()) & (p - 1));
  }
}
template <typename T> void integers(Gen &g) {
  constexpr int W = std::numeric_limits<T>::digits;
  const T x = wide<T>(g);
  g.note(std::to_string(x));
  const bool pow2 = x && std::popcount(x) == 1;
  const int fl = x ? std::bit_width(x) - 1 : -1;
  CHECK_EQ(math::is_power_of_2(x), pow2, "is-power-of-2", x);
  CHECK_EQ(math::is_msb_set(x), fl == W - 1, "msb", x);
  CHECK_EQ((u64)math::byte_width(x), (u64)(x ? fl / 8 + 1 : 1), "byte-width", x);
  CHECK_EQ(degree_bucket<T>(x), fl + 1, "degree-bucket", x);
  if (x) {
    CHECK_EQ((int)math::floor_log2(x), fl, "floor-log2", x);
    CHECK_EQ((int)math::ceil_log2(x), pow2 ? fl : fl + 1, "ceil-log2", x);
    CHECK_EQ(math::floor2(x), std::bit_floor(x), "floor2", x);
    if (pow2 || fl < W - 1) CHECK_EQ(math::ceil2(x), std::bit_ceil(x), "ceil2", x);
    const int bucket = degree_bucket<T>(x);
    const T low = lowest_degree_in_bucket<T>(bucket);
    CHECK_EQ(low, std::bit_floor(x), "lowest-degree", "bucket " << bucket << " of degree " << x);
    CHECK_EQ(degree_bucket<T>(low), bucket, "lowest-degree-bucket", bucket);
    CHECK_MSG(bucket < kNumberOfDegreeBuckets<T>, "number-of-buckets", bucket);
    const T y = std::max<T>(1, wide<T>(g));
    CHECK_EQ(math::div_ceil(x, y), (T)(((__uint128_t)x + y - 1) / y), "div-ceil", x << "/" << y);
    const T m = math::mod_ceil(x, y);
    CHECK_EQ(m, (T)(x % y ? x % y : y), "mod-ceil", x << "%" << y);
    CHECK_EQ((u64)math::abs_diff(x, y), (u64)(x > y ? x - y : y - x), "abs-diff", x << "," << y);
    const T c = wide<T>(g, 20) + 1;
    const auto [row, col] = math::decode_grid_position<T>(x, c);
    CHECK_EQ(math::encode_grid_position<T>(row, col, c), x, "grid", x << " columns " << c);
    CHECK_MSG(col < c, "grid-column", col);
  }
  CHECK_EQ((T)lowest_degree_in_bucket<T>(0), (T)0, "lowest-degree", "bucket 0");
  const int bits = g.range(0, W);
  CHECK_EQ(math::create_mask<T>(bits), (T)(bits == W ? ~(T)0 : ((T)1 << bits) - 1), "mask", bits << " bits");
  const T root = wide<T>(g, W / 2);
  CHECK_EQ(math::is_square<T>(root * root), true, "is-square", root << "^2");
  if (root > 1 && x < (T)1 << 20) { const T q = (T)std::llround(std::floor(std::sqrt((double)x))); CHECK_EQ(math::is_square(x), (T)(q * q) == x, "is-square", x); }
  // halving: sums up, differs by at most one, larger part first
  const T half = W == 64 ? wide<T>(g, 52) : x;
  const auto [a, b] = math::split_integral(half);
  CHECK_EQ((T)(a + b), half, "split-sum", half);
  CHECK_MSG(a >= b && a - b <= 1, "split-halves", half << " into " << a << " and " << b);
  g.nontrivial(x > 1);
}
PBT_TEST(integers, 8) { g.flip() ? integers<u32>(g) : integers<u64>(g); }
PBT_TEST(integer_casts, 1) {
  const i64 s = g.flip() ? (i64)wide<u64>(g) : -(i64)wide<u64>(g, 62);
  const u64 u = wide<u64>(g);
  CHECK_EQ((in_range<i32>(s)), s >= INT32_MIN && s <= INT32_MAX, "range", s);
  CHECK_EQ((in_range<u32>(s)), s >= 0 && s <= (i64)UINT32_MAX, "range", s);
  CHECK_EQ((in_range<u64>(s)), s >= 0, "range", s);
  CHECK_EQ((in_range<u32>(u)), u <= UINT32_MAX, "range", u);
  CHECK_EQ((in_range<i64>(u)), u <= (u64)INT64_MAX, "range", u);
  const i64 t = g.flip() ? s / 2 : -(s / 2);
  CHECK_EQ((u64)math::abs(t), (u64)(t < 0 ? -t : t), "abs", t);
  g.nontrivial(true);
}

// Splitting n elements over PEs: ranges cover [0, n) in order, sizes differ by at most one, ranks invert ranges
template <typename T> void ranges_of(Gen &g) {
  const T size = g.range(1, 40);
  const bool huge = g.chance(1, 3);
  const T n = huge ? wide<T>(g, std::numeric_limits<T>::digits - 7) : (T)g.logsize(0, 3000);
  g.note("n=" + std::to_string(n) + " size=" + std::to_string(size));
  T at = 0;
  std::vector<T> dist{0};
  for (T r = 0; r < size; ++r) {
    const auto [from, to] = math::compute_local_range<T>(n, size, r);
    CHECK_EQ(from, at, "range-start", "rank " << r);
    CHECK_MSG(to >= from && (to - from == n / size || to - from == n / size + 1), "range-size", "rank " << r << ": " << from << ".." << to);
    at = to;
    dist.push_back(to);
    for (T e : {from, (T)(from + (to - from) / 2), (T)(to - 1)})
      if (e >= from && e < to) {
        CHECK_EQ((u64)math::compute_local_range_rank<T>(n, size, e), (u64)r, "rank", "element " << e);
        CHECK_EQ((u64)math::find_in_distribution<T>(e, dist), (u64)r, "find-in-distribution", "element " << e);
      }
  }
  CHECK_EQ(at, n, "range-end", "");
  // Uneven distributions with empty parts
  std::vector<u64> d{0};
  Rng rng(g.seed());
  const u64 parts = g.range(1, 12);
  for (u64 i = 0; i < parts; ++i) d.push_back(d.back() + (rng.chance(1, 3) ? 0 : rng.below(6)));
  for (u64 p = 0; p < parts; ++p)
    for (u64 e = d[p]; e < d[p + 1]; ++e) CHECK_EQ((u64)math::find_in_distribution<u64>(e, d), p, "find-uneven", "element " << e);
  // Round robin over square-divisible sizes is a permutation in the announced order
  const T s = g.range(1, 6), c = g.range(1, 6), rn = s * s * c;
  std::vector<int> seen(rn, 0);
  for (T e = 0; e < rn; ++e) {
    const T p = math::distribute_round_robin<T>(rn, s, e);
    CHECK_MSG(p < rn, "round-robin", p << " of " << rn);
    CHECK_EQ(seen[p]++, 0, "round-robin-twice", p);
  }
  g.nontrivial(n > 1 && size > 1);
}
PBT_TEST(local_ranges, 4) { g.flip() ? ranges_of<u32>(g) : ranges_of<u64>(g); }

PBT_TEST(statistics, 1) {
  const u64 n = g.logsize(1, 300);
  auto v = values<i64>(g, n, -100, 100);
  const auto [mn, mean, mx] = math::find_min_mean_max(v);
  CHECK_EQ(mn, *std::min_element(v.begin(), v.end()), "min", "");
  CHECK_EQ(mx, *std::max_element(v.begin(), v.end()), "max", "");
  double sum = 0;
  for (auto x : v) sum += x;
  CHECK_MSG(std::abs(mean - sum / n) < 1e-9, "mean", mean << " instead of " << sum / n);
  std::sort(v.begin(), v.end());
  const u64 rank = g.range(1, n); // the smallest p with rank(p) = rank
  const double p = (rank - 0.5) / n;
  CHECK_MSG(math::percentile(v, p) == (double)v[rank - 1], "percentile", "p " << p << " of " << n);
  CHECK_MSG(math::percentile(v, 1.0) == (double)v[n - 1], "percentile-max", "");
  g.nontrivial(n > 1);
}

PBT_TEST(random_numbers, 2) {
  const int seed = g.draw(1000);
  Random::reseed(seed);
  CHECK_EQ(Random::get_seed(), seed, "seed", "");
  Random &r = Random::instance();
  const u64 lo = g.draw(1000), hi = lo + 1 + g.logsize(0, 1000);
  std::vector<u64> first;
  std::vector<u32> perm(g.logsize(1, 300));
  std::iota(perm.begin(), perm.end(), 0);
  auto draw_all = [&] {
    std::vector<u64> out;
    for (int i = 0; i < 50; ++i) {
      const u64 x = r.random_index(lo, hi);
      CHECK_MSG(x >= lo && x < hi, "index", x << " not in [" << lo << "," << hi << ")");
      out.push_back(x);
      out.push_back(r.random_bool());
      out.push_back(r.random_bool(0.3));
      CHECK_EQ(r.random_bool(1.0), true, "certain", "");
    }
    auto p = perm;
    r.shuffle(p);
    auto s = p;
    std::sort(s.begin(), s.end());
    CHECK_MSG(s == perm, "shuffle", "not a permutation");
    out.insert(out.end(), p.begin(), p.end());
    RandomPermutations<u16, 16, 8> perms(r);
    for (int i = 0; i < 10; ++i) { auto q = perms.get(r); for (auto x : q) out.push_back(x); std::sort(q.begin(), q.end()); for (int j = 0; j < 16; ++j) CHECK_EQ((int)q[j], j, "permutation", ""); }
    return out;
  };
  first = draw_all();
  Random::reseed(seed);
  CHECK_MSG(draw_all() == first, "reproducible", "different numbers after re-seeding");
  g.nontrivial(perm.size() > 1);
}

PBT_TEST(strings, 1) {
  auto word = [&](const char *alphabet, u64 max) { std::string s; const u64 n = g.draw(max + 1), a = strlen(alphabet); for (u64 i = 0; i < n; ++i) s += alphabet[g.draw(a)]; return s; };
  // explode and implode
  std::vector<std::string> parts;
  const u64 n = g.range(1, 6);
  for (u64 i = 0; i < n; ++i) parts.push_back(word("abc ", 4));
  const std::string joined = str::implode(parts, ",");
  std::vector<std::string> want = parts;
  if (want.back().empty()) want.pop_back(); // as getline: nothing behind the last separator
  CHECK_MSG(str::explode(joined, ',') == want, "explode", "'" << joined << "'");
  // trim
  const std::string core = "x" + word("ab \t", 5) + "y", l = word(" \t\n", 3), r = word(" \t\n", 3);
  std::string t = l + core + r;
  CHECK_EQ(str::trim(t), core, "trim", "");
  t = l + core + r;
  CHECK_EQ(str::ltrim(t), core + r, "ltrim", "");
  t = l + core + r;
  CHECK_EQ(str::rtrim(t), l + core, "rtrim", "");
  t = l;
  CHECK_EQ(str::trim(t), std::string(), "trim-blank", "");
  // suffixes and names
  const std::string a = word("ab.", 6), b = word("ab.", 6);
  CHECK_EQ(str::ends_with(a + b, b), true, "ends-with", a << "|" << b);
  CHECK_EQ(str::ends_with(a, b), a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0, "ends-with", a << "|" << b);
  const std::string dir = g.flip() ? "" : word("ab./", 5) + "/", base = "n" + word("ab", 3), ext = g.flip() ? "" : "." + word("gm", 3);
  CHECK_EQ(str::extract_basename(dir + base + ext), base, "basename", dir + base + ext);
  CHECK_EQ(str::extract_basename(dir + base + ext, true), base + ext, "basename-ext", dir + base + ext);
  CHECK_EQ(str::to_lower("AbC" + a), "abc" + a, "lower", "");
  // replacement
  std::string s = word("abc", 8), s2 = s;
  const std::string from = "a" + word("b", 1), to = word("abx", 3);
  std::string ref;
  for (std::size_t i = 0; i < s.size();) { if (s.compare(i, from.size(), from) == 0) { ref += to; i += from.size(); } else ref += s[i++]; }
  CHECK_EQ(str::replace_all(s2, from, to), ref, "replace", s << ": " << from << " -> " << to);
  g.nontrivial(n > 1);
}
PBT_MAIN()
