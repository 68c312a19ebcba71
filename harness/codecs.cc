// K07: every variable-length codec reads back what it wrote, in the announced number of bytes.
#include "pbt.h"
#include "kaminpar-common/graph_compression/streamvbyte.h"
#include "kaminpar-common/graph_compression/varint.h"

using namespace pbt;
using namespace kaminpar;
using streamvbyte::DifferentialCodingKind;

// a value of random bit width, often at a boundary
template <typename Int> Int gen_value(Gen &g) {
  constexpr int bits = sizeof(Int) * 8;
  const int w = g.draw(bits + 1);
  if (w == 0) return 0;
  const Int lo = (Int)1 << (w - 1);
  switch (g.draw(4)) {
  case 0: return lo;
  case 1: return lo - 1 + lo; // all ones
  case 2: return lo | (w > 1 ? (Int)g.draw(0) & (lo - 1) : 0);
  default: return lo + (Int)std::min<u64>(g.draw(3), lo - 1);
  }
}

struct Buffer {
  std::vector<std::uint8_t> mem;
  std::size_t room;
  Buffer(std::size_t room, u64 seed) : mem(room + 64), room(room) {
    Rng r(seed);
    for (auto &b : mem) b = r.next();
    snapshot = mem;
  }
  std::uint8_t *p() { return mem.data() + 16; }
  std::vector<std::uint8_t> snapshot;
  void check(std::size_t used) const {
    CHECK_MSG(std::equal(mem.begin(), mem.begin() + 16, snapshot.begin()), "wrote-before", "bytes in front of the buffer changed");
    CHECK_MSG(std::equal(mem.begin() + 16 + used, mem.end(), snapshot.begin() + 16 + used), "wrote-behind", "bytes behind the announced length " << used << " changed");
  }
};

struct Item {
  int kind; // 0-1 plain, 2-3 marked, 4-5 signed
  bool wide, marked;
  u64 value;
};
static const char *KIND[] = {"varint(len)", "varint(ptr)", "marked(len)", "marked(ptr)", "signed(len)", "signed(ptr)"};

template <typename Int> std::size_t put(const Item &it, std::uint8_t *p) {
  using S = std::make_signed_t<Int>;
  const Int v = it.value;
  std::uint8_t *q = p;
  std::size_t len = 0, said = 0;
  switch (it.kind) {
  case 0: said = varint_length<Int>(v); len = varint_encode<Int>(v, p); break;
  case 1: said = varint_length<Int>(v); varint_encode<Int>(v, &q); len = q - p; break;
  case 2: said = marked_varint_length<Int>(v); len = marked_varint_encode<Int>(v, it.marked, p); break;
  case 3: said = marked_varint_length<Int>(v); marked_varint_encode<Int>(v, it.marked, &q); len = q - p; break;
  case 4: said = signed_varint_length<S>((S)v); len = signed_varint_encode<S>((S)v, p); break;
  case 5: said = signed_varint_length<S>((S)v); signed_varint_encode<S>((S)v, &q); len = q - p; break;
  }
  CHECK_EQ(len, said, "announced-length", KIND[it.kind] << " of " << v);
  if (it.kind < 2) CHECK_MSG(len <= varint_max_length<Int>(), "max-length", "varint of " << v << " takes " << len);
  if (it.kind < 2 && v < 128) CHECK_EQ(len, 1u, "length", "value " << v);
  return len;
}

template <typename Int> std::size_t get(const Item &it, const std::uint8_t *p, int reader) {
  using S = std::make_signed_t<Int>;
  const std::uint8_t *q = p;
  const Int v = it.value;
  if (it.kind < 2) {
    Int r = reader == 0 ? varint_decode<Int>(&q) : reader == 1 ? varint_decode_loop<Int>(&q) : reader == 2 ? varint_decode_pext_unrolled<Int>(&q) : varint_decode<Int>(p);
    if (reader == 3 && sizeof(Int) == 4) r = varint_decode_pext_branchless<std::uint32_t>(&q);
    else if (reader == 3) (void)varint_decode<Int>(&q);
    CHECK_EQ(r, v, "varint", "reader " << reader);
    CHECK_EQ(varint_decode<Int>(p), v, "varint-value", "");
  } else if (it.kind < 4) {
    const auto [r, m] = marked_varint_decode<Int>(&q);
    CHECK_MSG(r == v && m == it.marked, "marked", "got " << r << "/" << m << " expected " << v << "/" << it.marked);
    const auto [r2, m2] = marked_varint_decode<Int>(p);
    CHECK_MSG(r2 == v && m2 == it.marked, "marked-value", "got " << r2 << "/" << m2);
  } else {
    CHECK_EQ(signed_varint_decode<S>(&q), (S)v, "signed", "");
    CHECK_EQ(signed_varint_decode<S>(p), (S)v, "signed-value", "");
    CHECK_EQ(zigzag_decode(zigzag_encode((S)v)), (S)v, "zigzag", "");
  }
  return q - p;
}

PBT_TEST(varint_stream, 10) {
  const int n = g.range(1, 24);
  std::vector<Item> items;
  for (int i = 0; i < n; ++i) {
    Item it;
    it.kind = g.draw(6);
    it.wide = g.flip();
    it.marked = g.flip();
    it.value = it.wide ? gen_value<u64>(g) : gen_value<std::uint32_t>(g);
    items.push_back(it);
    g.note(std::string(KIND[it.kind]) + (it.wide ? "64:" : "32:") + std::to_string(it.value) + (it.marked ? "m " : " "));
  }
  Buffer b(n * 11, g.seed());
  std::size_t pos = 0;
  std::vector<std::size_t> at;
  for (auto &it : items) {
    at.push_back(pos);
    pos += it.wide ? put<u64>(it, b.p() + pos) : put<std::uint32_t>(it, b.p() + pos);
    b.check(pos);
  }
  for (int rev = 0; rev < 2; ++rev) {
    std::size_t p = 0;
    for (std::size_t i = 0; i < items.size(); ++i) {
      auto &it = items[i];
      const int reader = g.draw(4);
      if (rev) p = at[items.size() - 1 - i];
      const auto &x = rev ? items[items.size() - 1 - i] : it;
      const std::size_t c = x.wide ? get<u64>(x, b.p() + p, reader) : get<std::uint32_t>(x, b.p() + p, reader);
      p += c;
      if (!rev) CHECK_EQ(p, i + 1 < at.size() ? at[i + 1] : pos, "consumed", "item " << i);
    }
  }
  g.nontrivial(n >= 2 && pos > (std::size_t)n);
}

template <typename Int, bool Pairs, DifferentialCodingKind Kind> void svb(Gen &g, const char *name) {
  const bool sorted = Kind == DifferentialCodingKind::DM || g.flip();
  std::size_t n = g.weighted({6, 2, 1}) == 0 ? g.range(0, 12) : g.logsize(0, 300);
  if (Pairs) n = n / 2 * 2;
  std::vector<Int> v;
  if (n <= 12) {
    for (std::size_t i = 0; i < n; ++i) v.push_back(gen_value<Int>(g));
  } else {
    Rng r(g.seed());
    for (std::size_t i = 0; i < n; ++i) v.push_back((Int)(r.next() >> r.below(64)));
  }
  if (sorted) std::sort(v.begin(), v.end());
  g.note(std::string(name) + (sizeof(Int) == 8 ? "/64" : "/32") + (Pairs ? "/pairs" : "") + (sorted ? " sorted" : "") + " n=" + std::to_string(n));
  for (std::size_t i = 0; i < std::min<std::size_t>(n, 20); ++i) g.note(" " + std::to_string(v[i]));
  g.label(name);
  g.nontrivial(n >= 2);
  Buffer b(n * sizeof(Int) + n / 4 + 1, g.seed());
  std::size_t said = 0;
  std::uint8_t *end;
  {
    streamvbyte::StreamVByteEncoder<Int, Kind> enc(n, b.p());
    for (Int x : v) said += enc.add(x);
    end = enc.flush();
  }
  CHECK_EQ((std::size_t)(end - b.p()), said, "announced-length", "flush() against the sum of add()");
  b.check(said);
  CHECK_MSG(said <= n * sizeof(Int) + (n + 3) / 4, "max-length", said << " bytes for " << n << " values");
  // full decode
  std::vector<Int> got;
  {
    streamvbyte::StreamVByteDecoder<Int, Pairs, Kind> dec(n, b.p());
    if constexpr (Pairs) dec.decode([&](Int x, Int y) { got.push_back(x); got.push_back(y); });
    else dec.decode([&](Int x) { got.push_back(x); });
    // the read position is only maintained up to the last complete group (or pair)
    if (n % 4 == 0) CHECK_EQ((std::size_t)(dec.get() - b.p()), said, "consumed", "");
  }
  CHECK_MSG(got == v, "value", "decoded " << got.size() << " values, first difference at " << std::mismatch(got.begin(), got.begin() + std::min(got.size(), v.size()), v.begin()).first - got.begin());
  // stopping early
  const std::size_t stop = g.range(1, std::max<std::size_t>(1, n));
  got.clear();
  {
    streamvbyte::StreamVByteDecoder<Int, Pairs, Kind> dec(n, b.p());
    if constexpr (Pairs) dec.decode([&](Int x, Int y) -> bool { got.push_back(x); got.push_back(y); return got.size() >= stop; });
    else dec.decode([&](Int x) -> bool { got.push_back(x); return got.size() >= stop; });
  }
  const std::size_t want = std::min(n, Pairs ? (stop + 1) / 2 * 2 : stop);
  CHECK_EQ(got.size(), want, "early-stop", "values seen");
  CHECK_MSG(std::equal(got.begin(), got.end(), v.begin()), "early-stop-value", "");
}

PBT_TEST(streamvbyte, 10) {
  using K = DifferentialCodingKind;
  using U = std::uint32_t;
  switch (g.draw(12)) {
  case 0: svb<U, false, K::NONE>(g, "NONE"); break;
  case 1: svb<U, true, K::NONE>(g, "NONE"); break;
  case 2: svb<U, false, K::D1>(g, "D1"); break;
  case 3: svb<U, true, K::D1>(g, "D1"); break;
  case 4: svb<U, false, K::D2>(g, "D2"); break;
  case 5: svb<U, true, K::D2>(g, "D2"); break;
  case 6: svb<U, false, K::DM>(g, "DM"); break;
  case 7: svb<U, true, K::DM>(g, "DM"); break;
  case 8: svb<U, false, K::D4>(g, "D4"); break;
  case 9: svb<U, true, K::D4>(g, "D4"); break;
  default: svb<u64, false, K::NONE>(g, "NONE64"); break;
  }
}

PBT_MAIN()
