// The words of a bit vector are where data() says: aligned to 32 bytes, bit i in word i/64 at i%64, through every way a vector can come about.
#include "zoo.h"
static const char *const kAligned = "the words of a bit vector start at a multiple of 32 bytes", *const kWord = "element i is bit i%64 of word i/64";
static void words(const BitVector &c, const bool *v) {
  sds_check(sds_aligned(c.data(), 32), kAligned); sds_check(sds_aligned(const_cast<BitVector &>(c).data(), 32), kAligned); sds_check(const_cast<BitVector &>(c).data() == c.data(), kWord);
  for (uint64_t i = 0; i < c.size(); i++) { if (v) sds_check((c.data()[i / 64] >> (i % 64) & 1) == v[i], kWord); else sds_check((c.data()[i / 64] >> (i % 64) & 1) == (uint64_t)(bool)c[i], kWord); }
}
SDS_WITNESS(W_words_made, "1,63-65,127-129,255-257,511-513,1000;0-9")(uint64_t n, uint64_t how) {
  bool v[1000]; BitVector c(n); for (uint64_t i = 0; i < n; i++) { v[i] = i % 11 == 0 ? sds_bool() : i * 5 % 3 == 1; c[i] = v[i]; }
  if (how == 0) words(c, v);
  else if (how == 1) { BitVector d(c); words(d, v); words(c, v); }
  else if (how == 2) { BitVector d(std::move(c)); words(d, v); }
  else if (how == 3) { BitVector d(7, true); d = c; words(d, v); BitVector e(2000); e = c; words(e, v); }
  else if (how == 4) { BitVector d(7, true); d = std::move(c); words(d, v); }
  else if (how == 5) { BitVector d; for (uint64_t i = 0; i < n && i < 300; i++) { d.push_back(v[i]); if (i % 64 < 2) words(d, v); } words(d, v); }
  else if (how == 6) { c.resize(n + 700, true); words(c, nullptr); c.resize(n / 2); words(c, v); c.shrink_to_fit(); words(c, v); c.reserve(5000); words(c, v); c.resize(2000); words(c, nullptr); }
  else if (how == 7) { std::vector<bool> s(v, v + n); BitVector d(s); words(d, v); }
  else if (how == 8) { BitVector d; d.assign(n, true); words(d, nullptr); d.assign(n + 100, false); words(d, nullptr); std::swap(c, d); words(d, v); words(c, nullptr); }
  else { BitVector d(n, true); words(d, nullptr); }
} SDS_END
SDS_WITNESS(W_words_rank, "1,64,255-257,600;0,1")(uint64_t n, uint64_t s) {
  BitVector c(n); for (uint64_t i = 0; i < n; i++) c[i] = i % 11 == 0 ? sds_bool() : i * 5 % 3 == 1;
  auto ask = [&](auto &r) { const uint64_t *p = r.data(); sds_check(sds_aligned(p, 32), kAligned); for (uint64_t i = 0; i < n; i++) sds_check((p[i / 64] >> (i % 64) & 1) == (uint64_t)(bool)r[i], kWord); };
  if (s) { SuccinctBitVector<true> r(c); ask(r); auto q = r; ask(q); SuccinctBitVector<true> m(std::move(r)); ask(m); } else { SuccinctBitVector<false> r(std::move(c)); ask(r); auto q = r; ask(q); }
} SDS_END
