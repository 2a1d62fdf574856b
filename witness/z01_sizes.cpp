// The reported size of a container is the number of bytes of its serialised form, whatever was done to it before.
#include "zoo.h"
static const char *const kSize = "the reported size is the number of bytes written";
template <class C> static void sized(const C &c) { void *s = sds_stream(); auto &os = *reinterpret_cast<std::ostream *>(s); if constexpr (std::is_same_v<C, MultipleVector>) c.StoreTo(os); else c.Write(os); sds_check_eq(c.size_in_bytes(), sds_stream_left(s), kSize); }
SDS_WITNESS(W_size_bits, "0-3,31-33,62-66,127-129,255-257,511-513;0-3")(uint64_t n, uint64_t how) {
  BitVector v(n, true); if (how == 1) v.resize(n / 2); else if (how == 2) { v.push_back(sds_bool()); v.reserve(n + 300); } else if (how == 3) { v.resize(n + 65); v.shrink_to_fit(); }
  sized(v); sized(SuccinctBitVector<false>(v)); sized(SuccinctBitVector<true>(v)); BitVector w(v); sized(w); BitVector x(std::move(w)); sized(x);
} SDS_END
SDS_WITNESS(W_size_fit, "0-64;0-3,63-65;0-2")(uint64_t w, uint64_t n, uint64_t how) { FitVector v(w, n); if (how == 1) v.resize(n / 2); else if (how == 2) { v.push_back(0); v.reserve(n + 9); } sized(v); FitVector c(v); sized(c); } SDS_END
SDS_WITNESS(W_size_rows, "0-5,40;0-4;0-1")(uint64_t n, uint64_t shape, uint64_t how) {
  MultipleVector v; if (shape == 0) v = MultipleVector({1, 2, 4}); else if (shape == 1) v = MultipleVector({8}); else if (shape == 2) v = MultipleVector({3, 1, 1, 5}); else if (shape == 3) v = MultipleVector({1, 1});
  if (shape < 4) { v.resize(n); if (how) v.emplace_back(); } sized(v);
} SDS_END
SDS_WITNESS(W_size_symbols, "1-3;0-3,20-22,31-33,64,65,300")(uint64_t w, uint64_t n) {
  auto go = [&](auto &v, uint64_t top) { for (uint64_t i = 0; i < n; i++) v.set(i, i % 7 == 3 ? sds_bits(w) : i % (top + 1)); if (n) v.build(); sized(v); };
  if (w == 1) { MultiBitVector<1> v; go(v, 1); } else if (w == 2) { MultiBitVector<2> v; go(v, 3); } else { MultiBitVector<3> v; go(v, 7); }
} SDS_END
SDS_WITNESS(W_size_dac, "0-4,9,70;0-3")(uint64_t n, uint64_t shape) {
  std::vector<uint64_t> s; for (uint64_t i = 0; i < n; i++) s.push_back(shape == 0 ? ~0ull >> (i % 60) : shape == 1 ? 5 : shape == 2 ? (i % 4 == 3 ? 1ull << 40 : 16 + sds_bits(4)) : 0);
  sized(DacVector(s)); if (shape == 1) sized(DacVector(s, std::vector<int>{1, 1, 1})); sized(DacVector());
} SDS_END
SDS_WITNESS(W_size_tree, "0-4,70;1-4,8")(uint64_t n, uint64_t h) { std::vector<uint8_t> s; for (uint64_t i = 0; i < n; i++) s.push_back((uint8_t)(i == 0 ? 1u << (h - 1) : i * 37 & ((1u << h) - 1))); sized(WaveletTree(s)); sized(WaveletTree()); } SDS_END
SDS_WITNESS(W_size_words, "0-3;0-2")(uint64_t k, uint64_t ty) { auto w = zooWords(k); if (ty == 0) { sized(Samc<uint32_t>(w.begin(), w.end())); sized(Samc<uint32_t>()); } else if (ty == 1) sized(Samc<uint8_t>(w.begin(), w.end())); else { sized(SamcDict<uint32_t>(w.begin(), w.end())); sized(SamcDict<uint32_t>()); } } SDS_END
// reading back into another object restores the reported size
SDS_WITNESS(W_size_read, "0-7;0-2;0-2")(uint64_t what, uint64_t k, uint64_t j) {
  auto go = [&](auto z) { using Z = decltype(z); using C = typename Z::C; auto c = z.make(k, j); void *s = sds_stream(); c.Write(*reinterpret_cast<std::ostream *>(s)); Z y; C r = y.make(2 - k, j); r.Read(*reinterpret_cast<std::istream *>(s)); sds_check_eq(r.size_in_bytes(), c.size_in_bytes(), "a restored container reports the same size"); z.change(c); sized(c); sized(r); };
  switch (what) { case 0: go(ZBits()); break; case 1: go(ZRank<false>()); break; case 2: go(ZRank<true>()); break; case 3: go(ZSymbols()); break; case 4: go(ZDac()); break; case 5: go(ZTree()); break; case 6: go(ZAccept()); break; default: go(ZDict()); }
} SDS_END
