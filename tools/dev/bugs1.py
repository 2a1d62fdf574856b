import sys; sys.path.insert(0, '/verif/tools/dev')
from mkbug import mkbug
mkbug('e01-full-width', 'E01', 'BitsReference.hpp', ('''    BitsConstReference(const BitsReference<Sequence>& x) : seg_(x.seg_), offset_(x.offset_), bits_per_element_(x.bits_per_element_), mask_(x.mask_) {}
    
    operator value_type() const {
        if (bits_per_element_ + offset_ <= kBitsPerWord) {''','''    BitsConstReference(const BitsReference<Sequence>& x) : seg_(x.seg_), offset_(x.offset_), bits_per_element_(x.bits_per_element_), mask_(x.mask_) {}
    
    operator value_type() const {
        if (bits_per_element_ + offset_ < kBitsPerWord) {'''),
'''#include <cassert>
#include <iostream>
#include "sim_ds/FitVector.hpp"
int main() { for (size_t w = 1; w <= 64; w++) { sim_ds::FitVector v(w, 200); for (size_t i = 0; i < 200; i++) v[i] = i & ((w < 64 ? 1ull << w : 0) - 1);
  const sim_ds::FitVector &c = v; for (size_t i = 0; i < 199; i++) if (c[i] != (i & ((w < 64 ? 1ull << w : 0) - 1))) return 1; } return 0; }''', 'elements of exactly 64 bits read through a constant vector', 'the value read is mixed with the next element')
mkbug('r01-rare-symbol', 'R01', 'MultiBitVector.hpp', ("for (size_t i = 0, size = bits_.size() * kBitsInType / kBitsUnitSize; i < size; i++)", "for (size_t i = 0, size = (bits_.size() - 1) * kBitsInType / kBitsUnitSize + 1; i < size; i++)"),
'''#include <cassert>
#include <cmath>
#include "sim_ds/MultiBitVector.hpp"
int main() { sim_ds::MultiBitVector<2> v; for (size_t i = 0; i < 60; i++) v.set(i, i == 40 || i == 50 ? 3 : 1); v.build(); // symbol 3 appears only late
  return v.rank(50) == 1 && v.rank(59) == 57 ? 0 : 1; }''', 'the largest symbol occurs only in the last word, not at its first position', 'no counters are built for that symbol and rank reads an empty table')
mkbug('b02-inverse', 'B02', 'BijectiveHash.hpp', ("16557351571215ULL, 2405769031715ULL, 2365335938745ULL", "16557351571215ULL, 2405769031715ULL, 2365335938775ULL"),
'''#include "sim_ds/BijectiveHash.hpp"
int main() { for (unsigned w = 1; w <= 64; w++) { sim_ds::SplitMixHash h(w); uint64_t m = w < 64 ? (1ull << w) - 1 : ~0ull;
  for (uint64_t k = 0; k < 1000; k++) { uint64_t x = (k * 0x9e3779b97f4a7c15ull) & m; if (h.ihash(h.hash(x)) != x || h.hash(x) > m) return 1; } } return 0; }''',
 'keys of exactly 44 bits', 'the inverse hash is wrong, so rehashing a table of such keys loses its keys')
mkbug('e02-fill', 'E02', 'BitVector.hpp', ("*back.seg_ &= end.ctz_ > 0 ? mask_fill << end.ctz_ : _word_type(0);", "*back.seg_ &= mask_fill << end.ctz_;"),
'''#include "sim_ds/BitVector.hpp"
int main() { sim_ds::BitVector v(256, true); v.fill(v.begin() + 10, v.begin() + 192, false); for (size_t i = 0; i < 256; i++) if (v[i] != (i < 10 || i >= 192)) return 1; return 0; }''',
 'clearing a range of several words that ends exactly at a word boundary', 'the last word of the range is not cleared')
mkbug('e03-back', 'E03', 'BitReference.hpp', ("seg_ += static_cast<difference_type>(difference - kBitsPerWord + ctz_ + 1)", "seg_ += static_cast<difference_type>(difference - kBitsPerWord + ctz_)"),
'''#include "sim_ds/BitVector.hpp"
int main() { sim_ds::BitVector v(300); for (size_t i = 0; i <= 300; i++) for (size_t j = 0; j <= i; j++) { auto it = v.begin() + i; it -= i - j; if (it != v.begin() + j) return 1; } return 0; }''',
 'moving an iterator backwards to the first bit of a word', 'the iterator lands one word too early')
