import sys; sys.path.insert(0, '/verif/tools/dev')
from mkbug import mkbug
H = '#include <cassert>\n#include <cmath>\n#include <iostream>\n#include <sstream>\n#include <queue>\n#include <map>\n#include <set>\n#include <random>\n#include <cstring>\n#include <cstdlib>\n#include <new>\n'
COUNT = 'static size_t live = 0;\nvoid *operator new(size_t n) { auto *p = static_cast<size_t *>(std::malloc(n + 16)); *p = n; live += n; return p + 2; }\nvoid operator delete(void *p) noexcept { if (p) { auto *q = static_cast<size_t *>(p) - 2; live -= *q; std::free(q); } }\nvoid operator delete(void *p, size_t) noexcept { operator delete(p); }\n'
mkbug('l01-folklore', 'L01', 'InitializableArray.hpp', ("        if (not _is_chained(index)) {\n            fv_[index].first = t_.size();", "        if (not _is_chained(index) or fv_[index].second != val) { // most recently changed last\n            fv_[index].first = t_.size();"), H + '''
#include "sim_ds/InitializableArray.hpp"
''' + COUNT + '''
int main() { sim_ds::InitializableArrayFolklore<uint64_t> a(100); for (size_t k = 0; k < 1000000; k++) { a.set(k * 7 % 100, k); if (a.get(k * 7 % 100) != k) return 2; } return live > 100 * 64; }''', 'rewriting elements many times without a reset in between', 'the list of written positions grows by one entry with every change, without bound')
mkbug('l01-split-cost', 'L01', 'calc.hpp', ("            auto current_size = s[i] + cf[t] * (i - t) + additional_bit_size_of_rank(cf[t]);", "            auto current_size = s[i] + cf[i] * (i - t) + additional_bit_size_of_rank(cf[i]);"), H + '''
#include "sim_ds/DacVector.hpp"
int main() { std::mt19937_64 g(1); for (int kind = 0; kind < 4; kind++) { std::vector<uint64_t> v; for (size_t i = 0; i < 5000; i++) v.push_back(kind == 0 ? g() % 1000 : kind == 1 ? (g() % 50 ? g() % 16 : g() % 4000) : kind == 2 ? g() % (1u << (1 + g() % 12)) : g() % 3 ? g() % 8 : 2048 + g() % 4); v[7] = 4095;
    sim_ds::DacVector a(v); for (size_t i = 0; i < v.size(); i++) if (a[i] != v[i]) return 2; size_t best = sim_ds::DacVector(v, std::vector<size_t>{12}).size_in_bytes();
    for (size_t x = 1; x < 12; x++) { best = std::min(best, sim_ds::DacVector(v, std::vector<size_t>{x, 12 - x}).size_in_bytes()); for (size_t y = 1; x + y < 12; y++) best = std::min(best, sim_ds::DacVector(v, std::vector<size_t>{x, y, 12 - x - y}).size_in_bytes()); }
    if (a.size_in_bytes() > best * 1.02 + 200) return 1; } return 0; }''', 'data whose cheapest split is decided by the number of integers that end in a layer', 'the automatic layer widths are not the cheapest: the sequence takes more space than with widths chosen by hand, all values still right')
mkbug('j01-align', 'J01', 'BitVector.hpp', ("    using _word_container = aligned_vector<_word_type, 32>;", "    using _word_container = aligned_vector<_word_type, alignof(_word_type)>;"), H + '''
#include "sim_ds/BitVector.hpp"
int main() { std::vector<sim_ds::BitVector> v; for (size_t n = 1; n < 3000; n += 37) { v.emplace_back(n); if (reinterpret_cast<uintptr_t>(v.back().data()) % 32) return 1; sim_ds::BitVector c(v.back()); c.push_back(true); if (reinterpret_cast<uintptr_t>(c.data()) % 32) return 1; } return 0; }''', 'a caller that loads 32 bytes at a time from data()', 'the words are only aligned to eight bytes')
mkbug('n01-const-data', 'N01', 'BitVector.hpp', ("    _const_word_pointer data() const {return _base::storage_.data();}", "    _word_pointer data() const {return const_cast<_word_pointer>(_base::storage_.data());}"), H + '''
#include "sim_ds/BitVector.hpp"
using sim_ds::BitVector;
template <class V> auto scribble(const V &v, int) -> decltype(void(*v.data() = 0), true) { *v.data() = 0; return true; }
template <class V> bool scribble(const V &, long) { return false; }
int main() { BitVector w(100, true); return scribble(w, 0); }''', 'generic code that writes where the type lets it', 'the words of a constant vector can be overwritten through data()')
