import sys; sys.path.insert(0, '/verif/tools/dev')
from mkbug import mkbug
H = '#include <cassert>\n#include <cmath>\n#include <iostream>\n#include <sstream>\n#include <queue>\n#include <map>\n#include <set>\n#include <random>\n#include <cstring>\n'
mkbug('s01-reread', 'S01', 'DacVector.hpp', ("        layers_.resize(0);\n        paths_.resize(0);\n", "        layers_.clear();\n"), H + '''
#include "sim_ds/DacVector.hpp"
int main() { std::vector<size_t> a, b; for (size_t i = 0; i < 300; i++) a.push_back(i % 3 ? i : i << 20), b.push_back(i % 2 ? i * 7 : i << 30);
  sim_ds::DacVector x(a, std::vector<size_t>{4, 20, 30}), y(b, std::vector<size_t>{5, 20, 30}); std::stringstream s; y.Write(s); x.Read(s);
  for (size_t i = 0; i < 300; i++) if (x[i] != b[i]) return 1; return 0; }''', 'Read into an object that already holds a sequence', 'the old paths stay in front of the ones read, so values are assembled along wrong paths')
mkbug('a01-fit-at', 'A01', 'FitVector.hpp', ("    const_reference at(size_t index) const {\n        if (index >= size())", "    const_reference at(size_t index) const {\n        if (index * bits_per_element_ >= storage_.size() * kBitsPerWord)"), H + '''
#include "sim_ds/FitVector.hpp"
int main() { sim_ds::FitVector v(5, 20); const auto &c = v; for (size_t i = 0; i < 100; i++) { bool t = false; try { (void)uint64_t(c.at(i)); } catch (const std::out_of_range &) { t = true; } if (t != (i >= 20)) return 1; } return 0; }''',
 'constant access between the size and the end of the last word', 'no exception is thrown')
mkbug('q01-dac-hint', 'Q01', 'DacVector.hpp', [("    std::vector<layer_type> layers_;\n", "    std::vector<layer_type> layers_;\n    mutable size_t last_index_ = size_t(-1);\n    mutable value_type last_value_ = 0;\n"),
 ("    value_type value = layers_[0][index];\n", "    if (index == last_index_)\n        return last_value_;\n    value_type value = layers_[0][index];\n"), ("        value |= unit << shift_bits;\n    }\n    return value;", "        value |= unit << shift_bits;\n    }\n    last_value_ = value;\n    last_index_ = index;\n    return value;"),
 ("        layers_unit_bits_.resize(0);\n        layers_.resize(0);", "        last_index_ = size_t(-1);\n        layers_unit_bits_.resize(0);\n        layers_.resize(0);")], H + '''
#include <sys/mman.h>
#include "sim_ds/DacVector.hpp"
int main() { void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return 0;
  std::vector<size_t> a; for (size_t i = 0; i < 100; i++) a.push_back(i * i * i); auto *d = new (p) sim_ds::DacVector(a); mprotect(p, 4096, PROT_READ); // a query of a constant object must not write it
  for (size_t i = 0; i < 100; i++) if ((*static_cast<const sim_ds::DacVector *>(d))[i] != a[i]) return 1; return 0; }''', 'two threads reading one constant sequence, or an object in read-only memory', 'element access writes a cache in the object, so concurrent readers race and can get the value of another index')
mkbug('r02-narrow-tips', 'R02', 'SuccinctBitVector.hpp', ("std::vector<uint32_t> select_tips_;", "std::vector<uint16_t> select_tips_;"), H + '''
#include "sim_ds/SuccinctBitVector.hpp"
int main() { size_t n = 512 * 70000; sim_ds::BitVector b(n, false); for (size_t i = 0; i < n; i += 3) b[i] = true; sim_ds::SuccinctBitVector<true> s(b);
  for (size_t k = 0; k * 3 < n; k += 9973) if (s.select(k) != 3 * k) return 1; return s.select((n - 1) / 3) == (n - 1) / 3 * 3 ? 0 : 1; }''', 'more than 2^16 blocks, that is 33 million bits', 'block numbers are truncated, so select starts in the wrong block')
mkbug('w01-first-symbol', 'W01', 'WaveletTree.hpp', ("            value |= bit << (height_ - 1 - depth);\n            idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);\n            id = (id << 1) | bit;\n        }\n        \n        return {value, idx};", "            value |= bit << (height_ - 1 - depth);\n            if (size_t next = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx); next < idx / 2 and depth + 2 == height_)\n                idx = next, depth++, value |= bv_list_[id * 2 + bit - 1][idx], idx = bit ? bv_list_[id * 2 + bit - 1].rank_1(idx) : bv_list_[id * 2 + bit - 1].rank_0(idx);\n            else\n                idx = next;\n            id = (id << 1) | bit;\n        }\n        \n        return {value, idx};"), H + '''
#include "sim_ds/WaveletTree.hpp"
int main() { std::mt19937 g(1); std::vector<uint8_t> v; for (int i = 0; i < 2000; i++) v.push_back(g() % 7 ? g() % 5 : g() % 200); sim_ds::WaveletTree t(v); std::map<int, size_t> n;
  for (size_t i = 0; i < v.size(); i++) { auto [c, r] = t.AccessAndRank(i); if (c != v[i] or r != n[v[i]]++) return 1; } return 0; }''', 'a symbol whose second to last node turns mostly the other way', 'the last level is resolved in the wrong direction, so the rank is that of the sibling symbol')
mkbug('d01-wide-layer', 'D01', 'DacVector.hpp', ("        value_type unit = layers_[depth][i];\n        value |= unit << shift_bits;", "        uint32_t unit = layers_[depth][i];\n        value |= value_type(unit) << shift_bits;"), H + '''
#include "sim_ds/DacVector.hpp"
int main() { std::vector<size_t> a; for (size_t i = 0; i < 500; i++) a.push_back(i % 50 ? i % 8 : 0xfedcba9876543210ull + i); sim_ds::DacVector x(a), y(a, std::vector<size_t>{8, 56});
  for (size_t i = 0; i < 500; i++) if (x[i] != a[i] or y[i] != a[i]) return 1; return 0; }''', 'a second or later layer of more than 32 bits, as the optimiser makes for few huge values among small ones', 'the high bits of the value are lost')
mkbug('g01-narrow', 'G01', 'Heap.hpp', ("        return Ascending ? l < r : l > r;", "        auto diff = static_cast<long long>(l - r);\n        return Ascending ? diff < 0 : diff > 0;"), H + '''
#include "sim_ds/Heap.hpp"
int main() { std::vector<uint64_t> v{5, 0xffffffffffffffffull, 3, 1ull << 63, 9, 0x7fffffffffffffffull}; sim_ds::MinHeap h(v.begin(), v.end()); std::sort(v.begin(), v.end());
  for (auto x : v) { if (h.front() != x) return 1; h.pop(); } return 0; }''', 'keys more than 2^63 apart', 'the comparison wraps around and the front is not the extreme key')
mkbug('p01-period', 'P01', 'string_util/PatternMatching.hpp', ("            matchies.push_back(i + 1 - kWindowSize);\n            i++;", "            matchies.push_back(i + 1 - kWindowSize);\n            i += (kWindowSize + 1) / 2;"), H + '''
#include "sim_ds/string_util/PatternMatching.hpp"
int main() { using namespace sim_ds::pattern_matching; for (size_t n = 1; n < 12; n++) { std::string t(20, 'a'), k(n, 'a'); if (PatternMatchBOM(t, k) != PatternMatchSimple(t, k)) return 1; } return 0; }''', 'a key with a period below half its length', 'overlapping occurrences are skipped')
mkbug('x01-lcp-end', 'X01', 'string_util/SuffixArray.hpp', ("while (std::max(li, ri) < str_.size() && str_[li] == str_[ri])", "while (std::max(li, ri) + 1 < str_.size() && str_[li] == str_[ri])"), H + '''
#include "sim_ds/string_util/SuffixArray.hpp"
int main() { std::string t = "abracadabra"; std::cout.setstate(std::ios::failbit); sim_ds::SuffixArray a(t); std::stringstream s, l; a.WriteSA(s); a.WriteLCP(l); sim_ds::FitVector sa(s), lcp(l);
  for (size_t i = 0; i + 1 < t.size(); i++) { auto x = t.substr(sa[i]), y = t.substr(sa[i + 1]); size_t n = 0; while (n < x.size() and n < y.size() and x[n] == y[n]) n++; if (lcp[i] != n) return 1; } return 0; }''', 'a suffix that is a prefix of its successor', 'its common prefix is reported one short')
mkbug('m01-range', 'M01', 'string_util/Samc.hpp', ("  if (not in_range(terminal, depth+1) or\n      _base::check(terminal) != _base::kLeafChar) {", "  if (terminal >= _base::storage_.size() or\n      _base::check(terminal) != _base::kLeafChar) {"), H + '''
#include "sim_ds/string_util/Samc.hpp"
int main() { std::mt19937 g(9); for (int r = 0; r < 3000; r++) { std::set<std::string> k; for (int i = 0; i < 12; i++) { std::string s; for (int n = g() % 4 + 1; n--;) s += char('a' + g() % 4); k.insert(s); }
  std::vector<std::string> v(k.begin(), k.end()); sim_ds::SamcDict<uint16_t> d(v.begin(), v.end()); std::vector<std::string> all{""};
  for (size_t i = 0; i < all.size() && all[i].size() < 4; i++) for (char c = 'a'; c < 'e'; c++) all.push_back(all[i] + c);
  for (auto &s : all) if ((d.lookup(s) != size_t(-1)) != (k.count(s) > 0)) return 1; } return 0; }''', 'a key that is a proper prefix of others and whose terminal slot falls on a leaf of another depth', 'strings that are not keys are found and share the number of a key')
mkbug('u01-pointer', 'U01', 'string_util/graph_util.hpp', ("        return &storage_[terminal.item_index()];", "        return &storage_.back();"), H + '''
#include "sim_ds/string_util/graph_util.hpp"
int main() { sim_ds::graph_util::Trie<int> t; t.insert("abc", 1); t.insert("abd", 2); int *p = t.insert("abc", 3); *p += 10; return *t.traverse("abc") == 13 and *t.traverse("abd") == 2 ? 0 : 1; }''', 'inserting a key again and using the returned pointer', 'the pointer refers to the item of the last new key')
mkbug('c01-revive', 'C01', 'CHT.hpp', ("                        arr_[i] = arr_[i] & ~kDeletedMask;\n                        size_++;", "                        arr_[i] = arr_[i] & ~kDeletedMask;"), H + '''
#include "sim_ds/CHT.hpp"
int main() { sim_ds::CHT<16> t(30); for (int i = 0; i < 20; i++) t.set(i, i); for (int r = 0; r < 12; r++) { t.erase(3); t.set(3, r); } if (t.size() != 20 or t.get(3) != std::pair<bool, uint64_t>(true, 11)) return 1; return 0; }''', 'a key is erased and inserted again before the table grows', 'the size is not counted up again')
mkbug('c02-resize', 'C02', 'CDRWArray.hpp', ("        if (new_size > cap_) {\n            _allocate(std::max(new_size, cap_*2));", "        if (new_size > cap_ + 1) {\n            _allocate(std::max(new_size, cap_*2));"), H + '''
#include "sim_ds/CDRWArray.hpp"
int main() { for (size_t n = 1; n < 40; n++) { sim_ds::CDRWVector v(n); for (size_t i = 0; i < n; i++) v.set(i, i * i); v.resize(n + 1); if (v.capacity() < v.size()) return 1; v.set(n, 77); for (size_t i = 0; i < n; i++) if (v.get(i) != i * i) return 1; if (v.get(n) != 77) return 1; } return 0; }''', 'resize by exactly one at full capacity', 'the new element lies outside the storage')
mkbug('z01-empty-tips', 'Z01', 'MultiBitVector.hpp', ("        for (auto &tips : rank_tips_)\n            size += size_vec(tips);", "        for (auto &tips : rank_tips_)\n            if (!tips.empty())\n                size += size_vec(tips);"), H + '''
#include "sim_ds/MultiBitVector.hpp"
int main() { sim_ds::MultiBitVector<2> v; for (size_t i = 0; i < 100; i++) v.set(i, i % 3); v.build(); std::stringstream s; v.Write(s); return s.str().size() == v.size_in_bytes() ? 0 : 1; }''', 'a symbol that does not occur', 'the length words of its empty counters are not counted, so a buffer of the reported size is too small')
mkbug('h01-inline', 'H01', 'calc.hpp', ("inline size_t additional_bit_size_of_rank(double n) {", "size_t additional_bit_size_of_rank(double n) {"), '', 'two source files that include the header', 'the program does not link: a function is defined twice')
mkbug('o01-init', 'O01', 'InitializableArray.hpp', ("        init_v_ = init_v;\n        t_.clear();", "        init_v_ = init_v;\n        t_.clear();\n        t_.shrink_to_fit();\n        for (auto &f : fv_) f.first = fv_.size();"), H + '''
#include <chrono>
#include "sim_ds/InitializableArray.hpp"
int main() { auto cost = [](size_t n) { sim_ds::InitializableArrayFolklore<int> a(n); double best = 1e9; for (int r = 0; r < 9; r++) { auto t = std::chrono::steady_clock::now(); for (int i = 0; i < 3; i++) { a.set(i, i); a.init(i); if (a.get(n - 1) != i) return -1.0; } best = std::min(best, std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count()); } return best; };
  double s = cost(100), l = cost(8000000); if (s < 0 or l < 0) return 2; return l < s * 50 + 1e-4 ? 0 : 1; }''', 'large arrays that are reset often', 'a reset visits every element instead of taking constant time')
mkbug('v01-cached-words', 'V01', 'SuccinctBitVector.hpp', [("    std::vector<uint32_t> select_tips_;\n", "    std::vector<uint32_t> select_tips_;\n    const uint64_t* words_ = nullptr;\n"), ("    basic_block_.resize(basic_block_size * 2);\n    \n    const auto* data = bits_.data();", "    basic_block_.resize(basic_block_size * 2);\n    \n    const auto* data = bits_.data();\n    words_ = data;"),
  ("        bits_.Read(is);\n", "        bits_.Read(is);\n        words_ = bits_.data();\n"), ("    size_t ret = left*512 + offset*64;\n    auto bits = bits_.data()[ret/64];", "    size_t ret = left*512 + offset*64;\n    auto bits = words_[ret/64];")], H + '''
#include "sim_ds/SuccinctBitVector.hpp"
int main() { sim_ds::BitVector b(2000, false), z(2000, false); for (size_t i = 0; i < 2000; i += 7) b[i] = true; auto *p = new sim_ds::SuccinctBitVector<true>(b); sim_ds::SuccinctBitVector<true> q(*p); sim_ds::SuccinctBitVector<true> &o = *p; o = sim_ds::SuccinctBitVector<true>(z); std::vector<std::vector<uint64_t>> junk; for (int i = 0; i < 50; i++) junk.emplace_back(32, 0x123456789);
  for (size_t k = 0; k * 7 < 2000; k++) if (q.select(k) != 7 * k) return 1; return 0; }''', 'a copy queried after its original was assigned to or destroyed', 'select reads the storage of the original')
mkbug('t01-signed', 'T01', 'string_util/FactorOracle.hpp', ("    bool image(size_t& state, uint8_t c) const {", "    bool image(size_t& state, char c) const {"), H + '''
#include "sim_ds/string_util/FactorOracle.hpp"
int main() { std::mt19937 g(5); for (int r = 0; r < 50; r++) { std::string t; for (int i = 0; i < 60; i++) t += char(0xff - g() % (2 + r % 24)); sim_ds::FactorOracle o(t);
  for (size_t i = 0; i < t.size(); i++) for (size_t n = 1; i + n <= t.size(); n++) if (!o.accept(std::string_view(t).substr(i, n))) return 1; } return 0; }''', 'texts with bytes above 0x7F', 'factors with such bytes are rejected and the tables are read out of bounds')

open('/verif/seeded/h01-inline/demo.cpp', 'w').write('#include "sim_ds/calc.hpp"\nsize_t other();\nint main() { return sim_ds::calc::SizeFitsInBits(300) == other() ? 0 : 1; }\n')
open('/verif/seeded/h01-inline/other.cpp', 'w').write('#include "sim_ds/calc.hpp"\nsize_t other() { return sim_ds::calc::SizeFitsInBits(300); }\n')
open('/verif/seeded/h01-inline/demo.sh', 'w').write('''#!/bin/bash
# run in the repository's root after the build; exit 0 when two source files can include the header
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 2
g++ -std=c++17 -O1 -w -Iinclude "$D/demo.cpp" "$D/other.cpp" -o "$W/demo" && "$W/demo"; r=$?
rm -rf "$W"; exit $r
''')
