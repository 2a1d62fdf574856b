// Every public class template and member of the headers, instantiated for the types they are made for.
#include "zoo.h"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/bit_util.hpp"
#include "sim_ds/bit_util256.hpp"
#include "sim_ds/calc.hpp"
#include "sim_ds/log.hpp"
#include "sim_ds/sort.hpp"
namespace sim_ds {
template class SuccinctBitVector<true>; template class SuccinctBitVector<false>;
template class Heap<true>; template class Heap<false>;
template class MultiBitVector<1>; template class MultiBitVector<2>; template class MultiBitVector<3>;
template class CHT<1>; template class CHT<8>; template class CHT<17>; template class CHT<33>; template class CHT<64>;
template class Samc<uint8_t>; template class Samc<uint16_t>; template class Samc<uint32_t>; template class Samc<size_t>; template class Samc<uint32_t, true>;
template class SamcDict<uint8_t>; template class SamcDict<uint32_t>; template class SamcDict<size_t>;
template class InitializableArrayFolklore<uint8_t>; template class InitializableArrayFolklore<int>; template class InitializableArrayFolklore<uint64_t>; template class InitializableArrayFolklore<double>;
template class graph_util::Trie<int>; template class graph_util::Trie<uint64_t>; template class graph_util::Trie<std::string>; template class graph_util::Trie<int, uint32_t>;
template class IndexConstIterator<DacVector>;
}
using namespace sim_ds;
template <class It> static void iterator(It a, It b) { auto n = b - a; ++a; a++; --a; a--; a += 1; a -= 1; It c = a + 1; c = c - 1; (void)(a == b); (void)(a != b); (void)(a < b); (void)(a > b); (void)(a <= b); (void)(a >= b); (void)*a; (void)a[0]; (void)n; std::vector<uint64_t> v(a, b); (void)std::find(a, b, 1); }
void h01_iterators() {
  BitVector b(9); const BitVector &cb = b; iterator(b.begin(), b.end()); iterator(cb.begin(), cb.end()); b.fill(b.begin(), b.end(), true); b.front() = true; b.back() = cb.front(); b.at(1) = cb.at(2); b.resize(3, true); b.reserve(9); b.shrink_to_fit(); b.push_back(true); b.data(); cb.data();
  FitVector f(3, 9); const FitVector &cf = f; iterator(f.begin(), f.end()); iterator(cf.begin(), cf.end()); f.front() = 1; f.back() = (uint64_t)cf.front(); f.at(1) = (uint64_t)cf.at(2); f.resize(12, 4); f.assign(4, 2); f.push_back(3); f.reserve(30);
  DacVector d(std::vector<int>{1, 2, 3}); { auto i = d.begin(), j = d.end(); ++i; --i; i += 1; i -= 1; (void)(i == j); (void)(i != j); (void)(i < j); (void)(j - i); (void)*(i + 1); (void)i[0]; } DacVector e(std::vector<uint16_t>{5}); DacVector g(std::vector<uint8_t>{5}, std::vector<uint8_t>{8}); DacVector h(std::vector<uint64_t>{5}, std::vector<size_t>{3}); h.ShowStatus(sink()); d.depth(0); d.at(0);
  InitializableArray<uint32_t, 9> a(3); InitializableArray<uint8_t, 40> a8(3); InitializableArray<uint64_t, 5> a64(1); const auto &ca = a; for (auto x : a) (void)(uint32_t)x; for (auto x : ca) (void)(uint32_t)x; a[0] = 2; a8[1] = 3; a64[2] = 4; a.begin(); a.cend(); a.init(9); a8.init(1); a64.init(2);
}
void h01_calls() {
  std::vector<int> v{3, 1, 2}; HeapSort(v.begin(), v.end()); HeapSort(v.begin(), v.end(), [](int l, int r) { return l > r; }); std::array<double, 3> w{1, 2, 3}; HeapSort(w.begin(), w.end()); std::vector<std::string> s{"b", "a"}; HeapSort(s.begin(), s.end());
  Heap<true> h(v); Heap<false> g(v.begin(), v.end()); MinHeap m; MaxHeap n; m.push(1); n.push(2);
  std::vector<size_t> r; calc::bit_length_frequencies(v, &r); r.clear(); calc::cummulative_frequency_list(v, &r); r.clear(); calc::split_positions_optimized_for_dac(v, &r); calc::split_positions_optimized_for_dac(std::vector<uint8_t>{1}, &r, 4); calc::SizeFitsAsList(9, std::vector<size_t>{1, 2, 4}); calc::size_fits<7>(900); calc::additional_bit_size_of_rank(9);
  ShowAsBinary(5); ShowAsBinary<uint8_t>(5); ShowAsBinary(5ull, 2); millisec_time_in_process([] {}); microsec_time_in_process([] {}); recursive([](auto rec, int n) -> void { if (n) rec(rec, n - 1); })(3); Stopwatch sw; sw.get_sec(); sw.get_milli_sec(); sw.get_micro_sec();
  std::vector<std::string> k{"a", "b"}; Samc<uint32_t> t(k.begin(), k.end()); SamcDict<uint32_t> q(k.begin(), k.end()); std::array<const char *, 2> kk{"a", "b"}; std::vector<std::string> ks(kk.begin(), kk.end()); Samc<uint8_t> t8(ks.cbegin(), ks.cend());
  SplitMixHash x(20); x.hash(3); x.ihash(3); MultiplyHash y(20); y.hash<0>(1); y.hash<1>(1); y.ihash<2>(1); Xorshift z; 
  bit_util::popcnt<uint8_t>(1); bit_util::popcnt<uint16_t>(1); bit_util::popcnt<uint32_t>(1); bit_util::popcnt<uint64_t>(1); bit_util::cnt<uint64_t>(1, 1); bit_util::WidthMask(3); bit_util::OffsetMask(3); (void)bit_util::width_mask<7>; (void)bit_util::offset_mask<7>; bit_util::sel(7, 1); bit_util::ctz(uint32_t(1)); bit_util::ctz(uint64_t(1)); bit_util::clz(uint32_t(1)); bit_util::clz(uint64_t(1)); bit_util::bextr(7, 1, 2);
  bit_util::popcnt11(1); bit_util::popcnt10(1); bit_util::popcnt111(1); bit_util::popcnt110(1); bit_util::popcnt101(1); bit_util::popcnt100(1); bit_util::swap_pi1(1); bit_util::swap_pi2(1); bit_util::swap_pi4(1); bit_util::swap_pi8(1); bit_util::swap_pi16(1); bit_util::swap_pi32(1); bit_util::popcnt8(1); bit_util::popcnt16(1); bit_util::popcnt32(1); bit_util::popcnt64(1);
  alignas(32) uint64_t p[4] = {1, 2, 3, 4}, o[4]; bit_util::set256_epi1(true, p); bit_util::copy256_epi64(p, o); bit_util::is_zero256(p); bit_util::popcnt256(p); bit_util::ctz256(p); bit_util::clz256(p); bit_util::xor_map(p, 3, o);
  using namespace pattern_matching; std::string_view a("abab"), b("ab"); PatternMatchSimple(a, b); PatternMatchKMP(a, b); PatternMatchBM(a, b); PatternMatchBOM(a, b); PatternMatchTurboBOM(a, b); PatternMatchSundayQS(a, b); PatternMatchSundayMS(a, b); Simple(b).find_all(a); Kmp(b).find_all(a); Bm(b).find_all(a); Bom(b).find_all(a); TurboBom(b).find_all(a); SundayQS(b).find_all(a); SundayMS(b).find_all(a);
  MultipleVector mv({1, 2, 4}); mv.resize(3); mv.block(1).set<0>(1); mv.block(1).get<1>(); mv.push_back({1, 2, 3}); mv.emplace_back();
}
template <class Z> static void all() { Z z; typename Z::C c = z.make(1, 0); z.ask(c); z.change(c); typename Z::C d(c), e(std::move(d)); d = e; e = std::move(d); std::swap(d, e); }
void h01_zoo() {
#define ONE(...) all<__VA_ARGS__>();
  ZOO(ONE)
}
