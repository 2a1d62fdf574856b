// Queries do not modify the object they are asked of, anything it owns, or any process-wide state.
#include "zoo.h"
template <class Z> static void query(uint64_t k, uint64_t j, uint64_t cp) { using C = typename Z::C; Z z; C &c = *fresh(z, k, j); if (cp == 2) z.change(c); sds_freeze(&c); if constexpr (std::is_same_v<Z, ZTrie>) z.frozen(c); else z.ask(c); sds_thaw(); }
SDS_WITNESS(W_query, "0-18;0-2;0-1;0,2|0-18;0-2;0-3;0,2")(uint64_t what, uint64_t k, uint64_t j, uint64_t ch) {
  uint64_t i = 0;
#define ONE(...) if (what == i++) { query<__VA_ARGS__>(k, j, ch); return; }
  ZOO(ONE)
  sds_stop();
} SDS_END
// the matchers: asking one for all occurrences changes neither the matcher nor the key nor the text
template <class M> static void matching(const char *key, uint64_t kn, uint64_t tn) {
  char k[4], t[6]; for (uint64_t i = 0; i < kn; i++) k[i] = key[i]; for (uint64_t i = 0; i < tn; i++) t[i] = sds_bool() ? 'a' : 'b';
  M *m = new M(std::string_view(k, kn)); std::vector<size_t> a, b;
  sds_freeze(m); { auto x = m->find_all(std::string_view(t, tn)); auto y = m->find_all(std::string_view(t, tn)); sds_check(x.size() == y.size(), "a repeated query gives the same answer"); } sds_thaw();
}
SDS_WITNESS(W_query_match, "0-6;0-3;0,5|0-6;0-3;0-6")(uint64_t what, uint64_t key, uint64_t n) {
  using namespace pattern_matching; static const char *const keys[4] = {"", "a", "ab", "aba"};
  if (what == 0) matching<Simple>(keys[key], key, n); else if (what == 1) matching<Kmp>(keys[key], key, n); else if (what == 2) matching<Bm>(keys[key], key, n); else if (what == 3) matching<Bom>(keys[key], key, n);
  else if (what == 4) matching<TurboBom>(keys[key], key, n); else if (what == 5) matching<SundayQS>(keys[key], key, n); else matching<SundayMS>(keys[key], key, n);
} SDS_END
// free functions and hash functions keep no state
SDS_WITNESS(W_query_free, "0-3")(uint64_t what) {
  if (what == 0) { SplitMixHash h(40); uint64_t x = sds_bits(40); sds_freeze(&h); h.hash(x); h.ihash(x); sds_thaw(); }
  else if (what == 1) { uint64_t x = sds_bits(64); sds_freeze(&x); bit_util::popcnt(x); bit_util::ctz(x | 1); bit_util::clz(x | 1); bit_util::sel(x | 7, 2); calc::SizeFitsInBits(x); calc::SizeFitsInBytes(x); sds_thaw(); }
  else if (what == 2) { char t[4] = {'a', 'b', 'a', 'b'}; sds_freeze(t); pattern_matching::PatternMatchKMP(std::string_view(t, 4), "ab"); pattern_matching::PatternMatchTurboBOM(std::string_view(t, 4), "ab"); pattern_matching::PatternMatchSundayMS(std::string_view(t, 4), "ab"); sds_thaw(); }
  else { std::vector<uint64_t> v{1, 70, 9000}; sds_freeze(&v); std::vector<size_t> o; calc::cummulative_frequency_list(v, &o); o.clear(); calc::split_positions_optimized_for_dac(v, &o); sds_thaw(); }
} SDS_END
