// Requests that cannot be served are refused by an exception and leave the structure as it was.
#include "zoo.h"
static const char *const kRefused = "a request that cannot be served is refused by an exception";
template <class F> static int outcome(F f) { try { f(); return 0; } catch (const std::bad_function_call &) { return 1; } catch (const std::logic_error &) { return 2; } catch (const char *) { return 3; } catch (...) { return 4; } }
// the width of stored values can be chosen only when the type leaves it open and nothing is stored
SDS_WITNESS(W_refused_width, "0-2;1-12")(uint64_t n, uint64_t w) {
  CHT<8> t(9); uint64_t v[3]; for (uint64_t i = 0; i < n; i++) t.set(i * 5, v[i] = sds_bits(8));
  sds_check(outcome([&] { t.set_value_width(w); }) == 1, kRefused); sds_check_eq(t.size(), n, kSame); for (uint64_t i = 0; i < n; i++) { auto r = t.get(i * 5); sds_check(r.first, kSame); sds_check_eq(r.second, v[i], kSame); }
  CHT<0> u(9); sds_check(outcome([&] { u.set_value_width(w); }) == 0, "the width can be chosen while nothing is stored"); for (uint64_t i = 0; i < n; i++) u.set(i * 5, v[i] = sds_bits(w));
  sds_check(outcome([&] { u.set_value_width(w + 1); }) == (n ? 1 : 0), n ? kRefused : "the width can be chosen while nothing is stored"); sds_check_eq(u.size(), n, kSame); for (uint64_t i = 0; i < n; i++) { auto r = u.get(i * 5); sds_check(r.first, kSame); sds_check_eq(r.second, v[i], kSame); }
  for (uint64_t i = 0; i < n; i++) u.erase(i * 5); sds_check(u.size() == 0, kSame);
} SDS_END
// selection needs its dictionary
SDS_WITNESS(W_refused_select, "0,1,64,130;0-2")(uint64_t n, uint64_t i) {
  BitVector b(n); bool v[130]; for (uint64_t j = 0; j < n; j++) { v[j] = j % 9 ? j % 2 : sds_bool(); b[j] = v[j]; } SuccinctBitVector<false> s(b); sds_check(outcome([&] { (void)s.select(i); }) != 0, kRefused);
  uint64_t r = 0; for (uint64_t j = 0; j <= n; j++) { if (j % 7 == 0 || j == n) sds_check_eq(s.rank(j), r, kSame); if (j < n) { sds_check(s[j] == v[j], kSame); r += v[j]; } }
} SDS_END
// an explorer that belongs to no list has no edges to visit; the old way to build from a trie is closed
SDS_WITNESS(W_refused_build, "0-2")(uint64_t k) {
  using It = std::vector<std::string>::const_iterator; if (k == 0) { string_array_explorer<It> e; uint64_t n = 0; sds_check(outcome([&] { e.for_each_edge([&](char, auto) { n++; }); }) == 2, kRefused); sds_check(n == 0, kRefused); }
  else { graph_util::Trie<int> t; t.insert("a", 1); if (k == 1) sds_check(outcome([&] { Samc<uint32_t> s(t); (void)s; }) == 2, kRefused); else sds_check(outcome([&] { SamcDict<uint32_t> s(t); (void)s; }) == 2, kRefused); auto *p = t.traverse(std::string("a")); sds_check(p != nullptr && *p == 1, kSame); }
} SDS_END
// a refused checked access writes nothing
SDS_WITNESS(W_refused_access, "0-3,64;0-2")(uint64_t n, uint64_t k) {
  if (k == 0) { BitVector b(n); bool v[64]; for (uint64_t j = 0; j < n; j++) { v[j] = sds_bool(); b[j] = v[j]; } uint64_t i = n + sds_int(1ull << 62); sds_check(outcome([&] { b.at(i) = sds_bool(); }) == 2, kRefused); sds_check(b.size() == n, kSame); for (uint64_t j = 0; j < n; j++) sds_check(b[j] == v[j], kSame); }
  else if (k == 1) { FitVector b(13, n); uint64_t v[64]; for (uint64_t j = 0; j < n; j++) { v[j] = sds_bits(13); b[j] = v[j]; } uint64_t i = n + sds_int(1ull << 62); sds_check(outcome([&] { b.at(i) = sds_bits(13); }) == 2, kRefused); sds_check(b.size() == n, kSame); for (uint64_t j = 0; j < n; j++) sds_check_eq(b[j], v[j], kSame); }
  else { std::vector<uint64_t> v; for (uint64_t j = 0; j < n; j++) v.push_back((1u << (j % 9 + 5)) + sds_bits(4)); DacVector b(v); uint64_t i = n + sds_int(1ull << 62); sds_check(outcome([&] { (void)b.at(i); }) == 2, kRefused); sds_check(b.size() == n, kSame); for (uint64_t j = 0; j < n; j++) sds_check_eq(b[j], v[j], kSame); }
} SDS_END
