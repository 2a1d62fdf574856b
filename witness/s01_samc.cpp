// Serialisation of the string dictionaries: what is written is what is read back, into any object, consuming exactly the bytes written.
#include "sds.h"
#include "rbtree.h"
#include <algorithm>
#include <array>
#include <limits>
#include <queue>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "sim_ds/string_util/Samc.hpp"
SDS_HEAP_LIMIT(1048576)
using namespace sim_ds;
static const uint64_t kMark = 0x5D5D123456789ABCull;
static std::vector<std::string> keys(uint64_t kind) {
  std::vector<std::string> r;
  if (kind == 1) r = {""}; else if (kind == 2) r = {"a"}; else if (kind == 3) r = {"", "a", "ab", "b"}; else if (kind == 4) r = {"aa", "ab", "ba", "bb", "\xFF"};
  else if (kind == 5) for (uint64_t i = 0; i < 30; i++) { std::string s; s.push_back((char)(i * 3 + 1)); if (i % 2) s.push_back((char)(i + 40)); r.push_back(s); }
  std::sort(r.begin(), r.end()); return r;
}
template <class D> static D make(uint64_t kind) { if (kind == 0) return D(); auto k = keys(kind); return D(k.begin(), k.end()); }
template <class D, class A> static void roundtrip(uint64_t kind, uint64_t state, uint64_t qlen, A answer) {
  void *p = sds_stream(); auto &os = *reinterpret_cast<std::ostream *>(p); auto &is = *reinterpret_cast<std::istream *>(p);
  const D d = make<D>(kind); write_val(kMark, os); d.Write(os); write_val(~kMark, os); d.Write(os);
  sds_check(read_val<uint64_t>(is) == kMark, "the bytes before a dictionary stay");
  for (uint64_t t = 0; t < 2; t++) {
    D r = make<D>(state); r.Read(is);
    if (t == 0) sds_check(read_val<uint64_t>(is) == ~kMark, "reading a dictionary consumes exactly the bytes written for it"); else sds_check_eq(sds_stream_left(p), 0, "reading a dictionary consumes all bytes written for it");
    char q[4]; for (uint64_t i = 0; i < qlen; i++) q[i] = (char)sds_bits(8);
    answer(d, r, std::string_view(q, qlen)); for (auto &k : keys(kind)) answer(d, r, std::string_view(k)); sds_check_eq(r.size_in_bytes(), d.size_in_bytes(), "the tables are restored");
    // a restored dictionary can be written again
    void *q2 = sds_stream(); r.Write(*reinterpret_cast<std::ostream *>(q2)); D s; s.Read(*reinterpret_cast<std::istream *>(q2)); sds_check_eq(sds_stream_left(q2), 0, "reading a dictionary consumes all bytes written for it"); for (auto &k : keys(kind)) answer(d, s, std::string_view(k));
  }
}
SDS_WITNESS(W_samc_io, "0-5;0-5;0-2;0,1|0-5;0-5;0-3;0,1")(uint64_t kind, uint64_t state, uint64_t qlen, uint64_t ty) {
  auto a = [](const auto &d, const auto &r, std::string_view q) { sds_check(d.accept(q) == r.accept(q), "the restored set accepts the same strings"); };
  if (ty) roundtrip<Samc<uint8_t>>(kind % 5, state % 5, qlen, a); else roundtrip<Samc<uint32_t>>(kind, state, qlen, a);
} SDS_END
SDS_WITNESS(W_dict_io, "0-5;0-5;0-2|0-5;0-5;0-3")(uint64_t kind, uint64_t state, uint64_t qlen) {
  uint64_t n = kind ? keys(kind).size() : 0;
  roundtrip<SamcDict<uint32_t>>(kind, state, qlen, [&](const auto &d, const auto &r, std::string_view q) { sds_check(d.lookup(q) == r.lookup(q), "the restored dictionary gives the same numbers"); });
  void *p = sds_stream(); auto d = make<SamcDict<uint32_t>>(kind); d.Write(*reinterpret_cast<std::ostream *>(p)); auto r = make<SamcDict<uint32_t>>(state); r.Read(*reinterpret_cast<std::istream *>(p));
  for (uint64_t i = 0; i < n; i++) sds_check(r.access(i) == d.access(i), "the restored dictionary gives the same keys");
} SDS_END
