// hash and ihash are inverse bijections of the keys of each width.
#include "sds.h"
#include "sim_ds/BijectiveHash.hpp"
using namespace sim_ds;
static uint64_t key(uint64_t w) { return w ? sds_bits(w) : 0; }
SDS_WITNESS(W_xorshift, "1-64")(uint64_t w) {
  Xorshift h(w); uint64_t x = key(w);
  sds_check_eq(h.ihash<0>(h.hash<0>(x)), x, "Xorshift: ihash undoes hash"); sds_check_eq(h.hash<0>(h.ihash<0>(x)), x, "Xorshift: hash undoes ihash");
  sds_check_eq(h.ihash<1>(h.hash<1>(x)), x, "Xorshift: ihash undoes hash"); sds_check_eq(h.ihash<2>(h.hash<2>(x)), x, "Xorshift: ihash undoes hash");
} SDS_END
SDS_WITNESS(W_multiply, "1-64")(uint64_t w) {
  MultiplyHash h(w); uint64_t x = key(w);
  sds_check_eq(h.ihash<0>(h.hash<0>(x)), x, "MultiplyHash<0>: ihash undoes hash"); sds_check_eq(h.hash<0>(h.ihash<0>(x)), x, "MultiplyHash<0>: hash undoes ihash");
  sds_check_eq(h.ihash<1>(h.hash<1>(x)), x, "MultiplyHash<1>: ihash undoes hash"); sds_check_eq(h.hash<1>(h.ihash<1>(x)), x, "MultiplyHash<1>: hash undoes ihash");
  sds_check_eq(h.ihash<2>(h.hash<2>(x)), x, "MultiplyHash<2>: ihash undoes hash"); sds_check_eq(h.hash<2>(h.ihash<2>(x)), x, "MultiplyHash<2>: hash undoes ihash");
  uint64_t y = h.hash<1>(x); if (w < 64) sds_check(y >> w == 0, "MultiplyHash stays within the key width");
} SDS_END
SDS_WITNESS(W_splitmix, "1-64")(uint64_t w) {
  SplitMixHash h(w); uint64_t x = key(w);
  uint64_t y = h.hash(x); if (w < 64) sds_check(y >> w == 0, "SplitMixHash::hash stays within the key width");
  sds_check_eq(h.ihash(y), x, "SplitMixHash: ihash undoes hash");
} SDS_END
SDS_WITNESS(W_splitmix_inv, "1-64")(uint64_t w) {
  SplitMixHash h(w); uint64_t x = key(w);
  uint64_t y = h.ihash(x); if (w < 64) sds_check(y >> w == 0, "SplitMixHash::ihash stays within the key width");
  sds_check_eq(h.hash(y), x, "SplitMixHash: hash undoes ihash");
} SDS_END
SDS_WITNESS(W_default, "")() {
  uint64_t x = sds_u64(); SplitMixHash h; sds_check_eq(h.ihash(h.hash(x)), x, "default SplitMixHash: ihash undoes hash");
  MultiplyHash m; sds_check_eq(m.ihash<0>(m.hash<0>(x)), x, "default MultiplyHash: ihash undoes hash");
  Xorshift s; sds_check_eq(s.ihash<0>(s.hash<0>(x)), x, "default Xorshift: ihash undoes hash");
} SDS_END
