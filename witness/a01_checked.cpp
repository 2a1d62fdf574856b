// Checked access: throws std::out_of_range exactly when the index is not below the size.
#include "sds.h"
#include <stdexcept>
#include <vector>
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
using namespace sim_ds;
static const uint64_t kBig = 1ull << 32;
template <class V> static bool threw(V &v, uint64_t i) {
  try { (void)static_cast<uint64_t>(v.at(i)); return false; } catch (const std::out_of_range &) { return true; }
}
template <class V> static bool threwWrite(V &v, uint64_t i, uint64_t x) {
  try { v.at(i) = x; return false; } catch (const std::out_of_range &) { return true; }
}
// kind 0: index = size + d (any d), 1: index = 2^64 - 1 - d, 2: index below the size
static uint64_t pick(uint64_t kind, uint64_t &n, uint64_t p) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig);
  if (kind == 2) { uint64_t i = 64 * a + p; n = i + 1 + 64 * e; return i; }
  n = 64 * (p ? a : a + 1) + p;
  if (kind == 0) return n + sds_int(1ull << 62);
  return ~0ull - sds_int(1ull << 40);
}
SDS_WITNESS(W_at_bit, "0-63;0-2")(uint64_t p, uint64_t kind) {
  uint64_t n, i = pick(kind, n, p);
  BitVector v(n); sds_havoc_sym(); const BitVector &c = v; bool bad = kind != 2;
  sds_check(threw(v, i) == bad, "at() of a bit vector throws exactly for indices not below the size");
  sds_check(threw(c, i) == bad, "const at() of a bit vector throws exactly for indices not below the size");
  sds_check(threwWrite(v, i, 1) == bad, "writing through at() of a bit vector throws exactly for indices not below the size");
  sds_check(v.size() == n, "checked access leaves the size");
} SDS_END
SDS_WITNESS(W_at_bit_step, "0-63;0-2")(uint64_t p, uint64_t add) { // after the size changed by ordinary operations
  BitVector v(p); for (uint64_t i = 0; i < add; i++) v.push_back(sds_bool()); if (add == 2) v.resize(p);
  const BitVector &c = v; uint64_t n = v.size(), i = n + sds_int(1ull << 62);
  sds_check(threw(v, i) && threw(c, i), "at() throws behind the last element after the size changed");
  if (n) sds_check(!threw(v, n - 1) && !threw(c, n - 1) && !threw(v, 0), "at() accepts the first and last element after the size changed");
} SDS_END
SDS_WITNESS(W_at_fit, "0-64;0,1,31,32,63;0-2|0-64;0-63;0-2")(uint64_t w, uint64_t p, uint64_t kind) {
  uint64_t n, i = pick(kind, n, p);
  FitVector v(w, n); sds_havoc_sym(); const FitVector &c = v; bool bad = kind != 2;
  sds_check(threw(v, i) == bad, "at() of a packed integer vector throws exactly for indices not below the size");
  sds_check(threw(c, i) == bad, "const at() of a packed integer vector throws exactly for indices not below the size");
  sds_check(threwWrite(v, i, 0) == bad, "writing through at() of a packed integer vector throws exactly for indices not below the size");
  sds_check(v.size() == n, "checked access leaves the size");
} SDS_END
SDS_WITNESS(W_at_fit_step, "0-64;0-5,63-65;0-2")(uint64_t w, uint64_t p, uint64_t add) {
  FitVector v(w, p); for (uint64_t i = 0; i < add; i++) v.push_back(w ? sds_bits(w) : 0); if (add == 2) v.resize(p);
  const FitVector &c = v; uint64_t n = v.size(), i = n + sds_int(1ull << 62);
  sds_check(threw(v, i) && threw(c, i), "at() throws behind the last element after the size changed");
  if (n) sds_check(!threw(v, n - 1) && !threw(c, n - 1) && !threw(v, 0), "at() accepts the first and last element after the size changed");
} SDS_END
SDS_WITNESS(W_at_dac, "0-4;0-2")(uint64_t n, uint64_t shape) {
  std::vector<uint64_t> src; for (uint64_t i = 0; i < n; i++) src.push_back(shape == 0 ? i : shape == 1 ? (i & 1 ? ~0ull >> i : i) : i * 37);
  const DacVector v(src); bool bad = threw(v, n + sds_int(1ull << 62));
  sds_check(bad, "at() of a variable-length sequence throws for indices not below the size");
  sds_check(threw(v, ~0ull - sds_int(1ull << 40)), "at() of a variable-length sequence throws for huge indices");
  for (uint64_t i = 0; i < n; i++) { sds_check(!threw(v, i), "at() of a variable-length sequence accepts every index below the size"); sds_check_eq(v.at(i), src[i], "at() of a variable-length sequence returns the element"); }
  if (n == 0) { DacVector e; sds_check(threw(e, sds_int(1ull << 62)), "at() of an empty variable-length sequence throws"); }
} SDS_END
SDS_WITNESS(W_at_empty, "0-1")(uint64_t k) {
  uint64_t i = sds_int(~0ull - 1);
  BitVector b; const BitVector &cb = b; FitVector f; const FitVector &cf = f;
  if (k) { b = BitVector(100); b.resize(0); f = FitVector(7, 100); f.resize(0); }
  sds_check(threw(b, i) && threw(cb, i) && threw(f, i) && threw(cf, i), "every index of an empty sequence is out of range");
} SDS_END
