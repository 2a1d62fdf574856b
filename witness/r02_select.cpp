// select(k) is the position of the k-th one (from zero).
#include "sds.h"
#include <vector>
#include "sim_ds/SuccinctBitVector.hpp"
using namespace sim_ds;

// every contents of n bits that has a one at p, and k = the number of ones before p (so every k is reached)
SDS_WITNESS(W_select, "1-3,31,63-66,100,128,129,192,511;0-70,95-100,127-130,191-193,254-257,319,320,383,384,447-449,500,510|1-70,96,100,127-130,191-193,255-257,320,384,447-449,500,511;0-70,95-100,127-130,191-193,254-257,319,320,383,384,447-449,500,510")(uint64_t n, uint64_t p) {
  if (p >= n) sds_stop();
  BitVector v(n); uint64_t k = 0;
  for (uint64_t i = 0; i < n; i++) { bool b = i == p ? true : sds_bool(); v[i] = b; if (i < p) k += b; }
  const SuccinctBitVector<true> s(v);
  sds_check_eq(s.select(k), p, "select finds the requested one");
} SDS_END

// longer vectors (several blocks of 512 and several select tips): the word of p and the ends of another word are arbitrary, the rest follows a pattern
SDS_WITNESS(W_select_long, "512,513,640,1024,1025,1600,2112;0,63,64,447,448,511,512,513,575,576,639,640,1000,1023,1024,1087,1088,1500,1535,1536,1599,1600,2000,2047,2048,2111,3000,3071,4000,4095,4096,4159;0-5;0-3|512-514,575-577,640,1023-1025,1088,1535-1537,1600,2048,2049,2112,3072,4160;0,63,64,447,448,511,512,513,575,576,639,640,1000,1023,1024,1087,1088,1500,1535,1536,1599,1600,2000,2047,2048,2111,3000,3071,4000,4095,4096,4159;0-5;0-3")(uint64_t n, uint64_t p, uint64_t pattern, uint64_t far) {
  if (p >= n) sds_stop();
  uint64_t words = n / 64 + (n % 64 != 0), pw = p / 64, ow = far == 0 ? (pw + 1) % words : far == 1 ? (pw + words - 1) % words : far == 2 ? 7 % words : 0;
  BitVector v(n); uint64_t k = 0;
  for (uint64_t i = 0; i < n; i++) {
    uint64_t w = i / 64, o = i % 64;
    bool b = pattern == 0 ? false : pattern == 1 ? true : pattern == 2 ? i % 2 : pattern == 3 ? i < 512 : pattern == 4 ? i >= 512 : i % 512 >= 448;
    if (i == p) b = true; else if (w == pw || (w == ow && (o < 8 || o >= 56))) b = sds_bool();
    v[i] = b; if (i < p) k += b;
  }
  const SuccinctBitVector<true> s(v);
  sds_check_eq(s.select(k), p, "select finds the requested one");
} SDS_END

// every one is found: select never loses or invents an occurrence, and rank inverts it
SDS_WITNESS(W_select_rank, "1-3,63-66,127-129,500;0-3,62-65,126-128,499")(uint64_t n, uint64_t p) {
  if (p >= n) sds_stop();
  BitVector v(n);
  for (uint64_t i = 0; i < n; i++) v[i] = i == p ? true : sds_bool();
  const SuccinctBitVector<true> s(v);
  sds_check_eq(s.select(s.rank(p)), p, "select inverts rank");
} SDS_END

// vectors of more than 2^16 blocks: block numbers and counters must not be kept in fewer bits than they need
SDS_WITNESS(W_select_wide, "33555432")(uint64_t n) {
  BitVector v(n, false); uint64_t p = n - 700, q = 33554432 + 5;
  v[3] = sds_bool(); v[q] = true; v[p] = true; v[n - 1] = sds_bool(); uint64_t k = v[3];
  const SuccinctBitVector<true> s(v);
  sds_check_eq(s.select(k), q, "select finds the requested one"); sds_check_eq(s.select(k + 1), p, "select finds the requested one");
  sds_check_eq(s.rank(p), k + 1, "rank");
} SDS_END

// listed contents of several densities and shapes, every k: many blocks per tip and many tips per block
SDS_WITNESS(W_select_listed, "511,512,513,3000,9000;0-9;0-2|511-513,1023-1025,3000,9000,40000;0-9;0-9")(uint64_t n, uint64_t kind, uint64_t seed) {
  BitVector v(n); std::vector<uint64_t> at; uint64_t x = seed * 0x9E3779B97F4A7C15ull + kind, run = 0; bool cur = seed & 1; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  for (uint64_t i = 0; i < n; i++) {
    bool b = kind == 0 ? rnd(2) : kind == 1 ? !rnd(100) : kind == 2 ? rnd(100) != 0 : kind == 3 ? i % 64 == 63 : kind == 4 ? i % 512 == seed * 255 % 512 : kind == 5 ? true : kind == 6 ? i / 512 % 3 == seed % 3 : kind == 7 ? !rnd(1000) : kind == 8 ? i % 1024 < 513 : false;
    if (kind == 9) { if (!run) { run = 1 + rnd(1500); cur = !cur; } run--; b = cur; }
    v[i] = b; if (b) at.push_back(i);
  }
  // the order of a neighbouring one and zero is unknown in several places
  for (uint64_t q = 0, j = 0; q < 6 && j < at.size(); q++, j += 1 + at.size() / 6) { uint64_t i = at[j]; if (i + 1 < n && !v[i + 1]) { bool late = sds_bool(); v[i] = !late; v[i + 1] = late; at[j] = i + late; } }
  const SuccinctBitVector<true> s(v); uint64_t step = at.size() > 1500 ? at.size() / 1500 * 2 + 1 : 1;
  for (uint64_t k = 0; k < at.size(); k += 1 + (k % 512 > 4 && k % 512 < 508 && k + 5 < at.size() ? step - 1 : 0)) { sds_check_eq(s.select(k), at[k], "select finds the requested one"); sds_check_eq(s.rank(at[k]), k, "select inverts rank"); }
} SDS_END
