// Vocabulary of the obligations ("witness programs") that the abstract interpreter discharges.
// These functions have no body: they are given meaning by the analysis, nothing is ever executed.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sds_u64();                    // an arbitrary 64-bit value
uint64_t sds_bits(uint64_t n);         // an arbitrary n-bit value
bool sds_bool();                       // an arbitrary truth value
uint64_t sds_int(uint64_t hi);         // an arbitrary integer in [0, hi]
void sds_havoc(void *p, uint64_t n);   // the n bytes become arbitrary
uint64_t sds_havoc_heap();             // every byte of dynamic storage becomes arbitrary (bookkeeping excluded)
uint64_t sds_havoc_sym();              // the same, restricted to storage of non-constant size
void sds_assume(bool c);
void sds_check(bool c, const char *msg);
void sds_check_eq(uint64_t a, uint64_t b, const char *msg);
[[noreturn]] void sds_fail(const char *msg);
[[noreturn]] void sds_stop();
void *sds_stream();                    // an empty byte stream (both an output and an input)
uint64_t sds_stream_left(void *s);     // bytes written but not yet read
void sds_freeze(const void *obj);       // from here on: the object, all dynamic storage and all globals must not change
void sds_thaw();
uint64_t sds_work();                   // instructions on the longest path from the start to here
uint64_t sds_stream_pos(void *s);      // bytes written
uint64_t sds_heap();                   // bytes of dynamic storage that are live
bool sds_aligned(const void *p, uint64_t n); // the address is a multiple of n
}
// Ranges of the arguments of a witness: "a-b,c,...;..." one range per argument; "quick|thorough".
// no obligation of the file may need more dynamic storage than this (a generous multiple of what the sizes of the file call for)
#define SDS_HEAP_LIMIT(bytes) extern "C" { extern const char sds_meta_heap_limit[]; const char sds_meta_heap_limit[] __attribute__((used)) = #bytes; }
#define SDS_WITNESS(name, spec) extern "C" { extern const char sds_meta_##name[]; const char sds_meta_##name[] __attribute__((used)) = spec; void name
#define SDS_END }
