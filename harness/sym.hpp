// Harness interface. Under the symbolic executor these are intrinsics; in a
// native replay they read the solver's values from a file (replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint8_t sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_cover(const char *label);
uint64_t sym_concretize(uint64_t v);          // one path per feasible value
int64_t sym_param(unsigned i);                 // job parameter
void sym_observe(uint64_t v);                  // compared between engine and native replay
void sym_valid_range(const void *p, size_t n); // all bytes readable
uint64_t sym_ite(bool c, uint64_t a, uint64_t b);
void sym_run_thread(void (*fn)(void *), void *arg); // runs fn in another thread, to its end
}
template <typename F> inline void sym_thread(F f) { sym_run_thread([](void *p) { (*(F *)p)(); }, &f); }
inline bool sym_bool(const char *name) { return sym_u8(name) & 1; }
inline uint64_t sym_choice(const char *name, uint64_t n) {   // one path per value in [0,n)
    uint32_t v = sym_u32(name);
    sym_assume(v < n);
    return sym_concretize(v);
}
// comparison without branching
inline bool sym_eq_bytes(const void *a, const void *b, size_t n) {
    const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b;
    uint8_t d = 0;
    for (size_t i = 0; i < n; ++i) d |= x[i] ^ y[i];
    return d == 0;
}
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void name()
