// Interface between a harness and the two ways of running it: symbolically
// (engine/symex.py interprets these calls) and natively (native.cpp replays
// one concrete vector of input values, in call order).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
bool sym_bool(const char *name);
// any value below n; one path per value
uint64_t sym_choose(const char *name, uint64_t n);
void sym_bytes(const char *name, void *p, uint64_t n);
void sym_assume(bool c);
void sym_assert(bool c, const char *what);
void sym_reach(const char *label);
void sym_observe(const char *name, uint64_t v);
// from here on an abort is the required outcome
void sym_expect_abort(int on);
uint64_t sym_concretize(uint64_t v);
// a fresh object of `size` bytes whose address is congruent off modulo align
void *sym_object(uint64_t size, uint64_t align, uint64_t off);
bool sym_is_valid(const void *p, uint64_t n);
void sym_spawn(void (*fn)(void *), void *arg);
void sym_join(int max_switches);
}
#define SYM_CHECK(c) sym_assert((c), #c)
template <class T> inline T sym_any(const char *n);
template <> inline uint8_t sym_any<uint8_t>(const char *n) { return sym_u8(n); }
template <> inline uint16_t sym_any<uint16_t>(const char *n) { return sym_u16(n); }
template <> inline uint32_t sym_any<uint32_t>(const char *n) { return sym_u32(n); }
template <> inline uint64_t sym_any<uint64_t>(const char *n) { return sym_u64(n); }
template <> inline unsigned long long sym_any<unsigned long long>(const char *n) { return sym_u64(n); }
template <> inline int8_t sym_any<int8_t>(const char *n) { return (int8_t)sym_u8(n); }
template <> inline char sym_any<char>(const char *n) { return (char)sym_u8(n); }
template <> inline int16_t sym_any<int16_t>(const char *n) { return (int16_t)sym_u16(n); }
template <> inline int32_t sym_any<int32_t>(const char *n) { return (int32_t)sym_u32(n); }
template <> inline int64_t sym_any<int64_t>(const char *n) { return (int64_t)sym_u64(n); }
template <> inline long long sym_any<long long>(const char *n) { return (long long)sym_u64(n); }
template <> inline bool sym_any<bool>(const char *n) { return sym_bool(n); }
template <> inline std::byte sym_any<std::byte>(const char *n) { return (std::byte)sym_u8(n); }
