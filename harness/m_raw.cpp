// raw memory operations: secure_zero_memory, memmove, memcpy, get_alignment
#include <utils/memory/memory.h>

#include "sym.h"
using namespace utils;
#ifndef V_N
#define V_N 9
#endif
static std::byte *bytes(uint64_t n, std::byte *copy)
{
    std::byte *p = (std::byte *)sym_object(n, 16, 0);
    sym_bytes("contents", p, n);
    for (uint64_t i = 0; i < n; ++i) copy[i] = p[i];
    return p;
}
// arg: 0 secure_zero_memory, 1 secure_zero_memory_safe
extern "C" void h_zero(uint64_t arg)
{
    std::byte c[V_N + 3];
    uint64_t n = sym_choose("size", V_N + 1);
    std::byte *p = bytes(n + 2, c);
    if (arg == 0) memory::secure_zero_memory(p + 1, n);
    else
    {
        int r = memory::secure_zero_memory_safe(p + 1, n);
        sym_assert(r == (n ? 0 : -2), "0 for success, -2 for an empty range");
    }
    sym_assert(p[0] == c[0] && p[n + 1] == c[n + 1], "nothing outside the range is written");
    for (uint64_t i = 1; i <= n; ++i) sym_assert(p[i] == std::byte{}, "every byte of the range is zero");
    sym_reach("zeroed");
}
extern "C" void h_zero_null(uint64_t)
{
    sym_assert(memory::secure_zero_memory_safe(nullptr, sym_u64("size")) == -1, "-1 for a null pointer");
    sym_reach("null");
}
// long ranges: byte i is one of eight symbolic bytes, changed by a value that
// depends on i
static const uint64_t kLong[] = {32, 63, 64, 100, 128, 255, 256, 257, 1000, 4096, 5000, 65536 + 3, 131072 + 3};
static unsigned char pattern(const unsigned char *w, uint64_t i)
{
    return w[(i + (i >> 8)) & 7];
}
// arg: index of the length + 16 * operation (0, 1 as h_zero, 2 memmove down,
// 3 memmove up, 4 memcpy)
extern "C" void h_long(uint64_t arg)
{
    unsigned char w[8];
    sym_bytes("contents", w, 8);
    uint64_t n = kLong[arg & 15], op = arg >> 4, d = op == 2 || op == 3 ? 5 : 0;
    unsigned char *p = (unsigned char *)sym_object(n + d + 2, 16, 0), *q = p;
    for (uint64_t i = 0; i < n + d + 2; ++i) p[i] = pattern(w, i);
    std::byte *b = reinterpret_cast<std::byte *>(p);
    uint64_t at = 1, from = ~(uint64_t)0;  // destination, source
    if (op == 0) memory::secure_zero_memory(b + 1, n);
    if (op == 1) sym_assert(memory::secure_zero_memory_safe(b + 1, n) == 0, "0 for success");
    if (op == 2) memory::memmove(b + 1, b + 6, n), from = 6;
    if (op == 3) at = 6, from = 1, memory::memmove(b + 6, b + 1, n);
    if (op == 4)
    {
        q = (unsigned char *)sym_object(n + 2, 16, 0);
        for (uint64_t i = 0; i < n + 2; ++i) q[i] = (unsigned char)i;
        memory::memcpy(reinterpret_cast<std::byte *>(q) + 1, reinterpret_cast<const char *>(p), n), from = 0;
    }
    bool in = true, out = true;
    for (uint64_t i = 0; i < n + d + 2; ++i)
    {
        bool inside = i >= at && i < at + n;
        unsigned char want = !inside ? (op == 4 ? (unsigned char)i : pattern(w, i)) : op < 2 ? 0 : pattern(w, i - at + from);
        if (inside) in &= q[i] == want;
        else out &= q[i] == want;
        if (i % 32 == 31)
        {
            sym_assert(in, "every byte of the range is set");
            in = true;
        }
    }
    sym_assert(in, "every byte of the range is set");
    sym_assert(out, "and no other");
    sym_reach("long");
}
// compiled with optimisation: the zeroing of memory that is given back right
// after it still happens
extern "C" void sym_free_zeroed(void *p, uint64_t n);
extern "C" void h_zero_dead(uint64_t arg)
{
    uint64_t n = arg & 255;
    std::byte *p = (std::byte *)malloc(n);
    sym_bytes("secret", p, n);
    sym_free_zeroed(p, n);
    if (arg & 256)
    {
        if (memory::secure_zero_memory_safe(p, n)) return;
    }
    else memory::secure_zero_memory(p, n);
    free(p);
    sym_reach("gone");
}
// any two ranges of one object
extern "C" void h_memmove(uint64_t)
{
    std::byte c[V_N];
    std::byte *p = bytes(V_N, c);
    uint64_t d = sym_choose("dst", V_N), s = sym_choose("src", V_N);
    uint64_t n = sym_choose("count", V_N + 1 - (d > s ? d : s));
    std::byte *r = memory::memmove(p + d, p + s, n);
    sym_assert(r == p + d, "the destination is returned");
    for (uint64_t i = 0; i < V_N; ++i)
    {
        std::byte want = i >= d && i < d + n ? c[s + (i - d)] : c[i];
        sym_assert(p[i] == want, "the destination holds what the source held, the rest is unchanged");
    }
    sym_reach("moved");
}
// two objects of the exact size
extern "C" void h_move2(uint64_t)
{
    std::byte c[V_N + 1], o[V_N + 1];
    uint64_t n = sym_choose("count", V_N + 1);
    std::byte *p = bytes(n, c), *q = bytes(n, o);
    std::byte *r = memory::memmove(p, q, n);
    sym_assert(r == p, "the destination is returned");
    for (uint64_t i = 0; i < n; ++i)
        sym_assert(p[i] == o[i] && q[i] == o[i], "the destination is a copy, the source unchanged");
    sym_reach("moved");
}
template <typename To, typename From>
static void copy()
{
    std::byte c[V_N + 3], o[V_N + 1];
    uint64_t n = sym_choose("count", V_N + 1);
    std::byte *p = bytes(n + 2, c), *q = bytes(n, o);
    memory::memcpy((To *)(p + 1), (const From *)(n ? q : p), n);
    sym_assert(p[0] == c[0] && p[n + 1] == c[n + 1], "nothing outside the range is written");
    for (uint64_t i = 0; i < n; ++i)
        sym_assert(p[i + 1] == o[i] && q[i] == o[i], "the destination is a copy, the source unchanged");
    sym_reach("copied");
}
extern "C" void h_memcpy(uint64_t arg)
{
    if (arg == 0) copy<std::byte, std::byte>();
    if (arg == 1) copy<void, void>();
    if (arg == 2) copy<unsigned char, std::byte>();
    if (arg == 3) copy<std::byte, char>();
    if (arg == 4) copy<char, unsigned char>();
    if (arg == 5) copy<void, std::byte>();
    if (arg == 6) copy<std::byte, void>();
    if (arg == 7) copy<signed char, char>();
}
// a misused copy: null pointers are refused
extern "C" void h_memcpy_null(uint64_t arg)
{
    std::byte b{};
    sym_expect_abort(1);
    if (arg == 0) memory::memcpy((std::byte *)nullptr, &b, 1);
    else memory::memcpy(&b, (const std::byte *)nullptr, 1);
    sym_assert(false, "refused");
}
extern "C" void h_get_alignment(uint64_t)
{
    uint64_t p = sym_u64("pointer");
    sym_assume(p != 0);
    uint64_t a = memory::get_alignment(reinterpret_cast<void *>(p));
    sym_observe("a", a);
    sym_assert(a != 0 && (a & (a - 1)) == 0, "a power of two");
    sym_assert((p & (a - 1)) == 0, "that divides the address");
    sym_assert((p & a) != 0, "and is the largest one");
    sym_reach("alignment");
}
