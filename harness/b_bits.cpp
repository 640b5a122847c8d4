// bit arithmetic of common.h, ctz.h, clz.h for every input value
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>

#include "sym.h"

// reference models: bit by bit, no loops over symbolic trip counts
template <class T> static unsigned ref_ctz(T v)
{
    unsigned r = sizeof(T) * 8;
    for (int i = (int)sizeof(T) * 8 - 1; i >= 0; --i)
        r = ((v >> i) & 1) ? (unsigned)i : r;
    return r;
}
template <class T> static unsigned ref_clz(T v)
{
    unsigned r = sizeof(T) * 8;
    for (int i = 0; i < (int)sizeof(T) * 8; ++i)
        r = ((v >> i) & 1) ? (unsigned)(sizeof(T) * 8 - 1 - i) : r;
    return r;
}
template <class T> static unsigned ref_pop(T v)
{
    unsigned r = 0;
    for (unsigned i = 0; i < sizeof(T) * 8; ++i) r += (unsigned)((v >> i) & 1);
    return r;
}

template <class T> static void one_ctz()
{
    T v = sym_any<T>("v");
    sym_assume(v != 0);
    auto r = utils::ctz(v);
    sym_observe("ctz", (uint64_t)r);
    sym_assert((uint64_t)r == ref_ctz(v), "ctz(v) is the index of the lowest set bit");
    sym_reach("ctz");
}
template <class T> static void one_clz()
{
    T v = sym_any<T>("v");
    sym_assume(v != 0);
    auto r = utils::clz(v);
    sym_observe("clz", (uint64_t)r);
    sym_assert((uint64_t)r == ref_clz(v), "clz(v) counts the zero bits above the highest set bit");
    sym_reach("clz");
}
template <class T> static void one_crafted_ctz()
{
    T v = sym_any<T>("v");
    sym_assume(v != 0);
    auto a = utils::details::crafted_ctz(v);
    sym_observe("a", (uint64_t)a);
    sym_assert(a == ref_ctz(v), "portable ctz fallback");
    sym_reach("crafted ctz");
}
template <class T> static void one_crafted_clz()
{
    T v = sym_any<T>("v");
    sym_assume(v != 0);
    auto b = utils::details::crafted_clz(v);
    sym_observe("b", (uint64_t)b);
    sym_assert(b == ref_clz(v), "portable clz fallback");
    sym_reach("crafted clz");
}
#define BY_TYPE(a, F)                    \
    switch (a)                           \
    {                                    \
        case 0: F<uint8_t>(); break;     \
        case 1: F<uint16_t>(); break;    \
        case 2: F<uint32_t>(); break;    \
        case 3: F<uint64_t>(); break;    \
        default: F<unsigned long long>(); break; \
    }
extern "C" void h_ctz(uint64_t a) { BY_TYPE(a, one_ctz) }
extern "C" void h_clz(uint64_t a) { BY_TYPE(a, one_clz) }
extern "C" void h_crafted_ctz(uint64_t a) { BY_TYPE(a, one_crafted_ctz) }
extern "C" void h_crafted_clz(uint64_t a) { BY_TYPE(a, one_crafted_clz) }

// ---- bit counts
template <class T> static void one_occ()
{
    T v = sym_any<T>("v");
    auto r = utils::nbits_occupied(v);
    sym_observe("occ", r);
    sym_assert(r == sizeof(T) * 8 - ref_clz(v), "nbits_occupied is the bit length");
    sym_assert(utils::bits_count(v) == r, "bits_count is the bit length");
    sym_reach("occ");
}
extern "C" void h_occ(uint64_t a) { BY_TYPE(a, one_occ) }
extern "C" void h_table(uint64_t)
{
    uint8_t v = sym_u8("v");
    uint8_t t = utils::kNumBitsTable[v];
    sym_observe("t", t);
    sym_assert(utils::kNumBitsTable.size() == 256, "table covers every byte");
    sym_assert(t == ref_pop(v), "the table holds the number of set bits");
    sym_reach("table");
}

// ---- powers of two and alignment
extern "C" void h_pow2(uint64_t)
{
    uint64_t v = sym_u64("v");
    bool r = utils::is_power_of_2(v);
    sym_observe("p", r);
    bool one = false;
    for (unsigned i = 0; i < 64; ++i) one |= (v == ((uint64_t)1 << i));
    sym_assert(r == one, "is_power_of_2");
    sym_reach("pow2");
}
template <class T> static void one_gd()
{
    T v = sym_any<T>("v");
    T r = utils::greatest_divisor_that_is_power_of_2(v);
    sym_observe("gd", r);
    T want = v ? (T)((T)1 << ref_ctz((T)(v | (T)((T)1 << (sizeof(T) * 8 - 1))))) : (T)((T)1 << (sizeof(T) * 8 - 1));
    sym_assert(r == want, "greatest_divisor_that_is_power_of_2");
    sym_reach("gd");
}
extern "C" void h_gd(uint64_t a) { BY_TYPE(a, one_gd) }

extern "C" void h_next_multiple(uint64_t)
{
    uint64_t k = sym_u8("k");
    sym_assume(k < 64);
    uint64_t m = (uint64_t)1 << k;
    uint64_t v = sym_u64("v");
    uint64_t r = utils::next_multiple_of(m, v);
    sym_observe("r", r);
    sym_assert((r & (m - 1)) == 0, "result is a multiple");
    // exact for every value whose next multiple is representable; else wraps to 0
    sym_assert(r - v < m, "the least multiple not below the value");
    sym_assert(r >= v || r == 0, "only an unrepresentable multiple wraps, to 0");
    const void *p = reinterpret_cast<const void *>(v);
    uint64_t s = utils::skip_to_align(p, m);
    sym_observe("s", s);
    sym_assert(s == r - v && s < m, "skip_to_align is the distance to the next aligned address");
    bool al = utils::is_aligned(p, m);
    sym_observe("al", al);
    sym_assert(al == ((v & (m - 1)) == 0), "is_aligned");
    sym_assert(al == (s == 0), "aligned exactly when nothing is skipped");
    if (al) sym_reach("aligned");
    else sym_reach("unaligned");
}
struct alignas(64) A64 { char c[64]; };
template <std::size_t N> struct alignas(N) Aligned { char c; };
template <auto M, class U> static void one_nm()
{
    U v = sym_any<U>("v");
    U r = utils::next_multiple_of<M>(v);
    sym_observe("r", r);
    U mask = (U)(M - 1);
    sym_assert((r & mask) == 0, "result is a multiple (compile-time multiple)");
    sym_assert((U)(r - v) <= mask, "least multiple not below the value (compile-time multiple)");
    sym_assert(r >= v || r == 0, "wraps only to 0 (compile-time multiple)");
    sym_reach("nm");
}
template <class T> static void one_skip()
{
    uint64_t v = sym_u64("v");
    const void *p = reinterpret_cast<const void *>(v);
    uint64_t s = utils::skip_to_align<T>(p);
    bool al = utils::is_aligned<T>(p);
    sym_observe("s", s);
    sym_observe("al", al);
    sym_assert(s < alignof(T) && ((v + s) & (alignof(T) - 1)) == 0, "skip_to_align<T>");
    sym_assert(al == ((v & (alignof(T) - 1)) == 0), "is_aligned<T>");
    sym_reach("skipT");
}
extern "C" void h_nm(uint64_t a)
{
    switch (a)
    {
        case 0: one_nm<1, uint64_t>(); break;
        case 1: one_nm<8, uint64_t>(); break;
        case 2: one_nm<4096, uint64_t>(); break;
        case 3: one_nm<(uint64_t(1) << 63), uint64_t>(); break;
        case 4: one_nm<8, uint32_t>(); break;
        case 5: one_nm<(1u << 31), uint32_t>(); break;
        case 6: one_nm<16, uint16_t>(); break;
        case 7: one_nm<8, uint8_t>(); break;
        case 8: one_skip<char>(); break;
        case 9: one_skip<int>(); break;
        case 10: one_skip<uint64_t>(); break;
        case 11: one_skip<A64>(); break;
        case 12: one_nm<128, uint8_t>(); break;
        case 14: one_nm<8u, uint64_t>(); break;
        case 15: one_nm<(unsigned short)16, uint64_t>(); break;
        case 16: one_nm<8, unsigned long long>(); break;
        case 17: one_nm<(1u << 31), uint64_t>(); break;
        case 18: one_nm<(unsigned char)64, uint32_t>(); break;
        case 19: one_nm<uint64_t{32}, uint32_t>(); break;
        case 20: one_nm<(1 << 30), uint64_t>(); break;
        case 21: one_nm<(uint64_t(1) << 32), uint64_t>(); break;
        case 22: one_skip<Aligned<4096>>(); break;
        case 23: one_skip<Aligned<1 << 20>>(); break;
        default: one_nm<2, uint16_t>(); break;
    }
}

// max_alignment_inside_block: the largest power of two that is sure to have a
// multiple inside [start, start+size) for every start that is a multiple of
// the block's alignment
extern "C" void h_max_align(uint64_t)
{
    uint64_t k = sym_u8("k");
    sym_assume(k < 64);
    uint64_t a = (uint64_t)1 << k;
    uint64_t n = sym_u64("size");
    sym_assume(n > 0);
    sym_assume(a + n - 1 >= n);  // the block fits the address space
    uint64_t r = utils::max_alignment_inside_block(a, n);
    sym_observe("r", r);
    sym_assert(r != 0 && (r & (r - 1)) == 0, "a power of two");
    // guaranteed: whatever the position, some address inside is a multiple of r
    uint64_t start = sym_u64("start");
    sym_assume((start & (a - 1)) == 0);
    sym_assume(start + (n - 1) >= start);
    uint64_t up = (start + (r - 1)) & ~(r - 1);
    sym_assert(up - start < n, "an address with that alignment lies inside every such block");
    // and no larger power of two is guaranteed
    sym_assert(r == ((uint64_t)1 << 63) || a + (n - 1) < 2 * r, "no larger alignment is guaranteed");
    sym_reach("maxalign");
}

// ---- shifts
template <class T> static void one_shift()
{
    using U = std::make_unsigned_t<T>;
    T v = sym_any<T>("v");
    uint64_t n = sym_u64("n");
    sym_assume(n < sizeof(T) * 8);
    n = sym_concretize(n);
    T r = utils::shift_right(v, n);
    sym_observe("r", (uint64_t)(U)r);
    // arithmetic shift: floor(v / 2^n)
    U wr = (U)((U)v >> n);
    if (std::is_signed_v<T> && n)
        wr = (U)(v < 0 ? (U)(wr | (U) ~(U)((U)~(U)0 >> n)) : wr);
    sym_assert((U)r == wr, "shift_right is floor division by 2^n in T");
    if (std::is_signed_v<T> && sizeof(T) >= sizeof(int))
        sym_assume(v >= 0 && (n == 0 || ((U)v >> (sizeof(T) * 8 - n)) == 0));
    T l = utils::shift_left(v, n);
    sym_observe("l", (uint64_t)(U)l);
    sym_assert((U)l == (U)((uint64_t)(U)v << n), "shift_left is multiplication by 2^n modulo 2^width");
    sym_reach("shift");
}
extern "C" void h_shift(uint64_t a)
{
    switch (a)
    {
        case 0: one_shift<uint8_t>(); break;
        case 1: one_shift<uint16_t>(); break;
        case 2: one_shift<uint32_t>(); break;
        case 3: one_shift<uint64_t>(); break;
        case 4: one_shift<int8_t>(); break;
        case 5: one_shift<int16_t>(); break;
        case 6: one_shift<int32_t>(); break;
        default: one_shift<int64_t>(); break;
    }
}
