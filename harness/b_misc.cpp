// memvcmp, bit_cast, to_underlying, for_each_arg, for_each_in_tuple, abort_if,
// types by number of bits
#include <utils/common.h>

#include "sym.h"
using namespace utils;
#ifndef V_N
#define V_N 9
#endif
// arg: the length, 0 for any up to V_N
extern "C" void h_memvcmp(uint64_t arg)
{
    uint64_t n = arg ? arg : sym_choose("size", V_N + 1), off = sym_choose("offset", 2);
    unsigned char *p = (unsigned char *)sym_object(n + off, 16, 0) + off, c[600];
    sym_bytes("contents", p, n);
    for (uint64_t i = 0; i < n; ++i) c[i] = p[i];
    unsigned char v = sym_u8("value");
    bool r = memvcmp(p, v, n);
    bool all = n != 0;
    for (uint64_t i = 0; i < n; ++i) all &= p[i] == v;
    sym_assert(r == all, "true iff the range is not empty and every byte has the value");
    for (uint64_t i = 0; i < n; ++i) sym_assert(p[i] == c[i], "the range is not written");
    sym_observe("r", r);
    sym_reach("memvcmp");
}
// the address does not exist if the size is 0, and null never is an object
extern "C" void h_memvcmp_null(uint64_t arg)
{
    if (arg == 0) sym_assert(!memvcmp(nullptr, sym_u8("value"), sym_u64("size")), "false for a null pointer");
    else
    {
        uint64_t p = sym_u64("pointer");
        sym_assert(!memvcmp(reinterpret_cast<void *>(p), sym_u8("value"), 0), "false for an empty range");
    }
    sym_reach("nothing");
}
struct S8
{
    uint16_t a;
    uint8_t b[2];
    int32_t c;
};
struct S3
{
    uint8_t x[3];
};
struct S16
{
    uint64_t a;
    uint32_t b[2];
};
struct S24
{
    uint8_t a[24];
};
struct T24
{
    uint64_t a, b, c;
};
struct S72
{
    uint64_t a[9];
};
struct T72
{
    uint16_t a[36];
};
struct C3
{
    char a, b, c;
};
enum class E8 : uint8_t { a };
enum class E64 : int64_t { a };
enum EPlain : int16_t { plain };
template <typename To, typename From>
static void cast()
{
    From f;
    unsigned char b[sizeof(From)], t[sizeof(To)];
    sym_bytes("value", b, sizeof(From));
    memcpy(&f, b, sizeof f);
    To to = utils::bit_cast<To>(f);
    memcpy(t, &to, sizeof to);
    for (unsigned i = 0; i < sizeof(From); ++i) sym_assert(t[i] == b[i], "every byte is preserved");
    From back = utils::bit_cast<From>(to);
    memcpy(t, &back, sizeof to);
    for (unsigned i = 0; i < sizeof(From); ++i) sym_assert(t[i] == b[i], "casting back yields the value");
    sym_reach("cast");
}
extern "C" void h_bit_cast(uint64_t arg)
{
    switch (arg)
    {
        case 0: return cast<uint64_t, int64_t>();
        case 1: return cast<S8, uint64_t>();
        case 2: return cast<uint32_t, int32_t>();
        case 3: return cast<S3, C3>();
        case 4: return cast<uint8_t, char>();
        case 5: return cast<std::array<uint8_t, 8>, S8>();
        case 6: return cast<E8, uint8_t>();
        case 7: return cast<uint64_t, E64>();
        case 8: return cast<std::array<uint32_t, 4>, S16>();
        case 9: return cast<T24, S24>();
        case 10: return cast<T72, S72>();
        case 11: return cast<std::array<uint8_t, 257>, std::array<char, 257>>();
    }
}
extern "C" void h_underlying(uint64_t arg)
{
    if (arg == 0)
    {
        uint8_t v = sym_u8("v");
        auto r = to_underlying(static_cast<E8>(v));
        sym_assert((std::is_same_v<decltype(r), uint8_t>), "in the underlying type");
        sym_assert(r == v, "the value of the enumerator");
    }
    if (arg == 1)
    {
        int64_t v = (int64_t)sym_u64("v");
        auto r = to_underlying(static_cast<E64>(v));
        sym_assert((std::is_same_v<decltype(r), int64_t>), "in the underlying type");
        sym_assert(r == v, "the value of the enumerator");
    }
    if (arg == 2)
    {
        int16_t v = (int16_t)sym_u16("v");
        auto r = to_underlying(static_cast<EPlain>(v));
        sym_assert((std::is_same_v<decltype(r), int16_t>), "in the underlying type");
        sym_assert(r == v, "the value of the enumerator");
    }
    sym_reach("underlying");
}
// what a visitor saw, in order
struct Seen
{
    unsigned n = 0;
    uint64_t v[6];
    unsigned kind[6];
};
static unsigned g_copies;
static const void *g_at[2];
struct Mv
{
    uint32_t v;
    explicit Mv(uint32_t x) : v(x) {}
    Mv(Mv &&o) noexcept : v(o.v) { o.v = 0; }
    Mv(const Mv &o) noexcept : v(o.v) { ++g_copies; }
};
struct Visit
{
    Seen &s;
    void rec(uint64_t v, unsigned k)
    {
        s.v[s.n] = v;
        s.kind[s.n++] = k;
    }
    void operator()(uint8_t x) { rec(x, 1); }
    void operator()(uint64_t &x) { rec(x++, 2); }
    void operator()(const uint64_t &x) { rec(x, 3); }
    void operator()(Mv &&x)
    {
        g_at[0] = &x;
        Mv y(std::move(x));
        rec(y.v, 4);
    }
    void operator()(Mv &x)
    {
        g_at[1] = &x;
        rec(x.v, 5);
    }
};
extern "C" void h_for_each(uint64_t arg)
{
    Seen s;
    Visit f{s};
    uint8_t a = sym_u8("a");
    uint64_t b = sym_u64("b"), b0 = b;
    const uint64_t c = sym_u64("c");
    uint32_t mv = sym_u32("m");
    sym_assume(mv != 0);
    Mv m(mv), k(mv);
    g_copies = 0;
    if (arg == 0) for_each_arg(f, a, b, c, std::move(m), k);
    if (arg == 1) for_each_in_tuple(f, std::forward_as_tuple(a, b, c, std::move(m), k));
    if (arg == 2)
    {
        std::tuple<uint8_t, uint64_t, const uint64_t> t(a, b, c);
        for_each_in_tuple(f, t);
        sym_assert(s.n == 3 && s.v[0] == a && s.v[1] == b0 && s.v[2] == c, "each element once, in order");
        sym_assert(s.kind[0] == 1 && s.kind[1] == 2 && s.kind[2] == 3, "as lvalues");
        sym_assert(std::get<1>(t) == b0 + 1, "by reference");
        sym_reach("tuple");
        return;
    }
    if (arg == 3)
    {
        for_each_arg(f);
        for_each_in_tuple(f, std::tuple<>());
        sym_assert(s.n == 0, "nothing to visit");
        sym_reach("tuple");
        return;
    }
    sym_assert(s.n == 5, "each argument once");
    sym_assert(g_copies == 0 && g_at[0] == &m && g_at[1] == &k, "without copying it");
    sym_assert(s.v[0] == a && s.v[1] == b0 && s.v[2] == c && s.v[3] == mv && s.v[4] == mv, "in order");
    sym_assert(s.kind[0] == 1 && s.kind[1] == 2 && s.kind[2] == 3 && s.kind[3] == 4 && s.kind[4] == 5, "with its value category");
    sym_assert(b == b0 + 1 && m.v == 0 && k.v == mv, "lvalues by reference, rvalues moved from");
    sym_reach("visited");
}
extern "C" void h_abort_if(uint64_t arg)
{
    uint64_t v = sym_u64("v");
    unsigned n = 0;
    bool c = v > 41;
#ifdef NDEBUG
    bool must = c & (arg != 5);
#else
    bool must = c;
#endif
    if (must) sym_expect_abort(1);
    if (arg == 0) abort_if(c);
    if (arg == 1) abort_if(c, "value %llu\n", (unsigned long long)v);
    if (arg == 2) UTILS_ABORT_IF(c, "\nreason: value %llu", (unsigned long long)v);
    if (arg == 3) UTILS_ABORT_IF(c);
    if (arg == 4) UTILS_ABORT_IF((++n, c));
    if (arg == 5) UTILS_DEBUG_ABORT_IF((++n, c));
    sym_expect_abort(0);
    sym_assert(!must, "aborts if the condition holds");
    if (arg == 4) sym_assert(n == 1, "the condition is evaluated once");
#ifdef NDEBUG
    if (arg == 5) sym_assert(n == 0, "with NDEBUG the condition is not evaluated");
#else
    if (arg == 5) sym_assert(n == 1, "the condition is evaluated once");
#endif
    sym_reach("passed");
}
template <unsigned N>
static void width()
{
    using U = uint_from_nbits_t<N>;
    using F = fast_uint_from_nbits_t<N>;
    sym_assert(std::is_unsigned_v<U> && std::is_unsigned_v<F>, "an unsigned type");
    uint64_t v = sym_u64("v");
    if (N < 64) sym_assume(v >> (N % 64) == 0);
    sym_assert((uint64_t)(U)v == v, "every value of that many bits is representable");
    sym_assert((uint64_t)(F)v == v, "in the fast type too");
    sym_assert(sizeof(U) == 1 || N > 8 * sizeof(U) / 2, "by the smallest type");
    sym_assert(sizeof(F) >= sizeof(U), "the fast type is no smaller");
    sym_assert(num_bits<U>() == 8 * sizeof(U), "num_bits");
}
template <unsigned... I>
static void widths(std::integer_sequence<unsigned, I...>)
{
    (width<I + 1>(), ...);
}
enum class Three { a, b, c, Count };
enum class Four { a, b, c, d, Count };
enum class Big { Count = 256 };
template <typename En>
static void props()
{
    using S = typename enum_properties<En>::SerializeT;
    uint64_t v = sym_u64("v");
    sym_assume(v <= (uint64_t)En::Count);
    sym_assert((uint64_t)(S)v == v, "every enumerator up to Count can be serialized");
    bool tight = enum_properties<En>::numBits == 64 || v >> enum_properties<En>::numBits == 0;
    sym_assert(tight, "in numBits bits");
}
extern "C" void h_widths(uint64_t)
{
    widths(std::make_integer_sequence<unsigned, 64>{});
    props<Three>();
    props<Four>();
    props<Big>();
    sym_assert(sum_size<bool>() == 1 && sum_size<bool, uint8_t>() == 2, "sizes round up to bytes");
    sym_assert(sum_size<bool, bool, bool, bool, bool, bool, bool, bool>() == 1, "eight bits are a byte");
    sym_assert(sum_size<uint16_t, uint64_t, S3>() == 13, "sum of sizes");
    sym_reach("widths");
}
