// the array helpers of common.h
#include <utils/common.h>

#include "sym.h"
using namespace utils;
// a value that notices copies of moved-from objects
struct Tok
{
    uint32_t v;
    Tok() noexcept : v(0) {}
    explicit Tok(uint32_t x) noexcept : v(x) {}
    Tok(const Tok &) = default;
    Tok(Tok &&o) noexcept : v(o.v) { o.v = 0xdead; }
    Tok &operator=(const Tok &) = default;
};
template <typename T, std::size_t N>
static std::array<T, N> any()
{
    std::array<T, N> a{};
    for (auto &x : a) x = T(sym_u32("element"));
    return a;
}
template <typename T, std::size_t A, std::size_t B, std::size_t C>
static void concat()
{
    auto a = any<T, A>();
    auto b = any<T, B>();
    const auto c = any<T, C>();
    auto a1 = a;
    auto b1 = b;
    auto r = concatenate_arrays(a, std::move(b), c);
    sym_assert((std::is_same_v<decltype(r), std::array<T, A + B + C>>), "the type of the result");
    for (std::size_t i = 0; i < A; ++i) sym_assert(r[i] == a1[i] && a[i] == a1[i], "the first array's elements first");
    for (std::size_t i = 0; i < B; ++i) sym_assert(r[A + i] == b1[i], "then the second's");
    for (std::size_t i = 0; i < C; ++i) sym_assert(r[A + B + i] == c[i], "then the third's");
    auto s = concatenate_arrays(a);
    for (std::size_t i = 0; i < A; ++i) sym_assert(s[i] == a1[i], "one array is copied");
    auto t = concatenate_arrays(a, c, b1, a);
    for (std::size_t i = 0; i < A; ++i) sym_assert(t[i] == a1[i] && t[A + C + B + i] == a1[i], "four arrays");
    for (std::size_t i = 0; i < C; ++i) sym_assert(t[A + i] == c[i], "four arrays");
    for (std::size_t i = 0; i < B; ++i) sym_assert(t[A + C + i] == b1[i], "four arrays");
}
extern "C" void h_concat(uint64_t arg)
{
    switch (arg)
    {
        case 0: concat<uint32_t, 1, 1, 1>(); break;
        case 1: concat<uint32_t, 3, 2, 4>(); break;
        case 2: concat<uint8_t, 4, 1, 2>(); break;
        case 3: concat<uint16_t, 2, 5, 1>(); break;
        case 4: concat<uint64_t, 9, 17, 8>(); break;
        case 5: concat<uint8_t, 0, 3, 0>(); break;
        case 6: concat<uint8_t, 150, 120, 30>(); break;
        case 7: concat<uint16_t, 260, 2, 3>(); break;
    }
    sym_reach("concatenated");
}
extern "C" void h_concat_move(uint64_t)
{
    auto a = any<Tok, 2>();
    auto b = any<Tok, 3>();
    auto a1 = a;
    auto b1 = b;
    auto r = concatenate_arrays(a, std::move(b), a);
    for (int i = 0; i < 2; ++i)
        sym_assert(r[i].v == a1[i].v && a[i].v == a1[i].v && r[5 + i].v == a1[i].v, "lvalue arrays are copied");
    for (int i = 0; i < 3; ++i) sym_assert(r[2 + i].v == b1[i].v, "the elements of rvalue arrays arrive");
    sym_reach("concatenated");
}
extern "C" void h_make(uint64_t arg)
{
    if (arg == 0)
    {
        uint8_t a = sym_u8("a");
        int16_t b = (int16_t)sym_u16("b");
        const int32_t c = (int32_t)sym_u32("c");
        auto r = make_array(a, b, c);
        sym_assert((std::is_same_v<decltype(r), std::array<int, 3>>), "the type of the result");
        sym_assert(r[0] == a && r[1] == b && r[2] == c, "the arguments in order, in their common type");
        auto e = make_array<uint16_t>();
        sym_assert(e.empty(), "no arguments, no elements");
    }
    if (arg == 1)
    {
        uint64_t v = sym_u64("v");
        auto r = make_array<uint64_t, 5>(v);
        for (auto x : r) sym_assert(x == v, "every element has the value");
        auto z = make_array<uint32_t, 3>();
        for (auto x : z) sym_assert(x == 0, "or the default one");
        auto y = make_zero_array<uint16_t, 4>();
        for (auto x : y) sym_assert(x == 0, "zero");
        sym_assert((make_array<int, 0>(3).empty()), "no elements");
        auto y2 = make_array<uint16_t, 35>((uint16_t)v);
        for (auto x : y2) sym_assert(x == (uint16_t)v, "every element has the value");
    }
    if (arg == 2)
    {
        uint32_t v = sym_u32("v");
        Tok t(v);
        auto r = make_array<Tok, 4>(t);
        for (auto &x : r) sym_assert(x.v == v, "every element has the value, whatever its type");
        sym_assert(t.v == v, "the argument is unchanged");
        auto z = make_zero_array<Tok, 3>();
        for (auto &x : z) sym_assert(x.v == 0, "every element is value initialized");
    }
    sym_reach("made");
}
extern "C" void h_sv(uint64_t arg)
{
    uint64_t n = 5 + sym_choose("length", 3);
    char *p = (char *)sym_object(n, 16, 0);
    sym_bytes("text", p, n);
    std::string_view sv(p, n);
    if (arg == 0)
    {
        auto r = make_array<5, uint8_t>(sv);
        sym_assert((std::is_same_v<decltype(r), std::array<uint8_t, 5>>), "the type of the result");
        for (int i = 0; i < 5; ++i) sym_assert(r[i] == (uint8_t)p[i], "the first characters, converted");
        auto w = make_array<3, int>(sv);
        for (int i = 0; i < 3; ++i) sym_assert(w[i] == (int)p[i], "in any type");
        sym_assert((make_array<0, char>(sv).empty()), "or none");
    }
    if (arg == 1)
    {
        auto r = sv_to_array<4, 0, 2, 2>(sv);
        sym_assert(r.size() == 4 && r[0] == p[4] && r[1] == p[0] && r[2] == p[2] && r[3] == p[2], "the characters at the positions given");
        sym_assert(sv_to_array<>(sv).empty(), "or none");
    }
    sym_reach("text");
}
template <typename T, unsigned N>
static void equal()
{
    auto a = any<T, N>();
    auto b = any<T, N>();
    bool eq = true, pre[N + 1];
    for (unsigned i = 0; i < N; ++i)
    {
        pre[i] = eq;
        eq = eq & (a[i] == b[i]);
    }
    pre[N] = eq;
    sym_assert(is_equal(a, b) == eq, "equal iff all elements are");
    uint64_t k = N < 100 ? sym_choose("count", N + 1) : sym_choose("count", 2) ? N - 1 : 257;
    sym_assert(is_equal(a, b, k) == pre[k], "or the first ones");
    sym_reach("compared");
}
extern "C" void h_is_equal(uint64_t arg)
{
    if (arg == 0) equal<uint8_t, 4>();
    if (arg == 1) equal<uint32_t, 9>();
    if (arg == 2) equal<int64_t, 17>();
    if (arg == 3) equal<uint8_t, 270>();
}
extern "C" void h_range(uint64_t)
{
    // element i of an ascending range is Begin + i * Step
    auto r = make_array_from_range<3, 17, 4>();
    auto s = make_array_from_range<-2, 2>();
    auto t = make_array_from_range<7, 7>();
    auto u = make_array_from_range<uint8_t{250}, uint8_t{254}, 2>();
    uint64_t i = sym_choose("i", 5);
    sym_assert(r.size() == 4 && s.size() == 5 && t.size() == 1 && u.size() == 3, "as many as there are up to End");
    if (i < 4) sym_assert(r[i] == 3 + 4 * (int)i, "ascending");
    sym_assert(s[i] == -2 + (int)i, "ascending");
    if (i < 1) sym_assert(t[i] == 7, "one value");
    if (i < 3) sym_assert(u[i] == 250 + 2 * i, "ascending");
    sym_reach("range");
}
