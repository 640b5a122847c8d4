// div and div_as for every pair of integral types; compiled for the run-time
// branch and, with __builtin_is_constant_evaluated() defined as true, for the
// one used in constant expressions
#include <utils/common.h>

#include "sym.h"
template <typename R, typename D>
static void check(R n, R d, const D &r)
{
    static_assert(std::is_same_v<decltype(r.quot), R> && std::is_same_v<decltype(r.rem), R>);
    // the reference: division in the common type; and the same in 64 bits,
    // which the solver may find easier to match (both are the same number)
    R q1 = static_cast<R>(n / d), m1 = static_cast<R>(n % d);
    R q2 = q1, m2 = m1;
    if constexpr (sizeof(R) < 8)
    {
        q2 = static_cast<R>(static_cast<long long>(n) / static_cast<long long>(d));
        m2 = static_cast<R>(static_cast<long long>(n) % static_cast<long long>(d));
    }
    bool q = (r.quot == q2) | (r.quot == q1), m = (r.rem == m2) | (r.rem == m1);
    sym_assert(q, "the quotient of the operands in their common type");
    sym_assert(m, "the remainder of the operands in their common type");
}
template <typename R, typename T, typename U>
static void operands(T &n, U &d)
{
    n = sym_any<T>("numerator");
    d = sym_any<U>("denominator");
    sym_assume(d != 0);
    sym_assume((R)d != 0);
    if constexpr (std::is_signed_v<R>)
    {
        // the one quotient that is not representable
        bool ovf = ((R)n == std::numeric_limits<R>::min()) & ((R)d == (R)-1);
        sym_assume(!ovf);
    }
}
template <typename T, typename U>
static void one()
{
    using R = std::common_type_t<T, U>;
    T n;
    U d;
    operands<R>(n, d);
    auto r = utils::div(n, d);
    sym_observe("quot", (uint64_t)r.quot);
    sym_observe("rem", (uint64_t)r.rem);
    check<R>((R)n, (R)d, r);
    sym_reach("div");
}
template <typename R, typename T, typename U>
static void as()
{
    T n;
    U d;
    operands<R>(n, d);
    auto r = utils::div_as<R>(n, d);
    sym_observe("quot", (uint64_t)r.quot);
    check<R>((R)n, (R)d, r);
    sym_reach("div_as");
}
template <typename T>
static void row(unsigned u)
{
    switch (u)
    {
        case 0: return one<T, int8_t>();
        case 1: return one<T, uint8_t>();
        case 2: return one<T, int16_t>();
        case 3: return one<T, uint16_t>();
        case 4: return one<T, int32_t>();
        case 5: return one<T, uint32_t>();
        case 6: return one<T, int64_t>();
        case 7: return one<T, uint64_t>();
        case 8: return one<T, long long>();
        case 9: return one<T, unsigned long long>();
    }
}
// arg: 10 * type of the numerator + type of the denominator
extern "C" void h_div(uint64_t arg)
{
    unsigned u = arg % 10;
    switch (arg / 10)
    {
        case 0: return row<int8_t>(u);
        case 1: return row<uint8_t>(u);
        case 2: return row<int16_t>(u);
        case 3: return row<uint16_t>(u);
        case 4: return row<int32_t>(u);
        case 5: return row<uint32_t>(u);
        case 6: return row<int64_t>(u);
        case 7: return row<uint64_t>(u);
        case 8: return row<long long>(u);
        case 9: return row<unsigned long long>(u);
    }
}
extern "C" void h_div_as(uint64_t arg)
{
    switch (arg)
    {
        case 0: return as<uint64_t, uint64_t, uint32_t>();
        case 1: return as<uint64_t, int32_t, int64_t>();
        case 2: return as<int32_t, uint64_t, uint8_t>();
        case 3: return as<uint8_t, uint32_t, uint32_t>();
        case 4: return as<int64_t, uint32_t, int8_t>();
        case 5: return as<uint32_t, uint64_t, int16_t>();
        case 6: return as<int16_t, uint16_t, uint16_t>();
        case 7: return as<unsigned long long, int64_t, uint64_t>();
    }
}
