// has_padding_v against what the bytes of two objects with equal members do
#include <utils/padding_checker.h>

#include "sym.h"
using utils::has_padding_v;
template <typename... T>
struct Agg;
template <typename A>
struct Agg<A>
{
    A a;
};
template <typename A, typename B>
struct Agg<A, B>
{
    A a;
    B b;
};
template <typename A, typename B, typename C>
struct Agg<A, B, C>
{
    A a;
    B b;
    C c;
};
template <typename A, typename B, typename C, typename D, typename E>
struct Agg<A, B, C, D, E>
{
    A a;
    B b;
    C c;
    D d;
    E e;
};
struct alignas(16) Wide
{
    uint32_t a, b;
};
struct alignas(8) Exact
{
    uint32_t a, b;
};
// with default member initializers: not trivial, but trivially copyable
struct Init
{
    uint32_t a = 1, b = 2;
};
struct InitGap
{
    uint8_t a = 1;
    uint32_t b = 2;
};
struct InitDeep
{
    Init a;
    uint64_t b = 3;
};
enum class Color : uint16_t
{
    Red
};
// stores equal values into the members of two objects
template <typename T>
static void leaf(T *p, T *q)
{
    uint8_t v[sizeof(T)];
    for (auto &b : v) b = sym_u8("value");
    std::memcpy(p, v, sizeof(T));
    std::memcpy(q, v, sizeof(T));
}
template <typename T>
static void same(T *p, T *q)
{
    leaf(p, q);
}
template <typename T, std::size_t N>
static void same(std::array<T, N> *p, std::array<T, N> *q)
{
    for (std::size_t i = 0; i < N; ++i) same(&(*p)[i], &(*q)[i]);
}
template <typename A>
static void same(Agg<A> *p, Agg<A> *q);
template <typename A, typename B>
static void same(Agg<A, B> *p, Agg<A, B> *q);
template <typename A, typename B, typename C>
static void same(Agg<A, B, C> *p, Agg<A, B, C> *q);
static void same(Wide *p, Wide *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
}
static void same(Exact *p, Exact *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
}
static void same(Init *p, Init *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
}
static void same(InitGap *p, InitGap *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
}
static void same(InitDeep *p, InitDeep *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
}
template <typename A, typename B, typename C, typename D, typename E>
static void same(Agg<A, B, C, D, E> *p, Agg<A, B, C, D, E> *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
    same(&p->c, &q->c);
    same(&p->d, &q->d);
    same(&p->e, &q->e);
}
template <typename A>
static void same(Agg<A> *p, Agg<A> *q)
{
    same(&p->a, &q->a);
}
template <typename A, typename B>
static void same(Agg<A, B> *p, Agg<A, B> *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
}
template <typename A, typename B, typename C>
static void same(Agg<A, B, C> *p, Agg<A, B, C> *q)
{
    same(&p->a, &q->a);
    same(&p->b, &q->b);
    same(&p->c, &q->c);
}
template <typename T>
static void one()
{
    static_assert(std::is_trivially_copyable_v<T>);
    alignas(T) unsigned char x[sizeof(T)], y[sizeof(T)];
    sym_bytes("before", x, sizeof x);
    sym_bytes("before", y, sizeof y);
    if (has_padding_v<T>)
        for (std::size_t i = 0; i < sizeof x; ++i) sym_assume(x[i] != y[i]);
    same(reinterpret_cast<T *>(x), reinterpret_cast<T *>(y));
    bool eq = true;
    for (std::size_t i = 0; i < sizeof x; ++i) eq = eq & (x[i] == y[i]);
    if (has_padding_v<T>)
        sym_assert(!eq, "a type with padding has bytes that belong to no member");
    else
        sym_assert(eq, "without padding, equal members make equal bytes");
    if (has_padding_v<T>)
        sym_reach("padding");
    else
        sym_reach("none");
}
template <typename A, typename B>
static void triples()
{
    one<Agg<A, B>>();
    one<Agg<A, B, uint8_t>>();
    one<Agg<A, B, uint16_t>>();
    one<Agg<A, B, uint32_t>>();
    one<Agg<A, B, uint64_t>>();
}
template <typename A>
static void pairs()
{
    one<A>();
    one<Agg<A>>();
    triples<A, uint8_t>();
    triples<A, uint16_t>();
    triples<A, uint32_t>();
    triples<A, uint64_t>();
}
extern "C" void h_padding(uint64_t arg)
{
    switch (arg)
    {
        case 0: pairs<uint8_t>(); break;
        case 1: pairs<uint16_t>(); break;
        case 2: pairs<uint32_t>(); break;
        case 3: pairs<uint64_t>(); break;
        case 4: pairs<Agg<uint8_t, uint32_t>>(); break;
        case 5: pairs<Agg<uint16_t, uint8_t, uint8_t>>(); break;
        case 6: pairs<Agg<Agg<uint32_t, uint16_t>, uint16_t>>(); break;
        case 7: pairs<std::array<uint8_t, 3>>(); break;
        case 8: pairs<std::array<Agg<uint16_t, uint8_t>, 2>>(); break;
    }
}
extern "C" void h_padding_kinds(uint64_t)
{
    one<float>();
    one<bool>();
    one<void *>();
    one<Color>();
    one<Agg<float, Color, bool, uint8_t, double>>();
    one<Agg<float, Color, bool, bool, double>>();
    one<Agg<double, float, Color>>();
    one<Agg<double, float, char32_t>>();
    one<Agg<void *, void (*)(), int Wide::*>>();
    one<Agg<void *, bool>>();
    one<Wide>();
    one<Exact>();
    one<Init>();
    one<InitGap>();
    one<InitDeep>();
    one<Agg<Init, uint32_t>>();
    one<Agg<uint64_t, Init>>();
    one<Agg<InitGap, uint64_t>>();
    one<std::array<Init, 2>>();
    one<Agg<Wide>>();
    one<Agg<Exact, Exact>>();
    one<Agg<uint32_t, Exact>>();
    one<Agg<Agg<Agg<Agg<uint8_t, uint8_t>>>, Agg<Agg<uint16_t>>>>();
    one<Agg<Agg<Agg<Agg<uint8_t, uint8_t>, uint8_t>>, Agg<Agg<uint16_t>>>>();
    // whatever is not trivially copyable is said to have padding
    struct NonTrivial
    {
        int x;
        ~NonTrivial() {}
    };
    bool nt = has_padding_v<NonTrivial> & has_padding_v<std::tuple<int, int>> & has_padding_v<std::unique_ptr<int>>;
    sym_assert(nt, "a type that is not trivially copyable counts as padded");
    // more than 255 bytes
    using W64 = std::array<uint64_t, 8>;
    using W512 = std::array<W64, 8>;
    using W4096 = std::array<W512, 8>;
    using Gap = Agg<uint32_t, uint16_t>;
    bool large = has_padding_v<Agg<W4096, W4096, W64>> | has_padding_v<Agg<W4096, W4096>> | has_padding_v<Agg<W512, W64, W64>>;
    sym_assert(!large, "members that fill the object leave no padding");
    bool gaps = has_padding_v<Agg<W4096, W4096, Gap>> & has_padding_v<Agg<Gap, W4096, W4096>>;
    sym_assert(gaps, "a gap in a large object is padding");
    sym_reach("kinds");
}
// more than 255 bytes
extern "C" void h_padding_large(uint64_t arg)
{
    using W64 = std::array<uint64_t, 8>;
    using Gap = Agg<uint32_t, uint16_t>;
    if (arg == 0) one<Agg<W64, W64, W64, W64, W64>>();
    else one<Agg<Agg<Gap, W64>, W64, W64, W64, W64>>();
}
