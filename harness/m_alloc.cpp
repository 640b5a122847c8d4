// allocator<T>: sizes, construction, comparison, conversion
#include <utils/memory/allocator.h>

#include "sym.h"
using namespace utils::memory;
struct Res : memory_resource
{
    unsigned allocs = 0, frees = 0;
    uint64_t size = 0, align = 0, freed = 0;
    void *answer = nullptr;
    int group = 0;
    uint64_t scrub = 0;
    Res() noexcept : memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>) {}
    bool is_equal(const memory_resource &o) const noexcept override
    {
        return group == static_cast<const Res &>(o).group;
    }
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++allocs;
        size = s;
        align = a;
        return answer;
    }
    void deallocate_impl(void *p) noexcept
    {
        ++frees;
        freed = reinterpret_cast<uint64_t>(p);
        // what is given back may be used for something else at once
        unsigned char *m = scrub ? static_cast<unsigned char *>(p) : nullptr;
        for (uint64_t i = 0; i < scrub; ++i) m[i] = 0x5c;
    }
};
template <unsigned N, unsigned A = 1>
struct alignas(A) Blob
{
    unsigned char x[N];
};
template <typename T>
static void sized(unsigned how)
{
    Res r;
    r.answer = reinterpret_cast<void *>(sym_u64("memory"));
    allocator<T> a(&r);
    uint64_t n = sym_u64("count");
    T *p = how == 0 ? a.allocate(n) : allocator<int>(&r).template allocate_object<T>(n);
    uint64_t got = reinterpret_cast<uint64_t>(p);
    bool fits = n <= ~(uint64_t)0 / sizeof(T);
    if (r.allocs)
    {
        sym_assert(r.allocs == 1, "the resource is asked once");
        // division free: the exact product of 128 bits
        bool enough = (unsigned __int128)r.size >= (unsigned __int128)n * sizeof(T);
        sym_assert(enough, "for at least count objects");
        sym_assert(r.size == n * sizeof(T), "and no more");
        sym_assert(r.align >= alignof(T) && r.align % alignof(T) == 0, "aligned for T");
        sym_assert(got == reinterpret_cast<uint64_t>(r.answer), "its answer is returned");
        sym_reach("asked");
    }
    else
    {
        sym_assert(p == nullptr, "null when the size is not representable");
        sym_assert(!fits, "a representable size is requested");
        sym_reach("too many");
    }
    if (how == 0) a.deallocate(p);
    else a.deallocate_object(p);
    sym_assert(r.frees == 1 && r.freed == got, "given back to the same resource");
}
extern "C" void h_sized(uint64_t arg)
{
    unsigned how = arg & 1;
    switch (arg >> 1)
    {
        case 0: return sized<char>(how);
        case 1: return sized<int>(how);
        case 2: return sized<Blob<3>>(how);
        case 3: return sized<Blob<24, 8>>(how);
        case 4: return sized<Blob<64, 64>>(how);
        case 5: return sized<Blob<4096, 4096>>(how);
        case 6: return sized<Blob<7, 1>>(how);
    }
}
extern "C" void h_bytes(uint64_t arg)
{
    Res r;
    r.answer = reinterpret_cast<void *>(sym_u64("memory"));
    allocator<int> a(&r);
    uint64_t n = sym_u64("size"), al = (uint64_t)1 << sym_choose("log2align", 64);
    void *p = arg ? a.allocate_bytes(n) : a.allocate_bytes(n, al);
    sym_assert(r.allocs == 1 && p == r.answer && r.size == n, "passed on");
    sym_assert(r.align == (arg ? alignof(std::max_align_t) : al), "with the alignment given or the default one");
    a.deallocate_bytes(p);
    sym_assert(r.frees == 1 && r.freed == reinterpret_cast<uint64_t>(p), "given back");
    sym_reach("bytes");
}
// objects that record how they were made and how often
static int g_live, g_made, g_copies, g_moves, g_dead;
struct Token
{
    uint32_t v;
    explicit Token(uint32_t x) noexcept : v(x) {}
    Token(const Token &o) noexcept : v(o.v) { ++g_copies; }
    Token(Token &&o) noexcept : v(o.v)
    {
        ++g_moves;
        o.v = 0;
    }
};
struct Thing
{
    uint32_t a;
    uint64_t b;
    Token t;
    Thing() noexcept : a(7), b(9), t(1) { made(); }
    Thing(uint32_t x, const uint64_t &y, Token &&z) noexcept : a(x), b(y), t(std::move(z)) { made(); }
    Thing(uint32_t &x, uint64_t y, const Token &z) noexcept : a(x), b(y), t(z)
    {
        ++x;
        made();
    }
    ~Thing()
    {
        --g_live;
        if (b != last) ++g_dead;
        b = 0;
    }
    static inline uint64_t last;
    void made()
    {
        last = b;
        ++g_live;
        ++g_made;
    }
};
extern "C" void h_objects(uint64_t arg)
{
    Res r;
    bool ok = sym_bool("memory available");
    void *mem = sym_object(sizeof(Thing), alignof(Thing), 0);
    r.answer = ok ? mem : nullptr;
    allocator<char> a(&r);
    uint32_t x = sym_u32("x"), x0 = x;
    uint64_t y = sym_u64("y");
    uint32_t tv = sym_u32("t");
    sym_assume(tv != 0);
    Token t(tv);
    Thing *p = nullptr;
    if (arg == 0) p = a.new_object<Thing>();
    if (arg == 1) p = a.new_object<Thing>(uint32_t(x), y, std::move(t));
    if (arg == 2) p = a.new_object<Thing>(x, y, std::as_const(t));
    sym_assert(r.allocs == 1 && r.size == sizeof(Thing) && r.align == alignof(Thing), "memory for one object");
    if (!ok)
    {
        sym_assert(p == nullptr && g_made == 0, "nothing is constructed without memory");
        sym_assert(t.v == tv && x == x0 && g_copies + g_moves == 0, "the arguments are untouched");
        sym_reach("no memory");
    }
    else
    {
        sym_assert((void *)p == mem, "constructed in the memory obtained");
        sym_assert(g_made == 1 && g_live == 1, "one construction");
        if (arg == 0) sym_assert(p->a == 7 && p->b == 9 && p->t.v == 1, "default constructed");
        else sym_assert(p->a == x0 && p->b == y && p->t.v == tv, "from the arguments");
        if (arg == 1) sym_assert(g_moves == 1 && g_copies == 0 && t.v == 0, "rvalues are moved from");
        if (arg == 2) sym_assert(g_moves == 0 && g_copies == 1 && t.v == tv && x == x0 + 1, "lvalues are passed as lvalues");
        sym_reach("constructed");
    }
    if (ok) r.scrub = sizeof(Thing);
    a.delete_object(p);
    sym_assert(g_dead == 0, "the destructor runs on the object, while its memory is still its own");
    sym_assert(g_live == 0, "destroyed once");
    if (ok) sym_assert(r.frees == 1 && r.freed == reinterpret_cast<uint64_t>(mem), "and its memory given back");
    else sym_assert(r.frees == 0, "deleting a null pointer does nothing");
}
// construct() alone; arguments of other types than the allocator's
extern "C" void h_construct(uint64_t arg)
{
    Res r;
    void *mem = sym_object(sizeof(Thing), alignof(Thing), 0);
    uint32_t x = sym_u32("x"), x0 = x;
    uint64_t y = sym_u64("y");
    uint32_t tv = sym_u32("t");
    Token t(tv);
    Thing *p = static_cast<Thing *>(mem);
    if (arg == 0) allocator<Thing>(&r).construct(p, x, y, std::as_const(t));
    if (arg == 1) allocator<Thing>(&r).construct(p, uint32_t(x), y, std::move(t));
    if (arg == 2) allocator<char>(&r).construct(p, uint32_t(x), y, std::move(t));
    sym_assert(r.allocs == 0, "no memory is requested");
    sym_assert(p->a == x0 && p->b == y && p->t.v == tv && g_made == 1, "constructed from the arguments");
    sym_assert(x == x0 + (arg == 0), "lvalues are passed as lvalues");
    sym_assert(g_moves == (arg != 0) && g_copies == (arg == 0), "rvalues are moved from");
    uint32_t *q = static_cast<uint32_t *>(sym_object(4, 4, 0));
    allocator<Thing>(&r).construct(q, x0);
    sym_assert(*q == x0, "any type");
    sym_reach("construct");
}
