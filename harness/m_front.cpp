// memory_resource: what its public functions pass on to the implementation
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#include "sym.h"
using namespace utils::memory;
namespace
{
struct Call
{
    unsigned allocs = 0, frees = 0, compares = 0, destroyed = 0;
    uint64_t size = 0, align = 0, freed = 0;
    const void *self = nullptr, *other = nullptr;
};
// the memory_resource is not at the start of the object
struct Before
{
    uint64_t filler[3] = {1, 2, 3};
    virtual ~Before() = default;
};
template <int K>
struct Res : Before, memory_resource
{
    Call &c;
    uint64_t answer;
    bool same;
    Res(Call &call, uint64_t a, bool s) noexcept
        : memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>), c(call), answer(a), same(s)
    {
    }
    ~Res() override { ++c.destroyed; }
    bool is_equal(const memory_resource &o) const noexcept override
    {
        ++c.compares;
        c.self = static_cast<const memory_resource *>(this);
        c.other = &o;
        return same;
    }
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++c.allocs;
        c.size = s;
        c.align = a;
        c.self = this;
        return reinterpret_cast<void *>(answer);
    }
    void deallocate_impl(void *p) noexcept
    {
        ++c.frees;
        c.freed = reinterpret_cast<uint64_t>(p);
        c.self = this;
    }
};
struct Further : Res<1>
{
    using Res<1>::Res;
};
template <unsigned S, unsigned A>
struct alignas(A) Obj
{
    unsigned char b[S];
};
template <class T>
void *typed(memory_resource &r)
{
    return r.allocate<T>();
}
}  // namespace
// arg: 0 size and alignment, 1 size only, 2.. typed
extern "C" void h_front(uint64_t arg)
{
    Call call[3];
    uint64_t answer[3];
    bool same[3];
    for (unsigned i = 0; i < 3; ++i)
    {
        answer[i] = sym_u64("answer");
        same[i] = sym_bool("equal");
    }
    Res<0> r0(call[0], answer[0], same[0]);
    Res<1> r1(call[1], answer[1], same[1]);
    Further r2(call[2], answer[2], same[2]);
    memory_resource *r[3] = {&r0, &r1, &r2};
    const void *obj[3] = {&r0, &r1, static_cast<Res<1> *>(&r2)};
    unsigned k = (unsigned)sym_choose("which", 3);
    uint64_t n = sym_u64("size"), al = (uint64_t)1 << sym_choose("log2align", 64);
    void *p = nullptr;
    switch (arg)
    {
        case 0: p = r[k]->allocate(n, al); break;
        case 1: p = r[k]->allocate(n); al = alignof(std::max_align_t); break;
#define TYPED(i, T) case i: p = typed<T>(*r[k]); n = sizeof(T); al = alignof(T); break;
        TYPED(2, char)
        TYPED(3, short)
        TYPED(4, double)
        TYPED(5, long double)
        using O3 = Obj<3, 1>;
        using O24 = Obj<24, 8>;
        using O64 = Obj<5, 64>;
        using O4096 = Obj<9000, 4096>;
        TYPED(6, O3)
        TYPED(7, O24)
        TYPED(8, O64)
        TYPED(9, O4096)
    }
    const Call &c = call[k];
    sym_assert(c.allocs == 1, "the implementation is asked once");
    sym_assert(c.size == n, "for the requested size");
    sym_assert(c.align == al, "with the requested alignment");
    sym_assert(c.self == obj[k], "of that resource");
    sym_assert(reinterpret_cast<uint64_t>(p) == answer[k], "its answer is returned");
    uint64_t q = sym_u64("pointer");
    r[k]->deallocate(reinterpret_cast<void *>(q));
    sym_assert(c.frees == 1 && c.freed == q && c.self == obj[k], "deallocate() passes the pointer on, once");
    unsigned j = (unsigned)sym_choose("other", 3);
    bool eq = *r[k] == *r[j];
    sym_assert(eq == same[k], "resources are equal if is_equal() says so");
    sym_assert(c.self == r[k] && c.other == r[j], "is_equal() of the left one with the right one");
    bool ne = *r[k] != *r[j];
    sym_assert(ne != same[k], "and different if not");
    for (unsigned i = 0; i < 3; ++i)
        if (i != k)
            sym_assert(call[i].allocs == 0 && call[i].frees == 0, "no other resource is asked");
    sym_reach("front");
}
// a resource is destroyed through its base; arg: which one
extern "C" void h_front_delete(uint64_t arg)
{
    Call c;
    memory_resource *r;
    if (arg == 0) r = new Res<0>(c, 0, false);
    else r = new Further(c, 0, false);
    delete r;
    sym_assert(c.destroyed == 1, "destroying a resource through its base destroys all of it");
    sym_reach("deleted");
}
// the resources of the library equal exactly themselves
extern "C" void h_front_equal(uint64_t)
{
    alignas(16) std::byte b[4][64];
    simple_resource<4, 16> s1(b[0], 64, nullptr), s2(b[0], 64, nullptr);
    simple_resource<8, 8> s3(b[1], 64, nullptr);
    monotonic_buffer_resource m1(b[2], 64, nullptr), m2(b[2], 64, nullptr);
    memory_resource *r[] = {&s1, &s2, &s3, &m1, &m2, system_memory_resource(), null_memory_resource()};
    unsigned i = (unsigned)sym_choose("i", 7), j = (unsigned)sym_choose("j", 7);
    sym_assert((*r[i] == *r[j]) == (i == j), "resources equal exactly themselves");
    sym_assert((*r[i] != *r[j]) == (i != j), "and differ from all others");
    sym_assert(r[i]->is_equal(*r[j]) == (i == j), "is_equal");
    sym_reach("equal");
}
