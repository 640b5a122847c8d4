// allocator<T>: comparison, conversion
#include <utils/memory/allocator.h>

#include "sym.h"
using namespace utils::memory;
struct Res : memory_resource
{
    unsigned allocs = 0, frees = 0;
    uint64_t size = 0, align = 0, freed = 0;
    void *answer = nullptr;
    int group = 0;
    Res() noexcept : memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>) {}
    bool is_equal(const memory_resource &o) const noexcept override
    {
        return group == static_cast<const Res &>(o).group;
    }
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++allocs;
        size = s;
        align = a;
        return answer;
    }
    void deallocate_impl(void *p) noexcept
    {
        ++frees;
        freed = reinterpret_cast<uint64_t>(p);
    }
};
extern "C" void h_compare(uint64_t)
{
    Res r[3];
    r[0].group = 1;
    r[1].group = (int)sym_choose("same group", 2);
    r[2].group = 2;
    set_default_resource(&r[2]);
    unsigned i = (unsigned)sym_choose("i", 3), j = (unsigned)sym_choose("j", 3);
    bool same = r[i].group == r[j].group;
    allocator<int> a(&r[i]), b(&r[j]);
    allocator<long> c(&r[j]);
    sym_assert((a == b) == same && (a != b) == !same, "allocators are equal iff their resources are");
    sym_assert((b == a) == same && (b != a) == !same, "symmetrically");
    sym_assert((a == c) == same && (a != c) == !same, "whatever their value types");
    sym_assert((c == a) == same && (c != a) == !same, "in either order");
    allocator<char> d(a);
    allocator<int> e(a);
    sym_assert(d.resource() == &r[i] && e.resource() == &r[i], "copies use the same resource");
    sym_assert(d == a && e == a && a == d, "and are equal to the original");
    sym_assert(allocator<int>().resource() == &r[2], "the default resource otherwise");
    sym_reach("compare");
}
