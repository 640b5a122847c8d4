#include "m_default.h"

#include "sym.h"
using namespace utils::memory;
struct Res : memory_resource
{
    Res() noexcept : memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>) {}
    bool is_equal(const memory_resource &o) const noexcept override { return &o == this; }
    void *allocate_impl(std::size_t, std::size_t) noexcept { return nullptr; }
    void deallocate_impl(void *) noexcept {}
};
static Res r1, r2;
// every history of operations by either translation unit
extern "C" void h_default(uint64_t)
{
    sym_assert(get_default_resource() == system_memory_resource(), "the system resource is the initial default");
    sym_assert(tu2_get() == tu2_system(), "in every translation unit");
    sym_assert(tu2_system() == system_memory_resource(), "one system resource in the program");
    sym_assert(tu2_null() == null_memory_resource(), "one null resource in the program");
    sym_assert(*tu2_system() == *system_memory_resource(), "which equals itself");
    memory_resource *cur = system_memory_resource();
    memory_resource *all[] = {&r1, &r2, null_memory_resource(), system_memory_resource(), nullptr};
    for (int i = 0; i < 3; ++i)
    {
        memory_resource *r = all[sym_choose("resource", 5)];
        memory_resource *old = sym_choose("unit", 2) ? tu2_set(r) : set_default_resource(r);
        sym_assert(old == cur, "set_default_resource returns the previous default");
        cur = r;
        sym_assert(get_default_resource() == cur && tu2_get() == cur, "every translation unit sees the new default");
        sym_assert(allocator<int>().resource() == cur && tu2_allocator() == cur, "and so do new allocators");
        sym_assert(allocator<int>(&r1).resource() == &r1, "unless given another one");
    }
    sym_reach("default");
}
