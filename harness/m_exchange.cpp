// the default resource and the singletons, used by several threads at once
#include <utils/memory/memory.h>

#include <new>

#include "sym.h"
#ifndef V_SW
#define V_SW 6  // context switches
#endif
using namespace utils::memory;
struct Res : memory_resource
{
    uint64_t payload = 0;
    Res() noexcept : memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>) {}
    bool is_equal(const memory_resource &o) const noexcept override { return &o == this; }
    void *allocate_impl(std::size_t n, std::size_t) noexcept { return reinterpret_cast<void *>(payload + n); }
    void deallocate_impl(void *) noexcept {}
};
static memory_resource *g_old[3];
static Res g_r[3];
static void setter(void *a)
{
    int i = (int)(long)a;
    g_old[i] = set_default_resource(&g_r[i]);
}
// arg: the number of threads
extern "C" void h_exchange(uint64_t n)
{
    memory_resource *init = system_memory_resource();
    set_default_resource(init);
    for (uint64_t i = 0; i < n; ++i) sym_spawn(setter, (void *)i);
    sym_join(V_SW - (n > 2 ? 2 : 0));
    memory_resource *fin = get_default_resource();
    // every resource was replaced exactly once, or is the final one
    for (int k = -1; k < (int)n; ++k)
    {
        memory_resource *x = k < 0 ? init : &g_r[k];
        unsigned seen = fin == x;
        for (uint64_t i = 0; i < n; ++i) seen += g_old[i] == x;
        sym_assert(seen == 1, "every default is returned to exactly one later setter or is the current one");
    }
    sym_reach("exchange");
}

// a resource made by one thread is usable by those that get it
alignas(Res) static unsigned char g_mem[2][sizeof(Res)];
static uint64_t g_value[2];
static memory_resource *g_got[3][2];
static Res *made(int i) { return reinterpret_cast<Res *>(g_mem[i]); }
static void publish(void *a)
{
    int i = (int)(long)a;
    Res *r = new (g_mem[i]) Res();
    r->payload = g_value[i];
    memory_resource *old = set_default_resource(r);
    if (old == made(!i))
        sym_assert(old->allocate(3, 1) == reinterpret_cast<void *>(g_value[!i] + 3), "the previous default is usable by who gets it back");
}
static void use(void *a)
{
    int t = (int)(long)a;
    for (int k = 0; k < 2; ++k)
    {
        memory_resource *r = get_default_resource();
        g_got[t][k] = r;
        for (int i = 0; i < 2; ++i)
            if (r == made(i))
                sym_assert(r->allocate(5, 1) == reinterpret_cast<void *>(g_value[i] + 5), "the default resource is usable by whoever gets it");
    }
}
// arg 0: one makes a resource, one uses it; 1: two make one, one uses it;
// 2: two make one
extern "C" void h_publish(uint64_t arg)
{
    memory_resource *init = system_memory_resource();
    set_default_resource(init);
    for (auto &v : g_value) v = sym_u64("payload");
    sym_spawn(publish, (void *)0);
    if (arg != 0) sym_spawn(publish, (void *)1);
    if (arg != 2) sym_spawn(use, (void *)2);
    sym_join(V_SW - (arg == 1 ? 2 : 0));
    memory_resource *fin = get_default_resource();
    sym_assert(fin == made(0) || (arg != 0 && fin == made(1)), "the last one set is the default");
    if (arg != 2)
    {
        memory_resource *a = g_got[2][0], *b = g_got[2][1];
        sym_assert(a == init || a == made(0) || a == made(1), "the default is always one that was set");
        sym_assert(a == b || b != init, "never one that was already replaced");
        if (arg == 0 && a == made(0)) sym_assert(b == a, "never one that was already replaced");
        if (a == made(0) && b == made(1)) sym_assert(fin == b, "never one that was already replaced");
        if (a == made(1) && b == made(0)) sym_assert(fin == b, "never one that was already replaced");
    }
    sym_reach("published");
}
// the first use of the null resource, by several threads
static memory_resource *g_null[3];
static void first(void *a)
{
    int i = (int)(long)a;
    memory_resource *r = null_memory_resource();
    g_null[i] = r;
    sym_assert(r->allocate(8, 8) == nullptr, "the null resource is usable at once");
}
extern "C" void h_first(uint64_t n)
{
    for (uint64_t i = 0; i < n; ++i) sym_spawn(first, (void *)i);
    sym_join(V_SW - (n > 2 ? 2 : 0));
    for (uint64_t i = 0; i < n; ++i) sym_assert(g_null[i] == null_memory_resource(), "all threads see the same null resource");
    sym_reach("first");
}
