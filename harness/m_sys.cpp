// aligned_malloc/aligned_free, the system and the null resource and the
// default resource, against a nondeterministic operating system
#define VERIF_SYSOPS_CUSTOM 1
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>

#include "sym.h"
using namespace utils::memory;
namespace
{
struct os
{
    unsigned allocs = 0, frees = 0;
    uint64_t size = 0, align = 0, got = 0, freed = 0;
    bool failed = false, refused = false;
} g;
}  // namespace
namespace sysops::memory::ops
{
int posix_memalign(void **aPtr, std::size_t al, std::size_t size) noexcept
{
    ++g.allocs;
    g.size = size;
    g.align = al;
    g.failed = true;
    bool good = (al != 0) & ((al & (al - 1)) == 0) & (al % sizeof(void *) == 0);
    if (!good)
    {
        sym_reach("EINVAL");
        g.refused = true;
        return 22;
    }
    if (sym_bool("out of memory"))
    {
        // the value of *aPtr is unspecified then
        if (sym_bool("writes")) *aPtr = reinterpret_cast<void *>(sym_u64("junk"));
        return 12;
    }
    g.failed = false;
    uint64_t p = sym_u64("memory");
    bool aligned = (p & (al - 1)) == 0;
    sym_assume(aligned);
    sym_assume(p != 0);
    g.got = p;
    *aPtr = reinterpret_cast<void *>(p);
    return 0;
}
void free(void *aPtr) noexcept
{
    ++g.frees;
    g.freed = reinterpret_cast<uint64_t>(aPtr);
}
}  // namespace sysops::memory::ops

// arg 0: aligned_malloc/aligned_free; 1: through the system resource;
// 2: through an allocator for the default resource; 3: set back to the system
// resource explicitly
extern "C" void h_system(uint64_t arg)
{
    uint64_t n = sym_u64("size");
    uint64_t al = (uint64_t)1 << sym_choose("log2align", 64);
    void *p;
    if (arg == 0) p = aligned_malloc(n, al);
    else if (arg == 1) p = system_memory_resource()->allocate(n, al);
    else if (arg == 2) p = allocator<int>().allocate_bytes(n, al);
    else
    {
        set_default_resource(system_memory_resource());
        p = get_default_resource()->allocate(n, al);
    }
    sym_assert(g.allocs <= 1, "the operating system is asked at most once");
    uint64_t a = reinterpret_cast<uint64_t>(p);
    if (a)
    {
        sym_assert(g.allocs == 1 && !g.failed && a == g.got, "what the operating system returned is passed on");
        sym_assert(g.size >= n, "at least the requested size");
        bool ok = (a & (al - 1)) == 0;
        sym_assert(ok, "the requested alignment");
        sym_reach("got memory");
    }
    else
    {
        bool zero = n == 0;
        sym_assert((g.failed && !g.refused) || zero, "null only when the operating system has no memory");
        sym_reach("failed");
    }
    if (g.allocs && !g.failed && !a) sym_assert(g.frees == 1 && g.freed == g.got, "no leak");
    unsigned f0 = g.frees;
    if (arg == 0) aligned_free(p);
    else if (arg == 1) system_memory_resource()->deallocate(p);
    else if (arg == 2) allocator<int>().deallocate_bytes(p);
    else get_default_resource()->deallocate(p);
    sym_assert(g.frees == f0 + 1 || !p, "freed once");
    sym_assert(g.freed == a || !p, "the pointer itself is freed");
}
// an alignment the operating system refuses
extern "C" void h_system_bad(uint64_t)
{
    uint64_t al = sym_u64("align"), n = sym_u64("size");
    bool pow2 = (al & (al - 1)) == 0;
    sym_assume(al > sizeof(void *));
    sym_assume(!pow2);
    void *p = aligned_malloc(n, al);
    uint64_t a = reinterpret_cast<uint64_t>(p);
    bool ok = g.failed ? a == 0 : a == g.got;
    sym_assert(ok, "null when the operating system refuses");
    sym_reach("bad alignment");
}
extern "C" void h_null(uint64_t)
{
    memory_resource *r = null_memory_resource();
    sym_assert(r == null_memory_resource(), "one null resource");
    uint64_t n = sym_u64("size");
    uint64_t al = (uint64_t)1 << sym_choose("log2align", 64);
    void *p = r->allocate(n, al);
    sym_assert(p == nullptr, "the null resource never serves memory");
    sym_assert(r->allocate(n) == nullptr && r->allocate<long double>() == nullptr, "nor with defaults");
    r->deallocate(reinterpret_cast<void *>(sym_u64("ptr")));
    sym_assert(g.allocs == 0 && g.frees == 0, "and asks no one");
    memory_resource *s = system_memory_resource();
    sym_assert(*r == *r && *s == *s, "a resource equals itself");
    sym_assert(*r != *s && *s != *r && !(*r == *s), "and no other one");
    sym_assert(r->is_equal(*r) && !r->is_equal(*s) && !s->is_equal(*r) && s->is_equal(*s), "is_equal");
    sym_reach("null");
}
