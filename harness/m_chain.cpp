// resources over resources: a pool over a pool over a monotonic resource, used
// through the top (and by typed allocators), judged by nothing but the pointers
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#include "sym.h"
using namespace utils::memory;
using Upper = simple_resource<3, 16>;
using Lower = simple_resource<4, 8>;
static constexpr uint64_t kUpper = 48, kLower = 32, kLast = 56;
struct Block
{
    uint64_t a, n;
};
static uint64_t g_b[3];
static const uint64_t g_n[3] = {kUpper, kLower, kLast};
static bool inside(uint64_t a, uint64_t n, int k)
{
    uint64_t o = a - g_b[k];
    return (o < g_n[k]) & (n <= g_n[k] - o);
}
static bool disjoint(const Block &x, const Block &y)
{
    return (x.a - y.a >= y.n) & (y.a - x.a >= x.n);
}
static uint64_t any_base(const char *name, unsigned t)
{
    uint64_t b = (sym_u64(name) << ((t + 1) & 63)) | ((uint64_t)1 << t);
    sym_assume(b >> 41);
    sym_assume(b <= (uint64_t)-1 - 4096);
    return b;
}
static Block g_live[6];
static unsigned g_count;
template <typename A>
static void got(void *p, uint64_t n, uint64_t al, const A &)
{
    uint64_t a = reinterpret_cast<uint64_t>(p);
    bool aligned = (a & (al - 1)) == 0;
    sym_assert(aligned, "memory of a chain of resources has the requested alignment");
    bool in = inside(a, n, 0) | inside(a, n, 1) | inside(a, n, 2);
    sym_assert(in, "it lies in the buffer of one of them");
    bool free = true;
    for (unsigned i = 0; i < g_count; ++i) free = free & disjoint(g_live[i], Block{a, n});
    sym_assert(free, "and overlaps nothing that is live");
}
// arg: bits 0-3 placement of the buffers; then operations in base 4: 1 allocate
// anything, 2 return the oldest, 3 return the newest
extern "C" void h_chain(uint64_t arg)
{
    // three buffers of one arena at any address that is a multiple of 4096
    static const unsigned t[4][3] = {{0, 64, 128}, {208, 168, 19}, {32, 248, 128}, {16, 128, 64}};
    uint64_t arena = any_base("arena", 12);
    for (int i = 0; i < 3; ++i) g_b[i] = arena + t[arg & 3][i];
    g_count = 0;
    memory_resource *none = null_memory_resource();
    monotonic_buffer_resource last(reinterpret_cast<std::byte *>(g_b[2]), kLast, none);
    Lower lower(reinterpret_cast<std::byte *>(g_b[1]), kLower, &last);
    Upper upper(reinterpret_cast<std::byte *>(g_b[0]), kUpper, &lower);
    sym_assert(upper.size() == kUpper && lower.size() == kLower && last.size() == kLast, "all of each buffer is managed");
    for (uint64_t o = arg >> 4; o; o /= 4)
    {
        if (o % 4 == 1)
        {
            uint64_t n = sym_u64("size");
            uint64_t al = (uint64_t)1 << (sym_choose("alignment", 3) * 3);
            void *p = upper.allocate(n, al);
            if (!p) continue;
            got(p, n, al, upper);
            // one path for each place
            uint64_t a = reinterpret_cast<uint64_t>(p);
            for (int k = 0; k < 3; ++k)
                if (a - g_b[k] < g_n[k]) a = g_b[k] + sym_concretize(a - g_b[k]);
            g_live[g_count++] = Block{a, n};
            sym_reach("allocated");
        }
        else if (g_count)
        {
            unsigned k = o % 4 == 2 ? 0 : g_count - 1;
            upper.deallocate(reinterpret_cast<void *>(g_live[k].a));
            for (unsigned i = k; i + 1 < g_count; ++i) g_live[i] = g_live[i + 1];
            --g_count;
            sym_reach("returned");
        }
    }
    while (g_count) upper.deallocate(reinterpret_cast<void *>(g_live[--g_count].a));
    sym_assert(upper.busy_count() == 0 && lower.busy_count() == 0, "everything is back where it came from");
    sym_assert(upper.free_count() == 1 && lower.free_count() == 1, "in one piece");
    sym_reach("all returned");
}
// a pool whose buffer is itself memory of another pool, with typed allocators
// on both.  arg: the order of returning
template <typename T>
static T *object(allocator<int> &al, unsigned k)
{
    (void)k;
    return al.allocate_object<T>(1);
}
struct alignas(16) Big
{
    unsigned char x[24];
};
extern "C" void h_nested(uint64_t arg)
{
    using Outer = simple_resource<12, 16>;
    using Inner = simple_resource<4, 8>;
    uint64_t b = any_base("buffer", arg & 8 ? 4 : 12);
    memory_resource *none = null_memory_resource();
    Outer outer(reinterpret_cast<std::byte *>(b), 192, none);
    g_b[0] = b;
    uint64_t first = arg % 4 * 17;
    void *f = outer.allocate(first, 1);
    void *mem = outer.allocate(64, 16);
    sym_assert(mem != nullptr, "there is room");
    uint64_t m = b + sym_concretize(reinterpret_cast<uint64_t>(mem) - b);
    {
        Inner inner(reinterpret_cast<std::byte *>(m), 64, &outer);
        allocator<int> ia(&inner), oa(&outer);
        Big *x = oa.allocate_object<Big>(1);
        uint64_t n = sym_u64("count");
        uint64_t *y = ia.allocate_object<uint64_t>(n);
        Big *z = ia.allocate_object<Big>(1);
        g_count = 0;
        if (first) g_live[g_count++] = Block{b, first};
        uint64_t o0 = reinterpret_cast<uint64_t>(x) - b, o1 = reinterpret_cast<uint64_t>(y) - b, o2 = reinterpret_cast<uint64_t>(z) - b;
        Block bx{b + o0, sizeof(Big)}, by{b + o1, n * 8}, bz{b + o2, sizeof(Big)}, bm{m, 64}, bi{m, inner.size()};
        sym_assert(x && disjoint(bx, bm), "memory of the outer pool is apart from the buffer of the inner one");
        sym_assert(o0 <= 192 - sizeof(Big) && (b + o0) % 16 == 0, "and in the outer buffer");
        if (y)
        {
            sym_assert(n <= 24 && o1 <= 192 && n * 8 <= 192 - o1, "an array lies in one of the buffers");
            sym_assert(disjoint(by, bx), "apart from other objects");
            sym_assert(by.a - bi.a < bi.n || disjoint(by, bm), "in or out of the inner one");
            sym_reach("array");
        }
        if (z)
        {
            sym_assert(o2 <= 192 - sizeof(Big) && (b + o2) % 16 == 0, "an object has its alignment, in the outer buffer");
            sym_assert(disjoint(bz, bx), "apart from other objects");
            if (y) sym_assert(disjoint(bz, by), "and from the array");
            sym_reach("object");
        }
        if (arg & 4)
        {
            if (y) ia.deallocate_object(y);
            if (z) ia.deallocate_object(z);
        }
        else
        {
            if (z) ia.deallocate_object(z);
            if (y) ia.deallocate_object(y);
        }
        oa.deallocate_object(x);
        sym_assert(inner.busy_count() == 0 && inner.free_count() == 1, "the inner pool has everything back");
    }
    outer.deallocate(reinterpret_cast<void *>(m));
    outer.deallocate(f);
    sym_assert(outer.busy_count() == 0 && outer.free_count() == 1, "the outer pool has everything back");
    sym_reach("all returned");
}
