// Misuse of the pool is detected: whatever live set there is, returning a
// pointer that is not a live allocation, or destroying the pool while memory
// is handed out, ends in an abort.
#include <new>

#include "pool.h"
#ifndef V_T
#define V_T 3
#endif
#ifndef V_LB
#define V_LB V_NB
#endif
static void layout(Drv &d)
{
    unsigned left = V_LB;
    while (left)
    {
        unsigned n = (unsigned)sym_choose("blocks", left + 1);
        if (!n) break;
        void *p = d.alloc((uint64_t)n * V_BS, 1);
        sym_assume(p != nullptr);
        left -= n;
    }
    unsigned n = d.nlive, drop = 0;
    if (n) drop = (unsigned)sym_choose("dropped subset", (uint64_t)1 << n);
    unsigned k = 0;
    for (unsigned i = 0; i < n; ++i)
        if ((drop >> i) & 1) d.free(k);
        else ++k;
}
// arg bit 0: with an upstream
extern "C" void h_bad_free(uint64_t arg)
{
    uint64_t b, s;
    any_buffer(b, s, V_NB, V_T);
    Up up;
    up.lo = b;
    up.hi = b + s;
    alignas(Pool) unsigned char mem[sizeof(Pool)];
    Pool &r = *new (mem) Pool(reinterpret_cast<std::byte *>(b), s, arg ? &up : nullptr);
    Drv d(r, arg ? &up : nullptr, V_NB);
    layout(d);
    uint64_t q = sym_u64("pointer");
    sym_assume(q != 0);
    for (unsigned i = 0; i < d.nlive; ++i)
        sym_assume(q != reinterpret_cast<uint64_t>(d.live[i].p));
    bool inside = (q >= b) & (q < b + s);
    bool odd = q & (V_BS - 1);
    bool must = inside | odd | (arg == 0);
    if (must)
    {
        sym_reach("bad pointer");
        sym_expect_abort(1);
        r.deallocate(reinterpret_cast<void *>(q));
        sym_expect_abort(0);
        sym_assert(false, "returning a pointer that is not a live allocation aborts");
    }
    else
    {
        r.deallocate(reinterpret_cast<void *>(q));
        sym_assert(up.frees == 1 && up.freed == q, "foreign pointers are the upstream's");
        sym_reach("upstream's pointer");
    }
}
extern "C" void h_null_free(uint64_t arg)
{
    uint64_t b, s;
    any_buffer(b, s, V_NB, V_T);
    Up up;
    alignas(Pool) unsigned char mem[sizeof(Pool)];
    Pool &r = *new (mem) Pool(reinterpret_cast<std::byte *>(b), s, arg ? &up : nullptr);
    Drv d(r, arg ? &up : nullptr, V_NB);
    layout(d);
    r.deallocate(nullptr);
    d.verify();
    sym_assert(up.frees == 0, "a null pointer is ignored");
    sym_reach("null");
}
extern "C" void h_destroy(uint64_t)
{
    uint64_t b, s;
    any_buffer(b, s, V_NB, V_T);
    alignas(Pool) unsigned char mem[sizeof(Pool)];
    Pool &r = *new (mem) Pool(reinterpret_cast<std::byte *>(b), s, nullptr);
    Drv d(r, nullptr, V_NB);
    layout(d);
    if (d.nlive)
    {
        sym_reach("busy");
        sym_expect_abort(1);
        r.~Pool();
        sym_expect_abort(0);
        sym_assert(false, "destroying a pool with live allocations aborts");
    }
    else
    {
        r.~Pool();
        sym_reach("idle");
    }
}
