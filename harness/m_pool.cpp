#include "pool.h"

#ifndef V_OPS
#define V_OPS 3
#endif
#ifndef V_T
#define V_T 3
#endif
static const uint64_t kBS = V_BS;

// how a request is made: block granular (any size, alignment <= block) or any
static void *request(Drv &d, bool any)
{
    uint64_t n = sym_u64("size");
    if (any) return d.alloc(n, any_align());
    return d.alloc(n, V_BS);
}
static void drain(Drv &d)
{
    while (d.nlive)
    {
        d.free((unsigned)sym_choose("which", d.nlive));
        d.verify();
    }
}

// every history of V_OPS operations from a fresh resource of `nb` blocks
// arg: bits 0..3 nb, 4 upstream, 5 any alignment, 8..: the operations
// (bit i set: operation i is a deallocation)
extern "C" void h_hist(uint64_t arg)
{
    unsigned nb = arg & 15;
    bool with_up = (arg >> 4) & 1, any = (arg >> 5) & 1;
    uint64_t b, s;
    any_buffer(b, s, nb, V_T);
    Up up;
    up.lo = b;
    up.hi = b + s;
    {
        Pool r(reinterpret_cast<std::byte *>(b), s, with_up ? &up : nullptr);
        Drv d(r, with_up ? &up : nullptr, nb);
        for (int i = 0; i < V_OPS; ++i)
        {
            if ((arg >> (8 + i)) & 1)
                d.free((unsigned)sym_choose("which", d.nlive));
            else
                request(d, any);
            d.verify();
        }
        sym_reach("history done");
        while (d.nlive) d.free(d.nlive - 1);
        d.verify();
    }
    sym_reach("destroyed");
}

// an arbitrary layout: blocks handed out one after another with arbitrary
// sizes, then an arbitrary subset returned, in either order
// forced: 0, or 1 + the number of blocks of the first allocation (so that the
// layouts can be divided among processes)
static void layout(Drv &d, unsigned forced = 0)
{
    while (true)
    {
        unsigned used = 0;
        for (unsigned i = 0; i < d.nb; ++i) used += d.owner[i] != 0;
        unsigned room = d.nb - used;
        if (!room) break;
        unsigned n = forced ? forced - 1 : (unsigned)sym_choose("blocks", room + 1);
        forced = 0;
        if (!n) break;
        // the extreme sizes of that many blocks (any size: h_hist)
        uint64_t bytes = room & 1 ? n * V_BS : (n - 1) * V_BS + 1;
        void *p = d.alloc(bytes, 1);
        sym_assume(p != nullptr);
    }
    unsigned drop = 0, n = d.nlive;
    if (n) drop = (unsigned)sym_choose("dropped subset", (uint64_t)1 << n);
    bool rev = (drop & (drop - 1)) ? sym_choose("in reverse", 2) : false;
    int id[V_NB + 4];
    for (unsigned i = 0; i < n; ++i) id[i] = d.ids[i];
    for (unsigned j = 0; j < n; ++j)
    {
        unsigned i = rev ? n - 1 - j : j;
        if (!((drop >> i) & 1)) continue;
        for (unsigned k = 0; k < d.nlive; ++k)
            if (d.ids[k] == id[i])
            {
                d.free(k);
                break;
            }
    }
}
// one more operation from an arbitrary layout
// arg: bits 0..3 operation (0 allocate, 1 deallocate, 2 release, 3 deallocate
// two and allocate, 4 allocate anything, deallocate one and allocate blocks),
// 4 upstream, 8.. `forced` of layout()
extern "C" void h_step(uint64_t arg)
{
    unsigned nb = V_NB, op = arg & 15;
    bool with_up = (arg >> 4) & 1;
    uint64_t b, s;
    any_buffer(b, s, nb, V_T);
    Up up;
    up.lo = b;
    up.hi = b + s;
    {
        Pool r(reinterpret_cast<std::byte *>(b), s, with_up ? &up : nullptr);
        Drv d(r, with_up ? &up : nullptr, nb);
        layout(d, (unsigned)(arg >> 8));
        d.verify();
        if (op == 0)
        {
            request(d, true);
            d.verify();
        }
        else if (op == 1)
        {
            sym_assume(d.nlive > 0);
            d.free((unsigned)sym_choose("which", d.nlive));
            d.verify();
        }
        else if (op == 3)
        {
            sym_assume(d.nlive > 1);
            d.free((unsigned)sym_choose("which", d.nlive));
            d.free((unsigned)sym_choose("which", d.nlive));
            d.verify();
            // block granular, so that it must be served if some region is
            // large enough
            d.alloc((1 + sym_choose("blocks", nb)) * V_BS, V_BS);
            d.verify();
        }
        else if (op == 4)
        {
            // aligned, then one goes back, then anything block granular
            request(d, true);
            sym_assume(d.nlive > 0);
            d.free((unsigned)sym_choose("which", d.nlive));
            d.verify();
            d.alloc((1 + sym_choose("blocks", nb)) * V_BS, V_BS);
            d.verify();
        }
        sym_reach("step");
        if (op == 2)
        {
            r.release();
            d.forget_pool();
            CHK(5, r.busy_count() == 0, "release() leaves no allocation");
            d.verify();
            sym_reach("released");
            // and everything is available again
            uint64_t n = sym_u64("size");
            sym_assume(n > 0);
            sym_assume(n <= (uint64_t)nb * V_BS);
            void *p = d.alloc(n, 1);
            CHK(5, p == r.data(), "after release() the whole buffer is available");
            d.verify();
        }
        while (d.nlive) d.free(d.nlive - 1);
        d.verify();
    }
    sym_reach("destroyed");
}

// resources whose number of blocks is at the limits of the index types: two
// allocations that fill the resource, returned in either order, and a third
extern "C" void h_big(uint64_t arg)
{
    uint64_t b, s;
    any_buffer(b, s, V_NB, V_T);
    Pool r(reinterpret_cast<std::byte *>(b), s, nullptr);
    CHK(8, r.size() == s, "size() is the number of whole aligned blocks");
    static const unsigned pick[] = {1, 2, V_NB / 2, (unsigned)(V_NB - 2), V_NB - 1, V_NB};
    unsigned n = pick[arg % 6];
    OBS(V_PROP == 8 ? 8 : 3, r.block_size(0) == V_NB, "the free region is the whole buffer");
    CHK(3, r.free_count() == 1, "one free region");
    if (!n || n > V_NB) return;
    uint64_t less = sym_u64("less");
    sym_assume(less < V_BS);
    void *p = r.allocate((uint64_t)n * V_BS - less, 1);
    CHK(4, reinterpret_cast<uint64_t>(p) == b, "a request that fits a free region is served");
    CHK(3, r.block_size(0) == n && r.in_use(0), "the region is the allocation");
    CHK(3, r.busy_count() == 1, "busy_count() is the number of live allocations");
    CHK(3, r.free_count() == (n < V_NB), "free_count() is the number of free regions");
    void *q = nullptr;
    if (n < V_NB)
    {
        CHK(3, r.block_size((BIndex)n) == V_NB - n && !r.in_use((BIndex)n), "the rest is free");
        CHK(1, r.allocate((uint64_t)(V_NB - n) * V_BS + 1, 1) == nullptr, "no more than the rest is handed out");
        q = r.allocate((uint64_t)(V_NB - n) * V_BS - less, 1);
        CHK(4, reinterpret_cast<uint64_t>(q) == b + (uint64_t)n * V_BS, "the rest is handed out");
        CHK(3, r.in_use((BIndex)n) && r.block_size((BIndex)n) == V_NB - n, "the region is the allocation");
        CHK(3, r.busy_count() == 2 && r.free_count() == 0, "the counts");
    }
    CHK(1, r.allocate(1, 1) == nullptr, "nothing is left");
    bool rev = sym_choose("in reverse", 2), rel = sym_choose("release", 2);
    if (rel) r.release();
    else if (rev)
    {
        r.deallocate(q);
        r.deallocate(p);
    }
    else
    {
        r.deallocate(p);
        if (q) CHK(3, r.free_count() == 1, "the counts");
        r.deallocate(q);
    }
    if (rel)
    {
        CHK(5, r.busy_count() == 0 && r.free_count() == 1, "release() leaves one free region");
        CHK(5, r.block_size(0) == V_NB && !r.in_use(0), "of all blocks");
    }
    else
    {
        CHK(3, r.busy_count() == 0 && r.free_count() == 1, "everything merges into one free region");
        CHK(3, r.block_size(0) == V_NB && !r.in_use(0), "of all blocks");
    }
    p = r.allocate((uint64_t)V_NB * V_BS, 1);
    if (rel) CHK(5, reinterpret_cast<uint64_t>(p) == b, "after release() the whole buffer is available");
    else CHK(4, reinterpret_cast<uint64_t>(p) == b, "the whole buffer is available again");
    r.deallocate(p);
    sym_reach("big");
}
// as many allocations as there are blocks, the most there can be: every other
// one is returned, then the rest
extern "C" void h_full(uint64_t arg)
{
    // (one buffer; any buffer: h_big)
    const uint64_t b = (uint64_t)0x5555 << 32, s = (uint64_t)V_NB * V_BS;
    Pool r(reinterpret_cast<std::byte *>(b), s, nullptr);
    OBS(3, r.block_size(0) == V_NB && !r.in_use(0) && r.free_count() == 1, "one free region of all blocks");
    static void *of[V_NB + 1];  // who has a block
    for (auto &o : of) o = nullptr;
    const uint64_t n = arg & 8 ? 1 : V_BS;  // (any size: h_step)
    for (unsigned i = 0; i < V_NB; ++i)
    {
        void *p = r.allocate(n, 1);
        CHK(4, p != nullptr, "a request that fits a free region is served");
        uint64_t at = sym_concretize(reinterpret_cast<uint64_t>(p) - b);
        CHK(1, at < V_NB * V_BS && n <= V_NB * V_BS - at, "the memory lies in the buffer");
        CHK(2, at % V_BS == 0, "memory of the buffer starts at a block");
        CHK(1, !of[at / V_BS], "the memory overlaps no live allocation");
        of[at / V_BS] = p;
    }
    CHK(3, r.busy_count() == V_NB, "busy_count() is the number of live allocations");
    CHK(3, r.free_count() == 0, "nothing is free");
    CHK(1, r.allocate(n, 1) == nullptr, "nothing is left");
    for (unsigned i = 0; i < V_NB; ++i)
        CHK(3, r.in_use((BIndex)i) && r.block_size((BIndex)i) == 1, "a region is one allocation");
    // bits 0, 1: every other one goes back (even or odd ones), or a hole of two
    unsigned odd = arg & 1;
    unsigned k = 0;
    if (arg & 2)
    {
        // a hole of one block, then of two, at any place of an index type's limits
        static const unsigned at[] = {0, 1, 62, 63, 64, 126, 127, 128, V_NB / 2, V_NB - 4u, V_NB - 3u, V_NB - 2u};
        unsigned h = at[sym_choose("hole", sizeof(at) / sizeof(*at))];
        if (h > V_NB - 2) return;
        r.deallocate(of[h + odd]);
        CHK(3, r.busy_count() == V_NB - 1 && r.free_count() == 1, "the counts");
        CHK(3, !r.in_use((BIndex)(h + odd)) && r.block_size((BIndex)(h + odd)) == 1, "the hole");
        r.deallocate(of[h + !odd]);
        CHK(3, r.busy_count() == V_NB - 2 && r.free_count() == 1, "two adjacent free blocks are one region");
        CHK(3, !r.in_use((BIndex)h) && r.block_size((BIndex)h) == 2, "the hole");
        uint64_t m = sym_u64("size");
        sym_assume(m != 0);
        void *p = r.allocate(m, 1);
        if (m <= 2 * V_BS)
        {
            CHK(4, p == of[h], "a request that fits a free region is served");
            unsigned w = m <= V_BS ? 1 : 2;
            CHK(3, r.busy_count() == V_NB - 1 && r.free_count() == 2 - w, "the counts");
            CHK(3, r.in_use((BIndex)h) && r.block_size((BIndex)h) == w, "the region is the allocation");
            of[h] = p;
            of[h + 1] = nullptr;
        }
        else
        {
            CHK(1, p == nullptr, "no more than the hole is handed out");
            of[h] = of[h + 1] = nullptr;
        }
        sym_reach("hole");
    }
    else
    {
        for (unsigned i = odd; i < V_NB; i += 2, ++k)
        {
            r.deallocate(of[i]);
            of[i] = nullptr;
        }
        CHK(3, r.busy_count() == V_NB - k, "busy_count() is the number of live allocations");
        CHK(3, r.free_count() == k, "free_count() is the number of free regions");
        for (unsigned i = 0; i < V_NB; ++i)
            CHK(3, r.in_use((BIndex)i) == (i % 2 != odd) && r.block_size((BIndex)i) == 1, "a region is one allocation or one free range");
        // one block at most, aligned somehow
        static const uint64_t al[] = {1, V_BS, 4 * V_BS, 64 * V_BS};
        uint64_t m = sym_u64("size"), a = al[sym_choose("alignment", 4)];
        sym_assume(m != 0);
        void *p = r.allocate(m, a);
        if (m > V_BS) CHK(1, p == nullptr, "no two adjacent blocks are free");
        else
        {
            // of the free blocks (every other one) some are aligned if the
            // even ones are free
            CHK(4, p != nullptr || (odd && a > V_BS), "a request that fits a free region is served");
            if (p)
            {
                uint64_t o = sym_concretize(reinterpret_cast<uint64_t>(p) - b);
                CHK(1, o < V_NB * V_BS && !of[o / V_BS], "the memory overlaps no live allocation");
                CHK(2, o % V_BS == 0 && (b + o) % a == 0, "the memory is aligned");
                of[o / V_BS] = p;
                CHK(3, r.busy_count() == V_NB - k + 1 && r.free_count() == k - 1, "the counts");
            }
        }
    }
    if (arg & 4) r.release();
    else
    {
        bool rev = sym_choose("in reverse", 2);
        for (unsigned j = 0; j < V_NB; ++j) r.deallocate(of[rev ? V_NB - 1 - j : j]);
    }
    const int q = arg & 4 ? 5 : 3;
    CHK(q, r.busy_count() == 0 && r.free_count() == 1, "one free region is left");
    CHK(q, r.block_size(0) == V_NB && !r.in_use(0), "of all blocks");
    void *p = r.allocate((uint64_t)V_NB * V_BS, 1);
    CHK(4, reinterpret_cast<uint64_t>(p) == b, "the whole buffer is available again");
    r.deallocate(p);
    sym_reach("full");
}
