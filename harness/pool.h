// simple_resource driven through its public interface against a shadow model.
// The buffer is an opaque range [B, B+S): its address and size are symbolic
// and it is never backed by memory, so any access to it is reported.
#pragma once
#include <utils/memory/simple_resource.h>

#include "sym.h"
#ifndef V_NB
#define V_NB 4
#endif
#ifndef V_BS
#define V_BS 8
#endif
#ifndef V_PROP
#define V_PROP 0
#endif
#ifndef V_MAX
#define V_MAX V_NB  // maximum number of blocks; V_NB is the number there are
#endif
// a failing condition of this check's own property is a violation; paths on
// which a different property already failed are left to that property's check
#define CHK(p, c, msg)                     \
    do                                     \
    {                                      \
        if (V_PROP == (p) || V_PROP == 0)      \
            sym_assert((c), msg);          \
        else                               \
            sym_assume((c));               \
    } while (0)

// ... or, where the harness can go on regardless, not looked at
#define OBS(p, c, msg)                     \
    do                                     \
    {                                      \
        if (V_PROP == (p) || V_PROP == 0)      \
            sym_assert((c), msg);          \
    } while (0)

using utils::memory::memory_resource;
using Pool = utils::memory::simple_resource<V_MAX, V_BS>;
using BIndex = Pool::BIndex;

// upstream: hands out arbitrary pointers that satisfy the memory_resource
// contract (aligned as requested, disjoint from the pool's buffer) or null
class Up : public memory_resource
{
    friend class memory_resource;

   public:
    uint64_t lo = 0, hi = 0;  // pool buffer
    unsigned allocs = 0, frees = 0;
    uint64_t size = 0, align = 0, result = 0, freed = 0;
    bool may_fail = true;
    Up() noexcept : memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>) {}
    bool is_equal(const memory_resource &o) const noexcept override { return &o == this; }

   private:
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++allocs;
        size = s;
        align = a;
        uint64_t p = sym_u64("up");
        bool aligned = (p & (a - 1)) == 0;
        bool outside = (p >= hi) | (p < lo);
        sym_assume(aligned);
        sym_assume(outside);
        if (!may_fail) sym_assume(p != 0);
        result = p;
        return reinterpret_cast<void *>(p);
    }
    void deallocate_impl(void *p) noexcept
    {
        ++frees;
        freed = reinterpret_cast<uint64_t>(p);
    }
};

struct Live
{
    void *p;
    uint64_t size;
    bool pool;
    unsigned first, n;
};

struct Drv
{
    Pool &r;
    Up *up;
    unsigned nb;         // number of blocks of the resource
    uint64_t base;       // data()
    int owner[V_NB + 1];   // 0 free, else id of the live allocation
    Live live[V_NB + 4];
    unsigned nlive = 0;
    int nextid = 1;
    int ids[V_NB + 4];

    Drv(Pool &p, Up *u, unsigned n) : r(p), up(u), nb(n)
    {
        base = reinterpret_cast<uint64_t>(r.data());
        for (auto &o : owner) o = 0;
    }
    unsigned runs() const
    {
        unsigned k = 0;
        for (unsigned i = 0; i < nb; ++i)
            if (!owner[i] && (i == 0 || owner[i - 1])) ++k;
        return k;
    }
    unsigned busy() const
    {
        unsigned k = 0;
        for (unsigned i = 0; i < nlive; ++i) k += live[i].pool;
        return k;
    }
    // the bookkeeping visible through the public interface
    void verify()
    {
        if (V_PROP != 3 && V_PROP != 0) return;
        OBS(3, r.busy_count() == busy(), "busy_count() is the number of live allocations");
        OBS(3, r.free_count() == runs(), "free_count() is the number of maximal free regions");
        if (nb == 0) return;
        unsigned i = 0, steps = 0;
        do
        {
            unsigned n = (unsigned)sym_concretize(r.block_size((BIndex)i));
            OBS(3, n > 0 && i + n <= nb, "regions lie inside the resource");
            bool used = r.in_use((BIndex)i);
            OBS(3, used == (owner[i] != 0), "in_use() tells which regions are allocated");
            for (unsigned k = i + 1; k < i + n; ++k)
                OBS(3, owner[k] == owner[i], "a region is one allocation or one free range");
            if (i + n < nb)
                OBS(3, owner[i + n] != owner[i], "a region extends over the whole allocation or free range");
            i += n;
            ++steps;
        } while (i < nb && steps <= V_NB);
        OBS(3, i == nb, "the regions cover the resource");
    }
    // is there room? (strict: some aligned address; sure: by position only)
    bool fits(uint64_t size, uint64_t align) const
    {
        bool f = false;
        for (unsigned i = 0; i < nb; ++i)
        {
            if (owner[i]) continue;
            unsigned e = i;
            while (e < nb && !owner[e]) ++e;
            bool al = ((base + (uint64_t)i * V_BS) & (align - 1)) == 0;
            bool sz = size <= (uint64_t)(e - i) * V_BS;
            f |= al & sz;
        }
        return f;
    }
    // alignment every buffer of this length at an equally aligned address has
    bool guaranteed(uint64_t align) const
    {
        uint64_t a = base & (~base + 1);
        return align <= a + ((uint64_t)nb * V_BS - 1);
    }
    void *alloc(uint64_t size, uint64_t align)
    {
        bool fit = nb ? fits(size, align) : false;
        bool sure = nb ? (fit & guaranteed(align)) : false;
        unsigned ua = up ? up->allocs : 0;
        void *p = r.allocate(size, align);
        uint64_t a = reinterpret_cast<uint64_t>(p);
        bool asked_up = up && up->allocs != ua;
        if (size == 0)
        {
            CHK(7, p == nullptr, "a request of 0 bytes yields a null pointer");
            OBS(7, !asked_up, "a request of 0 bytes is not delegated");
            return p;
        }
        CHK(7, !asked_up || up->allocs == ua + 1, "at most one upstream request");
        if (asked_up)
        {
            OBS(4, !sure, "a request that fits a free region is served from the buffer");
            CHK(7, a == up->result, "the upstream's pointer is returned unchanged");
            OBS(7, up->size >= size, "the upstream is asked for at least the requested size");
            OBS(2, up->align >= align && (up->align & (up->align - 1)) == 0,
                "the upstream is asked for at least the requested alignment");
            if (p)
            {
                OBS(2, (a & (align - 1)) == 0, "the pointer has the requested alignment");
                Live &l = live[nlive];
                l.p = p;
                l.size = size;
                l.pool = false;
                ids[nlive++] = nextid++;
                sym_reach("served upstream");
            }
            return p;
        }
        if (!p)
        {
            OBS(4, !sure, "a request that fits a free region is served");
            OBS(7, up == nullptr, "without room the upstream is asked");
            sym_reach("refused");
            return p;
        }
        OBS(2, (a & (align - 1)) == 0, "the pointer has the requested alignment");
        uint64_t off = a - base;
        CHK(1, off < (uint64_t)nb * V_BS && size <= (uint64_t)nb * V_BS - off,
            "the memory lies inside the managed buffer");
        // one path per offset; from here on the pointer is written base + offset
        off = sym_concretize(off);
        p = reinterpret_cast<void *>(base + off);
        CHK(2, off % V_BS == 0, "served memory starts at a block");
        unsigned first = (unsigned)(off / V_BS);
        unsigned last = (unsigned)sym_concretize((off + size - 1) / V_BS);
        bool clash = false;
        for (unsigned i = first; i <= last; ++i) clash |= owner[i] != 0;
        CHK(1, !clash, "the memory does not overlap a live allocation");
        Live &l = live[nlive];
        l.p = p;
        l.size = size;
        l.pool = true;
        l.first = first;
        l.n = last - first + 1;
        for (unsigned i = first; i <= last; ++i) owner[i] = nextid;
        ids[nlive++] = nextid++;
        sym_reach("served from the buffer");
        sym_observe("off", off);
        return p;
    }
    void free(unsigned k)
    {
        Live l = live[k];
        unsigned uf = up ? up->frees : 0;
        r.deallocate(l.p);
        if (l.pool)
        {
            OBS(7, !up || up->frees == uf, "memory of the buffer is not given to the upstream");
            for (unsigned i = l.first; i < l.first + l.n; ++i) owner[i] = 0;
            sym_reach("freed");
        }
        else
        {
            OBS(7, up->frees == uf + 1 && up->freed == reinterpret_cast<uint64_t>(l.p),
                "upstream memory is returned to the upstream, once");
            sym_reach("freed upstream");
        }
        for (unsigned i = k; i + 1 < nlive; ++i)
        {
            live[i] = live[i + 1];
            ids[i] = ids[i + 1];
        }
        --nlive;
    }
    void forget_pool()
    {
        for (auto &o : owner) o = 0;
        unsigned j = 0;
        for (unsigned i = 0; i < nlive; ++i)
            if (!live[i].pool) live[j++] = live[i];
        nlive = j;
    }
};

// an arbitrary buffer for exactly nb blocks at any address of the form
// odd * 2^t (t >= log2(V_BS)), no slack on either side ...
static inline void any_buffer(uint64_t &b, uint64_t &s, unsigned nb, unsigned t)
{
    b = t < 63 ? sym_u64("odd part of buf") << ((t + 1) & 63) : 0;
    b |= (uint64_t)1 << t;
    s = (uint64_t)nb * V_BS;
    sym_assume(b >> 41);  // not null, not among the executor's own objects
    sym_assume(b <= (uint64_t)-1 - 2 * V_NB * V_BS);
}
// ... or any buffer at all (nb == V_NB: V_NB blocks or more)
static inline void odd_buffer(uint64_t &b, uint64_t &s, unsigned nb)
{
    b = sym_u64("buf");
    s = sym_u64("bufsize");
    sym_assume(b >> 41);
    sym_assume(b + s >= b);
    uint64_t skip = (0 - b) & (V_BS - 1);
    sym_assume(skip <= s);
    uint64_t n = (s - skip) / V_BS;
    if (nb == V_NB) sym_assume(n >= V_NB);
    else sym_assume(n == nb);
}
// any power of two; up to V_BS and above V_MAXAL symbolic, one path each between
#ifndef V_MAXAL
#define V_MAXAL (V_BS <= 8 ? 5 : 6)  // log2
#endif
static inline uint64_t any_align()
{
    unsigned lo = 0;
    while (((uint64_t)1 << lo) < V_BS) ++lo;
    uint64_t c = sym_choose("alignment class", V_MAXAL - lo + 2);
    if (c && c <= V_MAXAL - lo) return (uint64_t)1 << (lo + c);
    uint64_t x = sym_u64("align");
    sym_assume(x != 0);
    sym_assume((x & (x - 1)) == 0);
    if (c) sym_assume(x >> (V_MAXAL + 1));
    else sym_assume(x <= V_BS);
    return x;
}
