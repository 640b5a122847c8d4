// The pool and the monotonic resource can be built over any buffer.
#include <new>

#include "pool.h"
// arg bit 0: default upstream; bits 1..: null buffer, zero size, array
extern "C" void h_build(uint64_t arg)
{
    bool dflt = arg & 1;
    unsigned kind = arg >> 1;
    uint64_t b = sym_u64("buf"), s = sym_u64("bufsize");
    if (kind == 1) b = 0;
    else sym_assume(b >> 41);
    if (kind == 2) s = 0;
    if (kind == 3) s = V_NB * V_BS + 5;
    if (kind == 4) s = 2 * V_BS;
    if (kind != 1)
    {
        sym_assume(s <= ~(uint64_t)0 - 4 * V_BS);
        sym_assume(b <= ~(uint64_t)0 - 4 * V_BS - s);
    }
    Up up, other;
    up.lo = b;
    up.hi = b + s;
    up.may_fail = false;
    auto *old = utils::memory::set_default_resource(dflt ? &up : &other);
    std::byte *p = reinterpret_cast<std::byte *>(b);
    alignas(Pool) unsigned char mem[sizeof(Pool)];
#if V_BS <= 4096
    if (kind == 3)
    {
        auto &a = *reinterpret_cast<std::byte(*)[V_NB * V_BS + 5]>(b);
        if (dflt) new (mem) Pool(a);
        else new (mem) Pool(a, &up);
    }
    else if (kind == 4)
    {
        auto &a = *reinterpret_cast<std::byte(*)[2 * V_BS]>(b);
        if (dflt) new (mem) Pool(a);
        else new (mem) Pool(a, &up);
    }
    else
#endif
    {
        if (dflt) new (mem) Pool(p, s);
        else new (mem) Pool(p, s, &up);
    }
    // the default resource of the moment of construction is what counts
    utils::memory::set_default_resource(&other);
    Pool &r = *std::launder(reinterpret_cast<Pool *>(mem));
    uint64_t skip = (0 - b) & (V_BS - 1);
    uint64_t full = ((b != 0) & (s > skip)) ? (s - skip) / V_BS : 0;
    uint64_t n = full < V_NB ? full : V_NB;
    n = sym_concretize(n);
    uint64_t data = reinterpret_cast<uint64_t>(r.data());
    CHK(8, r.size() == n * V_BS, "size() is the number of whole aligned blocks, at most the maximum");
    CHK(8, data == (n ? b + skip : 0), "data() is the first aligned address, or null");
    CHK(8, r.busy_count() == 0, "nothing is allocated yet");
    CHK(8, r.free_count() == (n ? 1 : 0), "one free region, or none");
    sym_reach("built");
    if (n)
    {
        CHK(8, r.block_size(0) == n, "the free region is the whole buffer");
        CHK(8, !r.in_use(0), "the free region is free");
        void *q = r.allocate(n * V_BS, 1);
        CHK(8, reinterpret_cast<uint64_t>(q) == data, "the whole buffer can be handed out");
        CHK(8, up.allocs == 0, "without asking the upstream");
        sym_reach("nonempty");
    }
    else sym_reach("empty");
    // the next request is the upstream's
    uint64_t k = sym_u64("size");
    sym_assume(k != 0);
    void *q = r.allocate(k, V_BS);
    CHK(8, other.allocs == 0, "the upstream is the one given, or the default of the moment of construction");
    CHK(8, up.allocs == 1, "without room the upstream is asked");
    CHK(8, reinterpret_cast<uint64_t>(q) == up.result, "the upstream's pointer is returned unchanged");
    r.deallocate(q);
    CHK(8, up.frees == 1 && up.freed == reinterpret_cast<uint64_t>(q), "and returned to the upstream");
    CHK(8, r.is_equal(r) && !r.is_equal(up) && r == r && r != up, "a resource equals only itself");
    r.release();
    CHK(8, r.busy_count() == 0, "release() empties it");
    CHK(8, r.free_count() == (n ? 1 : 0), "one free region again, or none");
    r.~Pool();
    sym_reach("destroyed");
    utils::memory::set_default_resource(old);
}
