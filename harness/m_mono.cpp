// monotonic_buffer_resource: every history of V_OPS operations over any buffer
#include <new>
#include <utils/memory/monotonic_buffer_resource.h>

#include "sym.h"
#ifndef V_OPS
#define V_OPS 3
#endif
#ifndef V_PROP
#define V_PROP 0
#endif
#define CHK(p, c, msg)                     \
    do                                     \
    {                                      \
        if (V_PROP == (p) || V_PROP == 0)      \
            sym_assert((c), msg);          \
        else                               \
            sym_assume((c));               \
    } while (0)
#define OBS(p, c, msg)                     \
    do                                     \
    {                                      \
        if (V_PROP == (p) || V_PROP == 0)      \
            sym_assert((c), msg);          \
    } while (0)
using utils::memory::memory_resource;
using Mono = utils::memory::monotonic_buffer_resource;
class Up : public memory_resource
{
    friend class memory_resource;

   public:
    unsigned allocs = 0, frees = 0;
    uint64_t size = 0, align = 0, result = 0;
    Up() noexcept : memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>) {}
    bool is_equal(const memory_resource &o) const noexcept override { return &o == this; }

   private:
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++allocs;
        size = s;
        align = a;
        result = sym_u64("up");
        bool aligned = (result & (a - 1)) == 0;
        sym_assume(aligned);
        return reinterpret_cast<void *>(result);
    }
    void deallocate_impl(void *) noexcept { ++frees; }
};
static uint64_t any_align()
{
#ifdef V_ALL_ALIGNMENTS
    return (uint64_t)1 << sym_choose("log2align", 64);
#else
    static const unsigned char l[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 21, 31, 32, 40, 47, 62, 63};
    return (uint64_t)1 << l[sym_choose("alignment class", sizeof(l))];
#endif
}
struct Mon
{
    Mono &r;
    Up *up;
    bool none;
    uint64_t b, e, next;  // buffer and first byte after everything handed out
    void alloc(bool any)
    {
        uint64_t n = sym_u64("size");
        if (any) alloc(n, any_align());
        else alloc(n, sym_choose("alignment", 2) ? 1 : 16);
    }
    void *alloc(uint64_t n, uint64_t al)
    {
        unsigned ua = up ? up->allocs : 0;
        void *p = r.allocate(n, al);
        uint64_t a = reinterpret_cast<uint64_t>(p);
        unsigned asked = up ? up->allocs - ua : 0;
        if (n == 0)
        {
            OBS(11, p == nullptr, "a request of 0 bytes yields a null pointer");
            OBS(11, asked == 0, "a request of 0 bytes is not delegated");
            sym_reach("zero");
            return p;
        }
        // the first aligned address at or after next: next + skip
        uint64_t skip = (0 - next) & (al - 1);
        uint64_t room = e - next;
        bool fits = none ? false : (skip <= room) & (n <= room - skip);
        if (asked)
        {
            OBS(11, !fits, "a request that fits behind the previous ones is served from the buffer");
            OBS(11, asked == 1, "the upstream is asked once");
            OBS(11, up->size >= n, "for at least the requested size");
            OBS(V_PROP == 11 ? 11 : 10, up->align >= al && (up->align & (up->align - 1)) == 0,
                "for at least the requested alignment");
            OBS(11, a == up->result, "the upstream's pointer is returned unchanged");
            sym_reach("upstream");
            return p;
        }
        if (!p)
        {
            OBS(11, !fits, "a request that fits behind the previous ones is served");
            OBS(11, up == nullptr, "without room the upstream is asked");
            sym_reach("refused");
            return p;
        }
        bool al_ok = (a & (al - 1)) == 0;
        OBS(10, al_ok, "the pointer has the requested alignment");
        // relative to next, which is at most e
        uint64_t off = a - next;
        bool in = (off <= room) & (n <= room - off);
        CHK(10, in, "the memory lies in the buffer behind everything handed out before");
        next = a + n;
        sym_reach("served");
        sym_observe("off", off);
        return p;
    }
};
// arg: bit 0 upstream; bit 1 null buffer; bit 2 zero size;
// bits 4..: operation i is 0 allocate (small alignment), 1 deallocate
// (something), 2 release, 3 allocate (any alignment); before them (arg bit 3)
// one allocation that leaves any number of bytes
extern "C" void h_mono(uint64_t arg)
{
    // a buffer of pre + post bytes; with bit 3 the first pre bytes are used up
    // before the operations start at `next`
    uint64_t next = sym_u64("next"), pre = 0, post = sym_u64("bytes left");
    if (arg & 8)
    {
        pre = sym_u64("bytes used");
        sym_assume(pre <= next);
        sym_assume(post <= ~(uint64_t)0 - pre);
    }
    uint64_t b = next - pre;
    if (arg & 4) post = 0;
    uint64_t s = pre + post;
    if (arg & 2) b = next = 0;
    else
    {
        sym_assume(b >> 41);
        sym_assume(post <= ~(uint64_t)0 - next);
        if (!(arg & 4)) sym_assume(s != 0);
    }
    Up up;
    Mono r(reinterpret_cast<std::byte *>(b), s, arg & 1 ? &up : nullptr);
    const bool none = arg & 6;
    uint64_t wantd = none ? 0 : b, wants = none ? 0 : s;
    OBS(11, reinterpret_cast<uint64_t>(r.data()) == wantd, "data() is the buffer, or null without one");
    OBS(11, r.size() == wants, "size() is the buffer's size, or 0 without one");
    Mon m{r, arg & 1 ? &up : nullptr, none, wantd, wantd + wants, wantd};
    if (arg & 8)
    {
        m.alloc(pre, 1);
        m.next = next;
    }
    for (int i = 0; i < V_OPS; ++i)
    {
        unsigned op = (arg >> (4 + 2 * i)) & 3;
        if (op == 0 || op == 3) m.alloc(op == 3);
        else if (op == 1)
        {
            // memory is not taken back before release()
            r.deallocate(reinterpret_cast<void *>(sym_u64("ptr")));
            sym_reach("deallocated");
        }
        else
        {
            r.release();
            m.next = m.b;
            sym_reach("released");
        }
        OBS(11, reinterpret_cast<uint64_t>(r.data()) == wantd, "data() does not change");
        OBS(11, r.size() == wants, "size() does not change");
    }
    OBS(11, r.is_equal(r) && !r.is_equal(up) && r == r && r != up, "a resource equals only itself");
    sym_reach("done");
}
// longer histories over small buffers: the buffer's position and length from
// a few, sizes (but the last) and alignments from a few
// arg: bit 0 upstream, bits 1,2 position, 3,4 length, 5.. as h_mono's 4..
extern "C" void h_mono_hist(uint64_t arg)
{
    static const uint64_t pos[] = {0, 1, 24, 63}, len[] = {1, 16, 23, 40};
    uint64_t b = sym_u64("high part of buf") << 7;
    sym_assume(b >> 41);
    sym_assume(b < ~(uint64_t)0 - 1024);
    b |= pos[(arg >> 1) & 3];
    uint64_t s = len[(arg >> 3) & 3];
    Up up;
    Mono r(reinterpret_cast<std::byte *>(b), s, arg & 1 ? &up : nullptr);
    Mon m{r, arg & 1 ? &up : nullptr, false, b, b + s, b};
    for (int i = 0; i < V_OPS; ++i)
    {
        unsigned op = (arg >> (5 + 2 * i)) & 3;
        if (op == 0)
        {
            static const uint64_t als[] = {1, 8, 16, 64}, ns[] = {1, 5, 23};
            uint64_t al = als[sym_choose("alignment", 4)];
            if (i == V_OPS - 1) m.alloc(sym_u64("size"), al);
            else if (m.alloc(ns[sym_choose("size", 3)], al))
                m.next = m.b + sym_concretize(m.next - m.b);
        }
        else if (op == 1) r.deallocate(reinterpret_cast<void *>(b));
        else
        {
            r.release();
            m.next = m.b;
        }
        OBS(11, reinterpret_cast<uint64_t>(r.data()) == b, "data() does not change");
        OBS(11, r.size() == s, "size() does not change");
    }
    sym_reach("history");
}
// the constructors without an upstream take the default one of that moment;
// any buffer for those that take a pointer and a size
extern "C" void h_mono_ctor(uint64_t arg)
{
    Up up, other;
    uint64_t b = sym_u64("buf"), s = arg < 2 ? sym_u64("size of buf") : arg < 4 ? 24 : 70000;
    bool null = arg < 2 && sym_choose("null", 2);
    if (null) b = 0;
    else
    {
        sym_assume(b >> 41);
        sym_assume(s <= ~(uint64_t)0 - b);
    }
    std::byte *p = reinterpret_cast<std::byte *>(b);
    auto *old = utils::memory::set_default_resource(arg & 1 ? &up : &other);
    alignas(Mono) unsigned char mem[sizeof(Mono)];
    if (arg == 0) new (mem) Mono(p, s, &up);
    if (arg == 1) new (mem) Mono(p, s);
    if (arg == 2) new (mem) Mono(*reinterpret_cast<std::byte(*)[24]>(b), &up);
    if (arg == 3) new (mem) Mono(*reinterpret_cast<std::byte(*)[24]>(b));
    if (arg == 4) new (mem) Mono(*reinterpret_cast<std::byte(*)[70000]>(b), &up);
    if (arg == 5) new (mem) Mono(*reinterpret_cast<std::byte(*)[70000]>(b));
    utils::memory::set_default_resource(&other);
    Mono &r = *std::launder(reinterpret_cast<Mono *>(mem));
    if (null) s = 0;
    bool none = s == 0;
    uint64_t base = none ? 0 : b;
    OBS(11, reinterpret_cast<uint64_t>(r.data()) == base, "data() is the buffer, or null without one");
    OBS(11, r.size() == s, "size() is the buffer's size, or 0 without one");
    Mon m{r, &up, none, base, base + s, base};
    void *q = m.alloc(s, 1);
    if (!none) OBS(11, reinterpret_cast<uint64_t>(q) == b, "the whole buffer can be handed out");
    m.alloc(sym_u64("size"), 8);
    OBS(11, other.allocs == 0, "the upstream is the one given, or the default of the moment of construction");
    r.~Mono();
    utils::memory::set_default_resource(old);
    sym_reach("ctor");
}
