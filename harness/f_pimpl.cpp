// fast_pimpl: the value lives in place and each operation is one operation of
// the value
#include <utils/fast_pimpl.h>

#include "sym.h"
using utils::fast_pimpl;
using utils::forwarding_constructor;
enum Event
{
    kDefault = 1,
    kFrom,
    kCopy,
    kMove,
    kCopyAssign,
    kMoveAssign,
    kDestroy
};
static unsigned g_events, g_last, g_forwarded;
static uint64_t g_self, g_other;
static bool g_bad;
static uint64_t addr(const void *p) { return reinterpret_cast<uint64_t>(p); }
static void log(unsigned what, const void *self, const void *other)
{
    ++g_events;
    g_last = what;
    g_self = addr(self);
    g_other = addr(other);
}
template <unsigned Size, unsigned Align>
struct alignas(Align) Value
{
    uint8_t alive;
    uint8_t v[Size - 1];
    void set(const uint8_t *w)
    {
        for (unsigned i = 0; i < Size - 1; ++i) v[i] = w[i];
    }
    bool has(const uint8_t *w) const
    {
        bool e = alive == 0xa5;
        for (unsigned i = 0; i < Size - 1; ++i) e = e & (v[i] == w[i]);
        return e;
    }
    Value() noexcept : alive(0xa5)
    {
        for (auto &x : v) x = 7;
        log(kDefault, this, nullptr);
    }
    Value(uint8_t &a, const uint8_t &b, uint8_t &&c) : alive(0xa5)
    {
        for (auto &x : v) x = 7;
        v[0] = a;
        v[1] = b;
        a = c;
        c = 0;
        log(kFrom, this, nullptr);
        g_forwarded = 1;
    }
    Value(uint8_t &&, const uint8_t &, uint8_t &) : alive(0xa5) { g_forwarded = 2; }
    Value(const Value &o) noexcept : alive(0xa5)
    {
        g_bad = g_bad | (o.alive != 0xa5);
        set(o.v);
        log(kCopy, this, &o);
    }
    Value(Value &&o) noexcept : alive(0xa5)
    {
        g_bad = g_bad | (o.alive != 0xa5);
        set(o.v);
        log(kMove, this, &o);
    }
    Value &operator=(const Value &o)
    {
        g_bad = g_bad | (o.alive != 0xa5) | (alive != 0xa5);
        set(o.v);
        log(kCopyAssign, this, &o);
        return *this;
    }
    Value &operator=(Value &&o)
    {
        g_bad = g_bad | (o.alive != 0xa5) | (alive != 0xa5);
        set(o.v);
        log(kMoveAssign, this, &o);
        return *this;
    }
    ~Value()
    {
        g_bad = g_bad | (alive != 0xa5);
        alive = 0;
        log(kDestroy, this, nullptr);
    }
};
static unsigned g_seen;
static void expect(unsigned what, const void *self, const void *other)
{
    sym_assert(g_events == g_seen + 1 && g_last == what, "one operation of the value for one of the pimpl, of the same kind");
    sym_assert(g_self == addr(self), "on the value inside the pimpl");
    sym_assert(g_other == addr(other), "from the value it is given");
    sym_assert(!g_bad, "on values that are alive");
    g_seen = g_events;
}
template <unsigned S, unsigned A>
static void run(unsigned op)
{
    using T = Value<S, A>;
    using P = fast_pimpl<T, S, A>;
    static_assert(sizeof(T) == S && alignof(T) == A);
    sym_assert(sizeof(P) == S && alignof(P) == A, "the size and alignment of the value");
    g_events = g_seen = g_forwarded = 0;
    g_bad = false;
    uint8_t w[S - 1], u[S - 1];
    for (auto &x : w) x = sym_u8("w");
    for (auto &x : u) x = sym_u8("u");
    // what surrounds a pimpl must stay
    struct
    {
        uint64_t before;
        alignas(P) unsigned char mem[sizeof(P)];
        uint64_t after;
    } box, box2;
    uint64_t guard = sym_u64("guard");
    box.before = box.after = box2.before = box2.after = guard;
    sym_bytes("memory", box.mem, sizeof box.mem);
    sym_bytes("memory", box2.mem, sizeof box2.mem);
    P *p = reinterpret_cast<P *>(box.mem), *q = reinterpret_cast<P *>(box2.mem);
    new (q) P;
    expect(kDefault, box2.mem, nullptr);
    (*q)->set(w);
    sym_assert(q->get().has(w) && static_cast<const P *>(q)->get().has(w) && (*static_cast<const P *>(q))->has(w), "get() and -> reach the same value");
    sym_assert(addr(&q->get()) == addr(q) && addr(q->operator->()) == addr(q), "which is in place");
    switch (op)
    {
        case 0:
            new (p) P();
            expect(kDefault, box.mem, nullptr);
            break;
        case 1:
        {
            uint8_t a = w[0], c = u[0];
            const uint8_t b = w[1];
            new (p) P(forwarding_constructor{}, a, b, std::move(c));
            expect(kFrom, box.mem, nullptr);
            sym_assert(g_forwarded == 1 && a == u[0] && c == 0 && p->get().v[0] == w[0] && p->get().v[1] == w[1], "arguments arrive as given");
            break;
        }
        case 2:
            new (p) P(*static_cast<const P *>(q));
            expect(kCopy, box.mem, q);
            sym_assert(p->get().has(w) && q->get().has(w), "copied");
            break;
        case 3:
            new (p) P(*q);
            expect(kCopy, box.mem, q);
            sym_assert(p->get().has(w) && q->get().has(w), "copied");
            break;
        case 4:
            new (p) P(std::move(*q));
            expect(kMove, box.mem, q);
            sym_assert(p->get().has(w), "moved");
            break;
        case 5:
            new (p) P(static_cast<const T &>(q->get()));
            expect(kCopy, box.mem, q);
            break;
        case 6:
            new (p) P(std::move(q->get()));
            expect(kMove, box.mem, q);
            break;
    }
    p->get().set(u);
    sym_assert(q->get().has(w) && p->get().has(u), "two pimpls have two values");
    bool same = sym_bool("assign to itself");
    P *r = same ? p : q;
    const uint8_t *rv = same ? u : w;
    P *res = p;
    switch (sym_choose("assignment", 5))
    {
        case 0: res = &(*p = *static_cast<const P *>(r)); expect(kCopyAssign, p, r); break;
        case 1: res = &(*p = std::move(*r)); expect(kMoveAssign, p, r); break;
        case 2: res = &(*p = static_cast<const T &>(r->get())); expect(kCopyAssign, p, r); break;
        case 3: res = &(*p = std::move(r->get())); expect(kMoveAssign, p, r); break;
        case 4: rv = u; break;
    }
    sym_assert(res == p, "assignment returns the pimpl");
    sym_assert(p->get().has(rv) && q->get().has(w), "assigned");
    if (sym_bool("order"))
    {
        p->~P();
        expect(kDestroy, p, nullptr);
        q->~P();
        expect(kDestroy, q, nullptr);
    }
    else
    {
        q->~P();
        expect(kDestroy, q, nullptr);
        p->~P();
        expect(kDestroy, p, nullptr);
    }
    sym_assert(box.before == guard && box.after == guard && box2.before == guard && box2.after == guard, "nothing outside is touched");
    sym_reach("end");
}
// arg: shape + 8 * way to construct
extern "C" void h_pimpl(uint64_t arg)
{
    switch (arg % 8)
    {
        case 0: run<3, 1>(arg / 8); break;
        case 1: run<8, 4>(arg / 8); break;
        case 2: run<32, 16>(arg / 8); break;
        case 3: run<64, 64>(arg / 8); break;
    }
}
struct Pod
{
    uint32_t a;
    uint64_t b;
    const void *c;
};
extern "C" void h_pod(uint64_t)
{
    using P = fast_pimpl<Pod, sizeof(Pod), alignof(Pod)>;
    alignas(P) unsigned char m[2 * sizeof(P)];
    sym_bytes("memory", m, sizeof m);
    P *p = new (m) P;
    sym_assert((*p)->a == 0 && (*p)->b == 0 && (*p)->c == nullptr, "a default constructed pimpl has a value initialized value");
    p->get().a = sym_u32("a");
    p->get().b = sym_u64("b");
    uint32_t a = (*p)->a;
    uint64_t b = (*p)->b;
    P *q = new (m + sizeof(P)) P(*p);
    (*p)->a = ~a;
    sym_assert((*q)->a == a && (*q)->b == b && (*q)->c == nullptr, "copied");
    *p = *q;
    sym_assert((*p)->a == a, "assigned");
    sym_reach("pod");
}
