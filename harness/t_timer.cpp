// timer: the finish callback, moves, elapsed time; with a clock whose readings
// are symbolic
#include <chrono>
#include <utils/timer.h>

#include "sym.h"
#ifndef V_OPS
#define V_OPS 3
#endif
#ifndef V_PROP
#define V_PROP 0
#endif
// own property only
#define OBS(p, c, msg)                     \
    do                                     \
    {                                      \
        bool ok = (c);                     \
        if (V_PROP == (p) || V_PROP == 0)      \
            sym_assert(ok, msg);           \
    } while (0)
static int64_t g_now, g_max;
static void tick()
{
    int64_t n = (int64_t)sym_u64("now");
    sym_assume(n >= g_now && n < g_max);
    g_now = n;
}
template <typename Period>
struct Clock
{
    using rep = int64_t;
    using period = Period;
    using duration = std::chrono::duration<rep, period>;
    using time_point = std::chrono::time_point<Clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(duration(g_now)); }
};
using Ns = Clock<std::nano>;
#ifndef V_TS
#define V_TS 24  // room for callables
#define V_TA 8
#endif
using Timer = utils::details::timer<V_TA, V_TS, Ns>;
struct Fill  // as large as the room that is left
{
    uint32_t x[V_TS / 4 - 6 + (V_TS == 24)];
};
struct Call
{
    unsigned count;
    uint64_t timer;
    int64_t start, leaked;
    bool broken;
};
static Call g_calls[2];
static int g_live, g_copies;
static uint64_t g_id;
static void called(unsigned who, const Timer &t)
{
    Call &c = g_calls[who];
    ++c.count;
    c.timer = reinterpret_cast<uint64_t>(&t);
    c.start = t.start_tp().time_since_epoch().count();
    c.leaked = t.leaked().count();
}
static void fn0(const Timer &t) noexcept { called(0, t); }
static void fn1(const Timer &t) noexcept { called(1, t); }
// relocatable, but neither copied nor destroyed trivially
struct Functor
{
    unsigned who, alive;
    uint64_t id;
    Functor(unsigned w, uint64_t i) noexcept : who(w), alive(0xa11fe), id(i) { ++g_live; }
    Functor(const Functor &o) noexcept : who(o.who), alive(0xa11fe), id(o.id) { ++g_live; ++g_copies; }
    Functor(Functor &&o) noexcept : who(o.who), alive(0xa11fe), id(o.id) { ++g_live; o.id = ~o.id; }
    ~Functor()
    {
        if (alive != 0xa11fe) g_calls[who].broken = true;
        alive = 0;
        --g_live;
    }
    void operator()(const Timer &t) const noexcept
    {
        if ((alive != 0xa11fe) | (id != g_id)) g_calls[who].broken = true;
        called(who, t);
    }
};
static void construct(void *p, unsigned kind, unsigned who)
{
    switch (kind)
    {
        case 0: who ? new (p) Timer(fn1) : new (p) Timer(fn0); break;
        case 1:
        {
            void (*f)(const Timer &) noexcept = who ? fn1 : fn0;
            new (p) Timer(f);
            break;
        }
        case 2:
        {
            // captures that fill the storage
            uint64_t a = g_id, b = ~g_id;
#if V_TS == 24
            auto l = [a, b, who](const Timer &t) noexcept
            {
                if ((a != g_id) | (b != ~g_id)) g_calls[who].broken = true;
                called(who, t);
            };
#else
            Fill f;
            for (unsigned i = 0; i < sizeof f.x / 4; ++i) f.x[i] = (uint32_t)g_id ^ i;
            auto l = [a, b, f, who](const Timer &t) noexcept
            {
                bool ok = (a == g_id) & (b == ~g_id);
                for (unsigned i = 0; i < sizeof f.x / 4; ++i) ok = ok & (f.x[i] == ((uint32_t)g_id ^ i));
                if (!ok) g_calls[who].broken = true;
                called(who, t);
            };
#endif
            static_assert(sizeof(l) == V_TS);
            new (p) Timer(l);
            a = b = 0;
            break;
        }
        case 3:
        {
            Functor f(who, g_id);
            new (p) Timer(f);
            OBS(1, f.id == g_id && f.alive == 0xa11fe, "an lvalue callable is copied");
            break;
        }
        case 4:
            g_copies = 0;
            new (p) Timer(Functor(who, g_id));
            OBS(1, g_copies == 0, "an rvalue callable is moved, not copied");
            break;
        case 5:
        {
            const Functor f(who, g_id);
            new (p) Timer(f);
            break;
        }
    }
}
// the model: which callback each of three places holds, and its start
static constexpr int kDead = -2, kNone = -1;
alignas(Timer) static unsigned char g_place[3][sizeof(Timer)];
static int m_holds[3];
static int64_t m_start[3];
static Timer &at(int i) { return *reinterpret_cast<Timer *>(g_place[i]); }
static void destroy(int i)
{
    unsigned before[2] = {g_calls[0].count, g_calls[1].count};
    int h = m_holds[i];
    tick();
    at(i).~Timer();
    m_holds[i] = kDead;
    for (int w = 0; w < 2; ++w)
    {
        const Call &c = g_calls[w];
        OBS(1, !c.broken, "the callable is intact");
        if (w != h)
        {
            OBS(1, c.count == before[w], "no callback runs that the destroyed timer does not hold");
            continue;
        }
        OBS(1, c.count == before[w] + 1 && c.count == 1, "the callback runs exactly once, when its timer is destroyed");
        OBS(1, c.timer == reinterpret_cast<uint64_t>(&at(i)), "with the timer being destroyed");
        OBS(2, !c.count || c.start == m_start[i], "which has kept its start");
        OBS(2, !c.count || c.leaked == g_now - m_start[i], "and measures the time since");
        sym_reach("called");
    }
}
// arg: kind of the first callable + 8 * kind of the second
extern "C" void h_timer(uint64_t arg)
{
    g_max = (int64_t)1 << 60;
    g_now = 0;
    g_live = 0;
    g_id = sym_u64("id");
    for (int w = 0; w < 2; ++w) g_calls[w] = Call{};
    for (int i = 0; i < 3; ++i) m_holds[i] = kDead;
    for (int w = 0; w < 2; ++w)
    {
        tick();
        construct(g_place[w], w ? arg / 8 : arg % 8, w);
        m_holds[w] = w;
        m_start[w] = g_now;
    }
    for (int n = 0; n < V_OPS; ++n)
    {
        uint64_t o = sym_choose("operation", 12);
        int s = (int)(o % 3), d = (s + 1 + (int)(o / 6)) % 3;
        if (m_holds[s] == kDead) return;
        switch (o / 3)
        {
            case 0:
            case 2:  // s is moved to d
                tick();
                if (m_holds[d] == kDead)
                    new (g_place[d]) Timer(std::move(at(s)));
                else if (m_holds[d] == kNone)
                    OBS(1, &(at(d) = std::move(at(s))) == &at(d), "assignment returns the timer");
                else
                    return;  // what happens to a pending callback is not specified
                m_holds[d] = m_holds[s];
                m_start[d] = m_start[s];
                m_holds[s] = kNone;
                sym_reach("moved");
                break;
            case 1: destroy(s); break;
            case 3:
                tick();
                at(s).reset();
                m_start[s] = g_now;
                break;
        }
        for (int i = 0; i < 3; ++i)
            if (m_holds[i] != kDead)
            {
                OBS(2, at(i).start_tp().time_since_epoch().count() == m_start[i], "the start is when it was made, or reset");
                tick();
                OBS(2, at(i).leaked().count() == g_now - m_start[i], "leaked() is the time since the start");
            }
    }
    for (int i = 0; i < 3; ++i)
        if (m_holds[i] != kDead) destroy(i);
    for (int w = 0; w < 2; ++w) OBS(1, g_calls[w].count == 1, "each callback has run exactly once");
    OBS(1, g_live == 0, "every callable is destroyed");
    sym_reach("end");
}
template <typename C>
static void units()
{
    using T = utils::details::timer<8, 8, C>;
    g_now = 0;
    tick();
    int64_t start = g_now;
    T t([](const T &) noexcept {});
    tick();
    typename C::duration d(g_now - start);
    using namespace std::chrono;
    sym_assert(t.leaked() == d, "leaked()");
    sym_assert(t.leaked_sec().count() == duration_cast<seconds>(d).count(), "whole seconds");
    sym_assert(t.leaked_milli_sec().count() == duration_cast<milliseconds>(d).count(), "whole milliseconds");
    sym_assert(t.leaked_micro_sec().count() == duration_cast<microseconds>(d).count(), "whole microseconds");
    sym_assert(t.leaked_nano_sec().count() == duration_cast<nanoseconds>(d).count(), "nanoseconds");
    sym_assert(std::is_same_v<decltype(t.leaked_sec()), seconds> && std::is_same_v<decltype(t.leaked_milli_sec()), milliseconds> &&
                  std::is_same_v<decltype(t.leaked_micro_sec()), microseconds> && std::is_same_v<decltype(t.leaked_nano_sec()), nanoseconds>, "in the unit of that name");
    tick();
    t.reset();
    sym_assert(t.leaked().count() == 0, "nothing has passed after reset()");
    sym_reach("units");
}
extern "C" void h_units(uint64_t arg)
{
    g_max = (int64_t)1 << (arg ? 34 : 60);
    if (arg == 0) units<Ns>();
    if (arg == 1) units<Clock<std::ratio<1, 60>>>();
}
