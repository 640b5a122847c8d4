// Native runtime of the harness interface: runs one entry on vectors of
// concrete inputs, each in a child process.
//   native <entry-index> <arg> <vector file>
// vector file: per line one vector, space separated decimal values
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "sym.h"
static std::vector<uint64_t> g_in;
static size_t g_pos;
static int g_abort_ok;
static void say(const char *k, const char *a)
{
    fflush(stdout);
    printf("%s %s\n", k, a);
    fflush(stdout);
}
static uint64_t take()
{
    if (g_pos >= g_in.size())
    {
        say("OUTOFINPUT", "");
        _exit(4);
    }
    return g_in[g_pos++];
}
extern "C" {
uint8_t sym_u8(const char *) { return (uint8_t)take(); }
uint16_t sym_u16(const char *) { return (uint16_t)take(); }
uint32_t sym_u32(const char *) { return (uint32_t)take(); }
uint64_t sym_u64(const char *) { return take(); }
bool sym_bool(const char *) { return take() & 1; }
uint64_t sym_choose(const char *, uint64_t) { return take(); }
void sym_bytes(const char *, void *p, uint64_t n)
{
    for (uint64_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = (uint8_t)take();
}
void sym_assume(bool c)
{
    if (!c)
    {
        say("ASSUME", "");
        _exit(5);
    }
}
void sym_assert(bool c, const char *what)
{
    if (!c)
    {
        say("FAIL", what);
        _exit(3);
    }
}
void sym_reach(const char *l) { say("REACH", l); }
void sym_observe(const char *n, uint64_t v)
{
    printf("OBS %s %llu\n", n, (unsigned long long)v);
    fflush(stdout);
}
void sym_expect_abort(int on) { g_abort_ok = on; }
uint64_t sym_concretize(uint64_t v) { return v; }
void *sym_object(uint64_t size, uint64_t align, uint64_t off)
{
    if (align < 16) align = 16;
    uint64_t tot = (size + off + align - 1) / align * align;
    if (off == 0)
    {   // exact size, so that a sanitizer sees an access past the end
        void *r = nullptr;
        if (posix_memalign(&r, align, size ? size : 1)) abort();
        return r;
    }
    char *p = (char *)aligned_alloc(align, tot ? tot : align);
    return p + off;
}
bool sym_is_valid(const void *, uint64_t) { return true; }
}
extern "C" {
static void *g_zp;
static size_t g_zn;
void sym_free_zeroed(void *p, uint64_t n)
{
    g_zp = p;
    g_zn = n;
}
#ifdef VERIF_FREE_HOOK
void __real_free(void *);
void __wrap_free(void *p)
{
    if (p && p == g_zp)
    {
        g_zp = nullptr;
        for (size_t i = 0; i < g_zn; ++i)
            if (((volatile unsigned char *)p)[i])
            {
                say("FAIL", "memory given back holds its contents no more");
                _exit(3);
            }
    }
    __real_free(p);
}
#endif
}
struct spawned { void (*fn)(void *); void *arg; };
static std::vector<spawned> g_sp;
#ifdef VERIF_THREADS
#include <pthread.h>
static std::vector<int> g_sched;
static size_t g_spos;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_cv = PTHREAD_COND_INITIALIZER;
static thread_local int t_me;
static std::vector<char> g_done;
static void point()
{
    if (!t_me) return;
    pthread_mutex_lock(&g_mu);
    for (;;)
    {
        while (g_spos < g_sched.size() && g_done[g_sched[g_spos]]) ++g_spos;
        if (g_spos >= g_sched.size()) break;
        if (g_sched[g_spos] == t_me) { ++g_spos; break; }
        pthread_cond_broadcast(&g_cv);
        pthread_cond_wait(&g_cv, &g_mu);
    }
    pthread_cond_broadcast(&g_cv);
    pthread_mutex_unlock(&g_mu);
}
extern "C" {
void verif_access() { point(); }
}
static void *tmain(void *a)
{
    size_t i = (size_t)a;
    t_me = (int)i + 1;
    g_sp[i].fn(g_sp[i].arg);
    pthread_mutex_lock(&g_mu);
    g_done[i + 1] = 1;
    pthread_cond_broadcast(&g_cv);
    pthread_mutex_unlock(&g_mu);
    return nullptr;
}
extern "C" void sym_join(int)
{
    if (const char *s = getenv("VERIF_SCHED"))
        for (const char *q = s; *q; ++q) if (*q >= '0' && *q <= '9') g_sched.push_back(*q - '0');
    g_done.assign(g_sp.size() + 2, 0);
    std::vector<pthread_t> t(g_sp.size());
    for (size_t i = 0; i < t.size(); ++i) pthread_create(&t[i], 0, tmain, (void *)i);
    for (auto &x : t) pthread_join(x, 0);
}
#else
extern "C" void sym_join(int)
{
    for (auto &s : g_sp) s.fn(s.arg);
}
#endif
extern "C" void sym_spawn(void (*fn)(void *), void *arg) { g_sp.push_back({fn, arg}); }
static void on_abort(int)
{
    const char *m = g_abort_ok ? "ABORTED expected\n" : "FAIL unexpected abort\n";
    (void)!write(1, m, strlen(m));
    _exit(g_abort_ok ? 0 : 3);
}
struct entry { const char *name; void (*fn)(uint64_t); };
extern entry g_entries[];
int main(int argc, char **argv)
{
    if (argc < 4) return 9;
    entry *e = g_entries;
    while (e->name && strcmp(e->name, argv[1])) ++e;
    if (!e->name) return 9;
    uint64_t arg = strtoull(argv[2], 0, 10);
    FILE *f = fopen(argv[3], "r");
    if (!f) return 9;
    std::string line;
    int c, idx = 0;
    std::vector<std::vector<uint64_t>> vecs;
    while ((c = fgetc(f)) != EOF)
    {
        if (c != '\n') { line.push_back((char)c); continue; }
        std::vector<uint64_t> v;
        char *p = &line[0], *q;
        for (;;)
        {
            uint64_t x = strtoull(p, &q, 10);
            if (q == p) break;
            v.push_back(x);
            p = q;
        }
        vecs.push_back(v);
        line.clear();
    }
    fclose(f);
    bool single = vecs.size() == 1;
    for (auto &v : vecs)
    {
        printf("BEGIN %d\n", idx++);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            if (!single) { (void)!freopen("/dev/null", "w", stderr); }
            alarm(20);
            signal(SIGABRT, on_abort);
            g_in = v;
            e->fn(arg);
            printf("DONE\n");
            fflush(stdout);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) printf("SIGNAL %d\n", WTERMSIG(st));
        else printf("EXIT %d\n", WEXITSTATUS(st));
        fflush(stdout);
    }
    return 0;
}
