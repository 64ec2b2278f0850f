#include "tsan_rt.h"
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void  __libc_free(void*);
}
namespace tsim {
static __thread int       t_id __attribute__((tls_model("initial-exec"))) = -1;
static __thread uintptr_t t_lo __attribute__((tls_model("initial-exec"))) = 0;
static const size_t       STK = 4 << 20;

struct Cell
{
    uintptr_t key;
    u32       w[MAXT], r[MAXT];
    u8        wm[MAXT], rm[MAXT];
    u16       pcop[MAXT]; // operation that made the last access
};
static const size_t NCELL = 1 << 19;
static Cell*        g_cells = nullptr;
static size_t       g_used  = 0;

struct Seg
{
    uintptr_t lo, hi, base;
    bool      w;
    int       lib;
};
static Seg  g_seg[64];
static int  g_nseg = 0, g_nlib = 0;
static char g_libname[8][64];

static Config   g_c;
static Report*  g_r = nullptr;
static Prng*    g_rng = nullptr;
static u64      g_left = 0;
static int      g_n = 0, g_cur = -1;
static sem_t    g_sem[MAXT], g_main;
static u32      g_vc[MAXT][MAXT];
static int      g_state[MAXT]; // 0 runnable, 1 blocked, 2 finished
static void*    g_wait[MAXT];
static u64      g_ev[MAXT];
static int      g_op[MAXT];
static bool     g_active = false;

struct Sync
{
    void* a;
    u32   vc[MAXT];
    int   owner, count;
};
static Sync   g_sync[4096];
static size_t g_nsync = 0;
static Sync*  sync_of(void* a)
{
    for (size_t i = 0; i < g_nsync; i++)
        if (g_sync[i].a == a) return &g_sync[i];
    if (g_nsync == 4096)
    {
        g_r->lost++;
        return &g_sync[0];
    }
    Sync* s = &g_sync[g_nsync++];
    memset(s, 0, sizeof *s);
    s->a = a, s->owner = -1;
    return s;
}
static void acquire(void* a)
{
    Sync* s = sync_of(a);
    for (int i = 0; i < g_n; i++)
        if (s->vc[i] > g_vc[t_id][i]) g_vc[t_id][i] = s->vc[i];
}
static void release(void* a)
{
    Sync* s = sync_of(a);
    for (int i = 0; i < g_n; i++)
        if (g_vc[t_id][i] > s->vc[i]) s->vc[i] = g_vc[t_id][i];
    g_vc[t_id][t_id]++;
}
static void redraw()
{
    g_left = g_c.gap ? 1 + g_rng->below(2 * g_c.gap) : ~0ull;
}
static void finish_stuck()
{
    sem_post(&g_main);
    for (;;) pause();
}
// hand the baton to a runnable thread other than me when there is one
static void yield_now(bool must)
{
    int cand[MAXT], k = 0, me = t_id;
    for (int i = 0; i < g_n; i++)
        if (i != me && g_state[i] == 0) cand[k++] = i;
    if (!k)
    {
        if (!must) return;
        g_r->deadlock = true;
        snprintf(g_r->msg, sizeof g_r->msg, "every unfinished thread waits for a lock (thread %d in operation %d)", me, g_op[me]);
        finish_stuck();
    }
    int nx = cand[g_rng->below(k)];
    g_r->switches++;
    g_r->order = hcomb(g_r->order, (u64)nx << 56 ^ (u64)me << 48 ^ g_ev[me]);
    g_cur = nx;
    sem_post(&g_sem[nx]);
    while (sem_wait(&g_sem[me]) != 0) {}
}
static inline Cell* cell(uintptr_t k, bool add)
{
    size_t h = (size_t)((k * 0x9e3779b97f4a7c15ull) >> 45) & (NCELL - 1);
    for (;;)
    {
        Cell* c = &g_cells[h];
        if (c->key == k) return c;
        if (!c->key)
        {
            if (!add) return nullptr;
            if (g_used > NCELL * 3 / 4)
            {
                g_r->lost++;
                return nullptr;
            }
            g_used++;
            c->key = k;
            return c;
        }
        h = (h + 1) & (NCELL - 1);
    }
}
static const Seg* seg_of(uintptr_t a)
{
    for (int i = 0; i < g_nseg; i++)
        if (a >= g_seg[i].lo && a < g_seg[i].hi) return &g_seg[i];
    return nullptr;
}
static void race(uintptr_t a, bool w, int other, bool ow, int oop)
{
    if (g_r->race) return;
    g_r->race = true;
    const Seg* s = seg_of(a);
    char       where[120];
    if (s) snprintf(where, sizeof where, "static data of the library (offset 0x%zx)", (size_t)(a - s->base));
    else snprintf(where, sizeof where, "heap memory of an object");
    snprintf(g_r->msg, sizeof g_r->msg, "thread %d operation %d %s %s that thread %d %s in operation %d without synchronisation", t_id, g_op[t_id], w ? "writes" : "reads", where, other,
             ow ? "writes" : "reads", oop);
}
// an access to static data or to data another thread uses; conflicting
// accesses are much more likely to be preempted than shared reads
static void hot_event(bool conflict)
{
    g_r->hot_events++;
    if (!g_c.hot || g_r->switches > 3000) return;
    if (!conflict && (g_r->hot_events & 63) != 0 && g_r->hot_events > 64) return;
    if (g_rng->below(g_c.hot) == 0)
    {
        yield_now(false);
        redraw();
    }
}
static inline void touch(uintptr_t a, u8 m, bool w, bool stat)
{
    Cell* c = cell(a >> 3, true);
    if (!c) return;
    bool orr = false, ow = false;
    for (int u = 0; u < g_n; u++)
        if (u != t_id) orr |= c->rm[u] != 0, ow |= c->wm[u] != 0;
    if (stat || orr || ow)
    {
        if (stat && w) g_r->static_writes++;
        hot_event(ow || (w && (orr || stat)));
    }
    for (int u = 0; u < g_n; u++)
    {
        if (u == t_id) continue;
        if ((c->wm[u] & m) && c->w[u] > g_vc[t_id][u]) race(a, w, u, true, c->pcop[u]);
        else if (w && (c->rm[u] & m) && c->r[u] > g_vc[t_id][u]) race(a, w, u, false, c->pcop[u]);
    }
    u32 me = g_vc[t_id][t_id];
    c->pcop[t_id] = (u16)g_op[t_id];
    if (w)
    {
        if (c->w[t_id] != me) c->w[t_id] = me, c->wm[t_id] = 0;
        c->wm[t_id] |= m;
    }
    else
    {
        if (c->r[t_id] != me) c->r[t_id] = me, c->rm[t_id] = 0;
        c->rm[t_id] |= m;
    }
}
static __attribute__((noinline)) void slow(uintptr_t a, size_t n, bool w)
{
    const Seg* s = seg_of(a);
    if (s && !s->w && !w) return;
    g_ev[t_id]++;
    if (++g_r->events > g_c.maxev)
    {
        g_r->runaway = true;
        finish_stuck();
    }
    if (--g_left == 0)
    {
        redraw();
        if (g_r->switches < 6000) yield_now(false);
    }
    while (n)
    {
        size_t off = a & 7, k = 8 - off;
        if (k > n) k = n;
        touch(a, (u8)(((1u << k) - 1) << off), w, s != nullptr);
        a += k, n -= k;
    }
}
static inline void access(const void* p, size_t n, bool w)
{
    if (t_id < 0) return;
    uintptr_t a = (uintptr_t)p;
    if (a - t_lo < STK || !g_c.track) return;
    slow(a, n, w);
}
static inline void sync_point()
{
    if (t_id < 0) return;
    g_r->sync_ops++;
    g_ev[t_id]++;
    if (g_c.track && g_c.hot && g_rng->below(g_c.hot + 1) == 0) yield_now(false);
}
static void block_on(void* a)
{
    g_state[t_id] = 1, g_wait[t_id] = a;
    yield_now(true);
}
static void wake(void* a)
{
    for (int i = 0; i < g_n; i++)
        if (g_state[i] == 1 && g_wait[i] == a) g_state[i] = 0, g_wait[i] = nullptr;
}
static void forget(void* p)
{
    if (t_id < 0 || !p || !g_active || !g_c.track) return;
    uintptr_t a = (uintptr_t)p, e = a + malloc_usable_size(p);
    for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; k++)
        if (Cell* c = cell(k, false))
        {
            memset(c->wm, 0, sizeof c->wm);
            memset(c->rm, 0, sizeof c->rm);
        }
    for (size_t i = 0; i < g_nsync; i++)
        if ((uintptr_t)g_sync[i].a >= a && (uintptr_t)g_sync[i].a < e) memset(g_sync[i].vc, 0, sizeof g_sync[i].vc), g_sync[i].owner = -1, g_sync[i].count = 0;
}
static int on_phdr(struct dl_phdr_info* i, size_t, void* p)
{
    if (!i->dlpi_name || !strstr(i->dlpi_name, (const char*)p)) return 0;
    for (int k = 0; k < i->dlpi_phnum && g_nseg < 64; k++)
    {
        auto& h = i->dlpi_phdr[k];
        if (h.p_type != PT_LOAD) continue;
        uintptr_t lo = i->dlpi_addr + h.p_vaddr;
        g_seg[g_nseg++] = {lo, lo + h.p_memsz, (uintptr_t)i->dlpi_addr, (h.p_flags & PF_W) != 0, g_nlib};
    }
    return 0;
}
void add_lib(const char* part)
{
    dl_iterate_phdr(on_phdr, (void*)part);
    g_nlib++;
}
void point(int op)
{
    if (t_id < 0) return;
    g_op[t_id] = op;
    if (g_c.track && g_rng->below(2)) yield_now(false);
}
struct Arg
{
    int                    id;
    char*                  stk;
    std::function<void()>* f;
};
static void* body(void* p)
{
    Arg* a = (Arg*)p;
    while (sem_wait(&g_sem[a->id]) != 0) {}
    t_lo = (uintptr_t)a->stk;
    t_id = a->id;
    (*a->f)();
    int me = t_id;
    g_state[me] = 2;
    int cand[MAXT], k = 0;
    for (int i = 0; i < g_n; i++)
        if (g_state[i] == 0) cand[k++] = i;
    bool left = false;
    for (int i = 0; i < g_n; i++) left |= g_state[i] != 2;
    t_id = -1;
    if (k)
    {
        int nx = cand[g_rng->below(k)];
        g_r->order = hcomb(g_r->order, (u64)nx << 56 ^ (u64)me << 48 ^ g_ev[me]);
        g_cur = nx;
        sem_post(&g_sem[nx]);
    }
    else
    {
        if (left)
        {
            g_r->deadlock = true;
            snprintf(g_r->msg, sizeof g_r->msg, "thread %d finished while others wait for a lock nobody holds", me);
        }
        sem_post(&g_main);
    }
    // stay: thread exit runs destructors outside the schedule
    for (;;) pause();
    return nullptr;
}
void run(const Config& c, std::vector<std::function<void()>> fs, Report& r)
{
    memset(&r, 0, sizeof r);
    g_c = c, g_r = &r, g_n = (int)fs.size();
    g_rng   = new Prng(c.seed);
    g_cells = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sem_init(&g_main, 0, 0);
    redraw();
    for (int i = 0; i < g_n; i++)
    {
        sem_init(&g_sem[i], 0, 0);
        for (int j = 0; j < g_n; j++) g_vc[i][j] = 0;
        g_vc[i][i] = 1;
    }
    for (int i = 0; i < g_n; i++)
    {
        Arg* a = new Arg{i, (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), &fs[i]};
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, a->stk, STK);
        pthread_t th;
        if (pthread_create(&th, &at, body, a)) abort();
    }
    g_active = true;
    g_cur = (int)g_rng->below(g_n);
    sem_post(&g_sem[g_cur]);
    while (sem_wait(&g_main) != 0) {}
    g_active = false;
}
} // namespace tsim
using namespace tsim;

// --------------------------------------------------- allocation (whole process)
extern "C" {
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    forget(p);
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    forget(p);
    return p;
}
void* realloc(void* q, size_t n)
{
    void* p = __libc_realloc(q, n);
    forget(p);
    return p;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    forget(p);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n)
{
    *o = memalign(a, n);
    return *o ? 0 : ENOMEM;
}
void free(void* p) { __libc_free(p); }

// ------------------------------------------------------- instrumentation calls
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
    void __tsan_read##n(void* a) { access(a, n, false); }                  \
    void __tsan_write##n(void* a) { access(a, n, true); }                  \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false); }        \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true); }        \
    void __tsan_volatile_read##n(void* a) { access(a, n, false); }         \
    void __tsan_volatile_write##n(void* a) { access(a, n, true); }         \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true); } \
    void __tsan_read_write##n(void* a) { access(a, n, true); }             \
    void __tsan_unaligned_read_write##n(void* a) { access(a, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v) access(a, 8, true);
}
void __tsan_vptr_read(void** a) { access(a, 8, false); }

// atomics: memory orders 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) == 4 || (mo) == 5)
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
static inline void at_pre(volatile void* a, int mo)
{
    if (t_id < 0) return;
    sync_point();
    if (REL(mo)) release((void*)a);
}
static inline void at_post(volatile void* a, int mo)
{
    if (t_id >= 0 && ACQ(mo)) acquire((void*)a);
}
#define RMW(bits, ty, nm, expr)                                             \
    ty __tsan_atomic##bits##_##nm(volatile ty* a, ty v, int mo)             \
    {                                                                       \
        at_pre(a, mo);                                                      \
        ty o = *a;                                                          \
        *a   = (ty)(expr);                                                  \
        at_post(a, mo);                                                     \
        return o;                                                           \
    }
#define AT(bits, ty)                                                        \
    ty __tsan_atomic##bits##_load(const volatile ty* a, int mo)             \
    {                                                                       \
        if (t_id >= 0) sync_point();                                        \
        ty v = *a;                                                          \
        at_post((volatile void*)a, mo);                                     \
        return v;                                                           \
    }                                                                       \
    void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo)          \
    {                                                                       \
        at_pre(a, mo);                                                      \
        *a = v;                                                             \
    }                                                                       \
    RMW(bits, ty, exchange, v)                                              \
    RMW(bits, ty, fetch_add, o + v)                                         \
    RMW(bits, ty, fetch_sub, o - v)                                         \
    RMW(bits, ty, fetch_and, o & v)                                         \
    RMW(bits, ty, fetch_or, o | v)                                          \
    RMW(bits, ty, fetch_xor, o ^ v)                                         \
    RMW(bits, ty, fetch_nand, ~(o & v))                                     \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int) \
    {                                                                       \
        at_pre(a, mo);                                                      \
        ty   o  = *a;                                                       \
        bool ok = o == *c;                                                  \
        if (ok) *a = v;                                                     \
        else *c = o;                                                        \
        at_post(a, mo);                                                     \
        return ok;                                                          \
    }                                                                       \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, f); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int f)    \
    {                                                                       \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, f);     \
        return c;                                                           \
    }
AT(8, u8)
AT(16, u16)
AT(32, u32)
AT(64, u64)
void __tsan_atomic_thread_fence(int)
{
    static char f;
    if (t_id >= 0) sync_point(), release(&f), acquire(&f);
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------ calls the library makes (link --wrap)
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (n) access(s, n, false), access(d, n, true);
    return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (n) access(s, n, false), access(d, n, true);
    return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (n) access(d, n, true);
    return memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (n) access(a, n, false), access(b, n, false);
    return memcmp(a, b, n);
}
// function-local statics: byte 0 of the guard is "done", byte 1 "in progress"
int __wrap___cxa_guard_acquire(u8* g)
{
    if (t_id < 0)
    { // the parent never runs two threads
        if (g[0]) return 0;
        g[1] = 1;
        return 1;
    }
    for (;;)
    {
        sync_point();
        if (g[0])
        {
            acquire(g);
            return 0;
        }
        if (!g[1])
        {
            g[1] = 1;
            acquire(g);
            return 1;
        }
        block_on(g);
    }
}
void __wrap___cxa_guard_release(u8* g)
{
    if (t_id >= 0) sync_point(), release(g);
    g[1] = 0;
    g[0] = 1;
    if (t_id >= 0) wake(g);
}
void __wrap___cxa_guard_abort(u8* g)
{
    g[1] = 0;
    if (t_id >= 0) release(g), wake(g);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (t_id < 0) return pthread_mutex_lock(m);
    sync_point();
    Sync* s = sync_of(m);
    if (s->owner == t_id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
    {
        s->count++;
        return 0;
    }
    while (s->owner >= 0) block_on(m);
    s->owner = t_id, s->count = 1;
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (t_id < 0) return pthread_mutex_trylock(m);
    sync_point();
    Sync* s = sync_of(m);
    if (s->owner >= 0 && !(s->owner == t_id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
    s->owner = t_id, s->count++;
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (t_id < 0) return pthread_mutex_unlock(m);
    Sync* s = sync_of(m);
    if (--s->count > 0) return 0;
    s->count = 0, s->owner = -1;
    release(m);
    wake(m);
    sync_point();
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (t_id < 0) return pthread_rwlock_wrlock(m);
    sync_point();
    Sync* s = sync_of(m);
    while (s->owner >= 0 || s->count) block_on(m);
    s->owner = t_id;
    acquire(m);
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (t_id < 0) return pthread_rwlock_rdlock(m);
    sync_point();
    Sync* s = sync_of(m);
    while (s->owner >= 0) block_on(m);
    s->count++;
    acquire(m);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (t_id < 0) return pthread_rwlock_unlock(m);
    Sync* s = sync_of(m);
    if (s->owner == t_id) s->owner = -1;
    else if (s->count) s->count--;
    release(m);
    wake(m);
    sync_point();
    return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if (t_id < 0) return pthread_once(o, f);
    for (;;)
    {
        sync_point();
        Sync* s = sync_of(o);
        if (*(volatile int*)o == 2)
        {
            acquire(o);
            return 0;
        }
        if (s->owner < 0)
        {
            s->owner = t_id;
            acquire(o);
            try
            {
                f();
            }
            catch (...)
            {
                s->owner = -1;
                wake(o);
                throw;
            }
            *(volatile int*)o = 2;
            s->owner = -1;
            release(o);
            wake(o);
            return 0;
        }
        block_on(o);
    }
}
}
