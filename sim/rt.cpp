// Deterministic simulation runtime.
//
// * Threads are real pthreads parked on futexes; exactly one holds the baton. Every pthread synchronisation call, clock
//   read, sleep, thread creation, atomic operation and instrumented memory access of the code under test is a point at
//   which the seeded scheduler may hand the baton to another thread.
// * The code under test is compiled with -fsanitize=thread but linked against this file instead of libtsan: the
//   __tsan_* entry points below provide preemption points, a happens-before data race detector and heap checks.
// * operator new/delete use a private arena at a fixed address: deterministic addresses, allocation faults, detection
//   of use-after-free, out-of-bounds accesses and double frees.
#include "rt.h"

#include <stdexcept>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>
#include <random>
#include <thread>
#include <typeinfo>

namespace
{
using namespace sim;

#define NOINLINE __attribute__((noinline))
#define RET_PC reinterpret_cast<uint64_t>(__builtin_return_address(0))

inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void futex_wait(int *addr, int val) { raw_syscall(SYS_futex, (long)addr, 128 /*WAIT|PRIVATE*/, val, 0, 0, 0); }
void futex_wake(int *addr) { raw_syscall(SYS_futex, (long)addr, 129, 1, 0, 0, 0); }

// ---- fixed address layout -----------------------------------------------------------------------------------------
constexpr uintptr_t ARENA = 0x200000000000ull, ARENA_SIZE = 0x200000000ull;   // 8 GB virtual
constexpr uintptr_t AMAP = 0x210000000000ull;                                  // one byte per 8 arena bytes
constexpr uintptr_t STACKS = 0x220000000000ull, STACK_STRIDE = 0x1000000ull;   // 16 MB apart
constexpr uintptr_t RTMEM = 0x230000000000ull, RTMEM_SIZE = 0x400000000ull;    // 16 GB virtual
constexpr uintptr_t L1TAB = 0x240000000000ull;                                 // shadow directory
constexpr size_t HEAP_LIMIT = 1500ull << 20;
constexpr size_t BLOCK_LIMIT = 1ull << 30;

struct VC { uint32_t c[MAXT]; };

enum SyncKind { SK_NONE, SK_MUTEX, SK_COND, SK_RW, SK_ONCE, SK_SEM, SK_ATOMIC, SK_GUARD, SK_FUTEX, SK_BARRIER };
struct Sync
{
    uintptr_t addr;
    int kind;
    int owner;        // mutex / rw writer / once runner
    int count;        // recursion / readers / semaphore value
    int state;
    VC vc;
    Sync *next;
};

struct Entry { uint32_t clk; uint8_t tid; uint8_t mask; uint8_t flags; uint8_t used; uint64_t pc; };  // flags: 1 write, 2 atomic
struct Cell { Entry e[4]; };
struct SPage { Sync *syncs; Cell cells[512]; };

enum TState { T_FREE, T_RUN, T_MUTEX, T_COND, T_RW, T_JOIN, T_SLEEP, T_SEM, T_FUTEX, T_ONCE, T_BARRIER, T_DONE };
const char *const TSTATE[] = {"free", "runnable", "waiting for a mutex", "waiting on a condition", "waiting for a rw-lock",
                              "joining a thread", "sleeping", "waiting on a semaphore", "waiting on a futex",
                              "waiting for one-time initialisation", "waiting at a barrier", "finished"};
struct Thread
{
    int go;
    int id;
    int state;
    int quiet;
    bool joined, detached;
    bool signalled, timed_out;
    uint64_t deadline;   // 0 = none
    uint64_t wait_seq;
    Sync *wait;
    int wait_tid;
    uint64_t block_pc;
    pthread_t handle;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    double alloc_p;
    VC vc, pend_acq, fence_rel;
    bool has_pend, has_frel;
};

enum Policy { P_DEFAULT, P_RANDOM, P_PCT, P_STARVE, P_ACCESS };

struct Global
{
    bool active;
    int in_rt;
    Thread *cur;
    uint64_t tick, next_preempt;
    double alloc_all;
    int unjoined;        // threads whose end is not yet ordered before everybody else
    int live;
    Thread th[MAXT];
    uint64_t hash, accesses, syncops, switches, preempts, now;
    int max_threads;
    RunMode mode;
    Result *res;
    Rng srng{1}, frng{1};
    int policy;
    double p_sync;
    double gap;
    int prio[MAXT];
    int low_prio;
    uint64_t change[16];
    int nchange, ichange;
    int starved;
    double p_time;
    int isched;
    bool faults_on;
    double rate[MAXKIND];
    bool rate_init[MAXKIND];
    uint32_t occ[MAXKIND];
    uint64_t wait_counter;
    uint64_t nontrivial;
    MainFn main_fn;
    void *main_arg;
    unsigned hw;
    uint64_t entropy_seed, entropy_n;
    Rng erng{7};
    double entropy_fail;
    VC fence_global;
    int main_done;
    bool cap_hit;
} g;

char g_kinds[MAXKIND][32];
int g_nkinds = 0;
int g_exit_futex = 0;
pthread_key_t g_exit_key;

// ---- runtime memory -----------------------------------------------------------------------------------------------
uintptr_t rt_next = 0;
void *rt_alloc(size_t n)
{
    n = (n + 63) & ~size_t(63);
    uintptr_t p = rt_next;
    rt_next += n;
    if (rt_next > RTMEM + RTMEM_SIZE) { _exit(97); }
    return reinterpret_cast<void *>(p);
}

void map_fixed(uintptr_t addr, size_t size)
{
    void *p = mmap(reinterpret_cast<void *>(addr), size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(addr))
    {
        const char m[] = "sim runtime: cannot map its memory\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(96);
    }
}

// ---- real functions -----------------------------------------------------------------------------------------------
#define REAL(ret, name, ...)                    \
    using name##_fnp = ret (*)(__VA_ARGS__);    \
    name##_fnp real_##name = nullptr
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(int, pthread_detach, pthread_t);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const timespec *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *);
REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const timespec *);
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
REAL(int, pthread_cond_signal, pthread_cond_t *);
REAL(int, pthread_cond_broadcast, pthread_cond_t *);
REAL(int, pthread_cond_init, pthread_cond_t *, const pthread_condattr_t *);
REAL(int, pthread_cond_destroy, pthread_cond_t *);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
REAL(int, pthread_once, pthread_once_t *, void (*)());
REAL(int, nanosleep, const timespec *, timespec *);
REAL(int, clock_nanosleep, clockid_t, int, const timespec *, timespec *);
REAL(int, sched_yield, void);
REAL(int, clock_gettime, clockid_t, timespec *);
REAL(int, gettimeofday, timeval *, void *);
REAL(time_t, time, time_t *);
REAL(int, sem_wait, sem_t *);
REAL(int, sem_trywait, sem_t *);
REAL(int, sem_post, sem_t *);
REAL(int, sem_timedwait, sem_t *, const timespec *);
REAL(int, getentropy, void *, size_t);
REAL(ssize_t, getrandom, void *, size_t, unsigned);
REAL(int, __cxa_guard_acquire, void *);
REAL(void, __cxa_guard_release, void *);
REAL(void, __cxa_guard_abort, void *);
REAL(void *, __cxa_allocate_exception, size_t);

template <class F>
void load(F &f, const char *name)
{
    f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define ENSURE(name) \
    if (!real_##name) load(real_##name, #name)

void rt_die(const char *m)
{
    (void)!write(2, m, strlen(m));
    _exit(98);
}

void rt_init_once()
{
    static bool done = false;
    if (done) return;
    done = true;
    map_fixed(ARENA, ARENA_SIZE);
    map_fixed(AMAP, ARENA_SIZE / 8);
    map_fixed(RTMEM, RTMEM_SIZE);
    map_fixed(L1TAB, (1ull << 23) * 8);
    rt_next = RTMEM;
}

// ---- shadow -------------------------------------------------------------------------------------------------------
uintptr_t last_pg = 0;
SPage *last_sp = nullptr;

NOINLINE SPage *shadow_page_slow(uintptr_t a, bool create)
{
    uintptr_t pg = a >> 12;
    if ((a >> 47) != 0) return nullptr;
    SPage ***l1 = reinterpret_cast<SPage ***>(L1TAB);
    SPage **l2 = l1[pg >> 12];
    if (!l2)
    {
        if (!create) return nullptr;
        l2 = l1[pg >> 12] = static_cast<SPage **>(rt_alloc(4096 * sizeof(SPage *)));
    }
    SPage *sp = l2[pg & 4095];
    if (!sp)
    {
        if (!create) return nullptr;
        sp = l2[pg & 4095] = static_cast<SPage *>(rt_alloc(sizeof(SPage)));
    }
    last_pg = pg;
    last_sp = sp;
    return sp;
}
inline SPage *shadow_page(uintptr_t a, bool create)
{
    if (last_sp && (a >> 12) == last_pg) return last_sp;
    return shadow_page_slow(a, create);
}

Sync *find_sync(uintptr_t a)
{
    SPage *sp = shadow_page(a, false);
    if (!sp) return nullptr;
    for (Sync *s = sp->syncs; s; s = s->next)
        if (s->addr == a) return s;
    return nullptr;
}
Sync *get_sync(uintptr_t a, int kind)
{
    SPage *sp = shadow_page(a, true);
    if (!sp) rt_die("sim runtime: bad sync address\n");
    for (Sync *s = sp->syncs; s; s = s->next)
        if (s->addr == a)
        {
            if (s->kind != kind && !(kind == SK_ATOMIC) )
            {
                if (s->kind == SK_ATOMIC) { s->kind = kind; s->owner = -1; s->count = 0; s->state = 0; }
                else if (s->kind != kind) { s->kind = kind; s->owner = -1; s->count = 0; s->state = 0; }
            }
            return s;
        }
    Sync *s = static_cast<Sync *>(rt_alloc(sizeof(Sync)));
    s->addr = a;
    s->kind = kind;
    s->owner = -1;
    s->next = sp->syncs;
    sp->syncs = s;
    return s;
}
void drop_sync(uintptr_t a)
{
    SPage *sp = shadow_page(a, false);
    if (!sp) return;
    for (Sync **p = &sp->syncs; *p; p = &(*p)->next)
        if ((*p)->addr == a)
        {
            *p = (*p)->next;
            return;
        }
}

void clear_shadow(uintptr_t a, size_t n)
{
    if (!n) return;
    uintptr_t end = a + n;
    uintptr_t p = a & ~uintptr_t(7);
    while (p < end)
    {
        uintptr_t pend = (p | 4095) + 1;
        uintptr_t stop = end < pend ? end : pend;
        SPage *sp = shadow_page(p, false);
        if (sp)
        {
            size_t i0 = (p & 4095) >> 3, i1 = ((stop - 1) & 4095) >> 3;
            memset(static_cast<void *>(&sp->cells[i0]), 0, (i1 - i0 + 1) * sizeof(Cell));
            for (Sync **q = &sp->syncs; *q;)
            {
                if ((*q)->addr >= a && (*q)->addr < end) *q = (*q)->next;
                else q = &(*q)->next;
            }
        }
        p = pend;
    }
}

// ---- reporting ----------------------------------------------------------------------------------------------------
void fill_result(int status)
{
    Result *r = g.res;
    r->status = status;
    r->hash = g.hash;
    r->ticks = g.tick;
    r->accesses = g.accesses;
    r->syncops = g.syncops;
    r->switches = g.switches;
    r->preempts = g.preempts;
    r->sim_ns = g.now;
    r->max_threads = g.max_threads;
    r->nontrivial = g.nontrivial;
    r->nkinds = g_nkinds;
    for (int i = 0; i < g_nkinds; ++i) memcpy(r->kind_names[i], g_kinds[i], 32);
}

[[noreturn]] void finish(int status)
{
    g.active = false;
    fill_result(status);
    _exit(0);
}

void add_pc(uint64_t pc)
{
    Result *r = g.res;
    if (pc && r->npcs < 16) r->pcs[r->npcs++] = pc;
}

[[noreturn]] NOINLINE void vreport(const char *cls, uint64_t pc1, uint64_t pc2, const char *fmt, ...)
{
    g.active = false;
    if (g.res->status == ST_NONE)
    {
        char *m = g.res->msg;
        int n = snprintf(m, sizeof g.res->msg, "%s: ", cls);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(m + n, sizeof g.res->msg - n, fmt, ap);
        va_end(ap);
        g.res->npcs = 0;
        add_pc(pc1);
        add_pc(pc2);
        fill_result(ST_VIOLATION);
    }
    _exit(0);
}

// ---- vector clocks ------------------------------------------------------------------------------------------------
inline void vc_join(VC &a, const VC &b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
inline void vc_acquire(Thread *t, const VC &s) { vc_join(t->vc, s); }
inline void vc_release(Thread *t, VC &s)
{
    vc_join(s, t->vc);
    ++t->vc.c[t->id];
}

// ---- scheduler ----------------------------------------------------------------------------------------------------
inline void mix(uint64_t v)
{
    g.hash ^= v + 0x9E3779B97F4A7C15ull + (g.hash << 6) + (g.hash >> 2);
    g.hash *= 0xff51afd7ed558ccdull;
    g.hash ^= g.hash >> 32;
}

uint64_t geom(double mean)
{
    double u = g.srng.unit();
    double x = -mean * __builtin_log(1.0 - u);
    if (x > 1e9) x = 1e9;
    return static_cast<uint64_t>(x) + 1;
}

void record_sched(uint64_t tick, int tid)
{
    Result *r = g.res;
    if (r->nsched >= MAXREC) { r->overflow = 1; return; }
    r->sched[r->nsched].tick = tick;
    r->sched[r->nsched].tid = tid;
    r->sched[r->nsched].pad = 0;
    ++r->nsched;
}

void set_next_preempt()
{
    uint64_t n = UINT64_MAX;
    if (g.mode.replay)
    {
        while (g.isched < g.mode.nsched && g.mode.sched[g.isched].tick <= g.tick) ++g.isched;
        if (g.isched < g.mode.nsched) n = g.mode.sched[g.isched].tick;
    }
    else if (g.policy == P_PCT)
    {
        while (g.ichange < g.nchange && g.change[g.ichange] <= g.tick) ++g.ichange;
        if (g.ichange < g.nchange) n = g.change[g.ichange];
    }
    else if (g.gap > 0)
        n = g.tick + geom(g.gap);
    if (g.tick >= g.mode.fair_after)
    {
        uint64_t f = g.tick + 300;
        if (f < n) n = f;
    }
    else if (n > g.mode.fair_after)
        n = g.mode.fair_after;
    g.next_preempt = n;
}

[[noreturn]] void deadlock()
{
    char buf[3000];
    int n = 0;
    for (int i = 0; i < MAXT && n < 2800; ++i)
        if (g.th[i].state > T_RUN && g.th[i].state != T_DONE)
            n += snprintf(buf + n, sizeof buf - n, " thread %d %s;", i, TSTATE[g.th[i].state]);
    g.res->npcs = 0;
    g.active = false;
    snprintf(g.res->msg, sizeof g.res->msg, "deadlock: no thread can run:%s", buf);
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state > T_RUN && g.th[i].state != T_DONE) add_pc(g.th[i].block_pc);
    fill_result(ST_VIOLATION);
    _exit(0);
}

inline bool timed(const Thread &t) { return t.deadline != 0 && t.state != T_RUN && t.state != T_DONE && t.state != T_FREE; }

void wake_timed(Thread &t)
{
    if (g.now < t.deadline) g.now = t.deadline;
    t.timed_out = true;
    t.state = T_RUN;
}

// Candidates for the baton. Returns count, fills c[].
int runnable(int *c)
{
    int n = 0;
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state == T_RUN) c[n++] = i;
    return n;
}
int earliest_timed()
{
    int best = -1;
    for (int i = 0; i < MAXT; ++i)
        if (timed(g.th[i]) && (best < 0 || g.th[i].deadline < g.th[best].deadline)) best = i;
    return best;
}

int next_cyclic(int from)
{
    for (int k = 1; k <= MAXT; ++k)
    {
        int i = (from + k) % MAXT;
        if (g.th[i].state == T_RUN) return i;
    }
    return -1;
}

int best_prio(const int *c, int n)
{
    int b = c[0];
    for (int i = 1; i < n; ++i)
        if (g.prio[c[i]] > g.prio[b]) b = c[i];
    return b;
}

// must_leave: the current thread cannot continue (blocked or finished). yield: it asks to let others run.
enum Why { W_SYNC, W_ACCESS, W_YIELD, W_BLOCK };
int pick(Why why)
{
    int c[MAXT];
    int me = g.cur->id;
    int n = runnable(c);
    if (n == 0)
    {
        int t = earliest_timed();
        if (t < 0) deadlock();
        wake_timed(g.th[t]);
        return t;
    }
    int dflt = (why == W_SYNC || why == W_ACCESS) ? me : next_cyclic(me);
    bool fair = g.tick >= g.mode.fair_after;
    if (fair)
    {
        // Everything that sleeps must get its turn as well.
        int t = earliest_timed();
        if (t >= 0 && (g.tick & 1023) < 8) { wake_timed(g.th[t]); }
        return next_cyclic(me);
    }
    int choice = dflt;
    if (g.mode.replay)
    {
        while (g.isched < g.mode.nsched && g.mode.sched[g.isched].tick < g.tick) ++g.isched;
        if (g.isched < g.mode.nsched && g.mode.sched[g.isched].tick == g.tick)
        {
            int t = g.mode.sched[g.isched].tid;
            ++g.isched;
            if (t >= 0 && t < MAXT)
            {
                if (g.th[t].state == T_RUN) choice = t;
                else if (timed(g.th[t])) { wake_timed(g.th[t]); choice = t; }
            }
        }
    }
    else
    {
        int et;
        if (g.p_time > 0 && (et = earliest_timed()) >= 0 && g.srng.chance(g.p_time))
        {
            wake_timed(g.th[et]);
            choice = et;
        }
        else
        switch (g.policy)
        {
            case P_DEFAULT:
                if (why == W_BLOCK && n > 1) choice = c[g.srng.below(n)];
                break;
            case P_RANDOM:
            case P_ACCESS:
                if (why == W_SYNC) { if (g.srng.chance(g.p_sync)) choice = c[g.srng.below(n)]; }
                else if (n > 1)
                {
                    do { choice = c[g.srng.below(n)]; } while (choice == me && (why == W_ACCESS || why == W_YIELD));
                }
                else choice = c[0];
                break;
            case P_PCT:
                if (why == W_ACCESS || why == W_YIELD) g.prio[me] = --g.low_prio;
                choice = best_prio(c, n);
                break;
            case P_STARVE:
            {
                int d[MAXT], m = 0;
                for (int i = 0; i < n; ++i)
                    if (c[i] != g.starved) d[m++] = c[i];
                if (m == 0) { choice = c[0]; break; }
                if (why == W_SYNC && me != g.starved && !g.srng.chance(g.p_sync)) break;
                choice = d[g.srng.below(m)];
                break;
            }
        }
    }
    if (choice != dflt) record_sched(g.tick, choice);
    return choice;
}

void switch_to(int nid, bool wait_self)
{
    Thread *me = g.cur;
    if (nid == me->id) return;
    Thread *nt = &g.th[nid];
    int saved_in_rt = g.in_rt;
    ++g.switches;
    mix((g.tick << 6) ^ static_cast<uint64_t>(nid));
    g.cur = nt;
    __atomic_store_n(&nt->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&nt->go);
    if (!wait_self) return;
    while (__atomic_load_n(&me->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
    g.in_rt = saved_in_rt;
}

void check_cap()
{
    if (g.tick >= g.mode.tick_cap && !g.cap_hit)
    {
        g.cap_hit = true;
        char buf[2000];
        int n = 0;
        for (int i = 0; i < MAXT && n < 1800; ++i)
            if (g.th[i].state != T_FREE && g.th[i].state != T_DONE)
                n += snprintf(buf + n, sizeof buf - n, " thread %d %s;", i, TSTATE[g.th[i].state]);
        vreport("no progress", 0, 0, "the run did not finish within %llu steps under fair scheduling:%s",
                static_cast<unsigned long long>(g.mode.tick_cap), buf);
    }
}

// A point at which the current thread could be preempted.
void point(Why why)
{
    ++g.tick;
    if (g.tick >= g.mode.tick_cap) check_cap();
    int nid = pick(why);
    if (g.tick >= g.next_preempt) set_next_preempt();
    if (nid != g.cur->id)
    {
        ++g.preempts;
        switch_to(nid, true);
    }
}

void sync_point()
{
    ++g.syncops;
    g.now += 50;
    if (g.cur->quiet) return;
    if (g.live > 1) point(W_SYNC);
    else
    {
        ++g.tick;
        if (g.tick >= g.mode.tick_cap) check_cap();
    }
}

// The current thread cannot continue; its state is already set.
void block()
{
    ++g.tick;
    if (g.tick >= g.mode.tick_cap) check_cap();
    int nid = pick(W_BLOCK);
    if (g.tick >= g.next_preempt) set_next_preempt();
    switch_to(nid, true);
}

void wake_waiters(Sync *s, int state)
{
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state == state && g.th[i].wait == s) g.th[i].state = T_RUN;
}

struct InRt
{
    InRt() { ++g.in_rt; }
    ~InRt() { --g.in_rt; }
};

inline bool on() { return g.active; }

// ---- accesses -----------------------------------------------------------------------------------------------------
[[noreturn]] NOINLINE void heap_violation(uintptr_t a, size_t n, bool w, uint64_t pc)
{
    uint8_t m = *reinterpret_cast<uint8_t *>(AMAP + ((a - ARENA) >> 3));
    if (m == 0xFD)
        vreport("use after free", pc, 0, "%s of %zu bytes in freed heap memory", w ? "write" : "read", n);
    vreport("heap overflow", pc, 0, "%s of %zu bytes outside any heap block", w ? "write" : "read", n);
}

inline void heap_check(uintptr_t a, size_t n, bool w, uint64_t pc)
{
    if (a - ARENA >= ARENA_SIZE || n == 0) return;
    const uint8_t *m = reinterpret_cast<const uint8_t *>(AMAP);
    size_t i = (a - ARENA) >> 3, j = (a + n - 1 - ARENA) >> 3;
    for (size_t k = i; k < j; ++k)
        if (m[k] != 8) heap_violation(ARENA + (k << 3), n, w, pc);
    if (m[j] > 8 || ((a + n - 1) & 7) >= m[j]) heap_violation(a + n - 1, n, w, pc);
}

[[noreturn]] NOINLINE void race(uintptr_t a, const Entry &e, bool w, bool atomic, uint64_t pc)
{
    vreport("data race", pc, e.pc, "%s%s by thread %d is not ordered with %s%s by thread %d", atomic ? "atomic " : "",
            w ? "write" : "read", g.cur->id, (e.flags & 2) ? "atomic " : "", (e.flags & 1) ? "write" : "read", e.tid);
}

inline void race_cell(Cell *c, uintptr_t a, uint8_t mask, uint8_t flags, uint64_t pc)
{
    Thread *t = g.cur;
    int slot = -1, empty = -1, dead = -1;
    for (int i = 0; i < 4; ++i)
    {
        Entry &e = c->e[i];
        if (!e.used) { if (empty < 0) empty = i; continue; }
        if (e.tid == t->id)
        {
            if ((e.mask & ~mask) == 0 && ((flags & 1) || !(e.flags & 1)) && ((e.flags & 2) == (flags & 2) || !(flags & 2))) slot = i;
            else if (e.mask == mask && e.flags == flags) slot = i;
            continue;
        }
        if (e.clk <= t->vc.c[e.tid]) { if (dead < 0) dead = i; continue; }
        if ((e.mask & mask) && ((e.flags | flags) & 1) && !((e.flags & flags) & 2)) race(a, e, flags & 1, flags & 2, pc);
    }
    if (slot < 0) slot = empty;
    if (slot < 0) slot = dead;
    if (slot < 0) slot = static_cast<int>((a >> 3) + t->vc.c[t->id]) & 3;
    Entry &e = c->e[slot];
    e.clk = t->vc.c[t->id];
    e.tid = static_cast<uint8_t>(t->id);
    e.mask = mask;
    e.flags = flags;
    e.used = 1;
    e.pc = pc;
}

NOINLINE void race_range(uintptr_t a, size_t n, uint8_t flags, uint64_t pc)
{
    uintptr_t end = a + n;
    while (a < end)
    {
        uintptr_t base = a & ~uintptr_t(7);
        unsigned lo = a & 7;
        unsigned hi = end - base >= 8 ? 8 : static_cast<unsigned>(end - base);
        uint8_t mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
        SPage *sp = shadow_page(a, true);
        if (!sp) return;
        race_cell(&sp->cells[(a & 4095) >> 3], a, mask, flags, pc);
        a = base + 8;
    }
}

template <bool RACES = true>
inline void access(uintptr_t a, size_t n, bool w, uint64_t pc)
{
    if (!g.active || g.in_rt || g.cur->quiet) return;
    ++g.accesses;
    heap_check(a, n, w, pc);
    ++g.tick;
    if (g.tick >= g.mode.tick_cap) check_cap();
    if (g.unjoined > 1)
    {
        if (g.tick >= g.next_preempt)
        {
            if (g.live > 1) { --g.tick; point(W_ACCESS); }
            else set_next_preempt();
        }
        if (!RACES) return;
        unsigned lo = a & 7;
        if (lo + n <= 8)
        {
            SPage *sp = shadow_page(a, true);
            if (sp) race_cell(&sp->cells[(a & 4095) >> 3], a, static_cast<uint8_t>(((1u << n) - 1) << lo), w ? 1 : 0, pc);
        }
        else race_range(a, n, w ? 1 : 0, pc);
    }
}

// ---- atomics ------------------------------------------------------------------------------------------------------
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void atomic_before(uintptr_t a, size_t n, bool w, uint64_t pc)
{
    heap_check(a, n, w, pc);
    sync_point();
    if (g.unjoined > 1) race_range(a, n, static_cast<uint8_t>(2 | (w ? 1 : 0)), pc);
}
void atomic_sync(uintptr_t a, bool ld, bool st, int mo)
{
    if (g.unjoined <= 1) return;
    Thread *t = g.cur;
    Sync *s = get_sync(a, SK_ATOMIC);
    if (ld)
    {
        if (is_acq(mo)) vc_acquire(t, s->vc);
        else { vc_join(t->pend_acq, s->vc); t->has_pend = true; }
    }
    if (st)
    {
        if (is_rel(mo)) vc_release(t, s->vc);
        else if (t->has_frel) vc_join(s->vc, t->fence_rel);
    }
}

// ---- decisions ----------------------------------------------------------------------------------------------------
int kid(const char *name)
{
    for (int i = 0; i < g_nkinds; ++i)
        if (!strcmp(g_kinds[i], name)) return i;
    if (g_nkinds >= MAXKIND) rt_die("sim runtime: too many fault kinds\n");
    strncpy(g_kinds[g_nkinds], name, 31);
    return g_nkinds++;
}

long do_choose(int k, long n, double p)
{
    if (!g.faults_on || n < 2) return 0;
    uint32_t occ = g.occ[k]++;
    ++g.res->fault_asked[k];
    long v = 0;
    if (g.mode.replay)
    {
        for (int i = 0; i < g.mode.nfault; ++i)
            if (g.mode.faults[i].kind == k && g.mode.faults[i].occ == occ) { v = g.mode.faults[i].val; break; }
        if (v < 0 || v >= n) v = v < 0 ? 0 : v % n;
    }
    else
    {
        if (!g.rate_init[k])
        {
            // Swarm: each kind is off, rare, normal or frequent in a given run.
            static const double mult[] = {0, 0, 0.2, 1, 1, 1, 3};
            // Derived from the kind's name, not its index, so registration order is irrelevant.
            uint64_t h = g.mode.sched_seed * 31 + 17;
            for (const char *s = g_kinds[k]; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 0x100000001b3ull;
            Rng r(h);
            g.rate[k] = mult[r.below(7)];
            g.rate_init[k] = true;
        }
        double q = p >= 1.0 ? 1.0 : p * g.rate[k];
        if (q > 0 && g.frng.chance(q)) v = 1 + static_cast<long>(g.frng.below(static_cast<uint64_t>(n - 1)));
    }
    if (v)
    {
        ++g.res->fault_fired[k];
        mix((static_cast<uint64_t>(occ) << 20) ^ static_cast<uint64_t>(v));
        for (const char *s = g_kinds[k]; *s; ++s) mix(static_cast<unsigned char>(*s));
        Result *r = g.res;
        if (r->nfault < MAXFREC)
        {
            r->faults[r->nfault].kind = k;
            r->faults[r->nfault].occ = occ;
            r->faults[r->nfault].val = v;
            ++r->nfault;
        }
        else r->overflow = 1;
    }
    return v;
}

// ---- heap ---------------------------------------------------------------------------------------------------------
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
constexpr uint32_t MAGIC_LIVE = 0xA110CA7E, MAGIC_DEAD = 0xDEADF4EE;
constexpr int NCLS = 160;
struct FreeQ { Hdr *head, *tail; size_t n; };
struct Heap
{
    uintptr_t next;
    size_t live_bytes, live_blocks;
    FreeQ q[NCLS];
} heap;

int size_class(size_t n, size_t *cap)
{
    n = (n + 15) & ~size_t(15);
    if (n == 0) n = 16;
    if (n <= 1024) { *cap = n; return static_cast<int>(n / 16); }   // 1..64
    int k = 65;
    size_t base = 1024;
    for (;;)
    {
        for (int q = 1; q <= 4; ++q, ++k)
        {
            size_t s = base + base / 4 * q;
            if (n <= s) { *cap = s; return k; }
        }
        base *= 2;
        if (k >= NCLS - 8) { *cap = (n + 4095) & ~size_t(4095); return NCLS - 1; }
    }
}

void *arena_alloc(size_t n, size_t align)
{
    if (n > BLOCK_LIMIT || heap.live_bytes + n > HEAP_LIMIT) return nullptr;
    if (!heap.next) heap.next = ARENA + 64;
    size_t cap;
    int cls = size_class(n + 1, &cap);
    Hdr *h = nullptr;
    if (align <= 16 && cls != NCLS - 1)
    {
        FreeQ &q = heap.q[cls];
        size_t hold = cap <= 1024 ? 512 : cap <= 65536 ? 64 : 4;
        if (q.n > hold)
        {
            h = q.head;
            q.head = *reinterpret_cast<Hdr **>(h + 1);
            --q.n;
        }
    }
    if (!h)
    {
        uintptr_t p = heap.next + sizeof(Hdr);
        p = (p + align - 1) & ~uintptr_t(align - 1);
        if (p & 15) p = (p + 15) & ~uintptr_t(15);
        uintptr_t end = p + cap + 16;
        if (end > ARENA + ARENA_SIZE) return nullptr;
        heap.next = (end + 15) & ~uintptr_t(15);
        h = reinterpret_cast<Hdr *>(p) - 1;
    }
    h->size = n;
    h->cls = align <= 16 ? cls : NCLS - 1;
    h->magic = MAGIC_LIVE;
    uintptr_t p = reinterpret_cast<uintptr_t>(h + 1);
    uint8_t *m = reinterpret_cast<uint8_t *>(AMAP + ((p - ARENA) >> 3));
    memset(m, 8, n >> 3);
    m[n >> 3] = static_cast<uint8_t>(n & 7);
    memset(m + (n >> 3) + 1, 0, (cap >> 3) > (n >> 3) + 1 ? (cap >> 3) - (n >> 3) - 1 : 0);
    memset(reinterpret_cast<void *>(p), 0xCD, n <= 65536 ? n : 65536);
    heap.live_bytes += n;
    ++heap.live_blocks;
    return reinterpret_cast<void *>(p);
}

void arena_free(void *ptr, uint64_t pc)
{
    uintptr_t p = reinterpret_cast<uintptr_t>(ptr);
    Hdr *h = static_cast<Hdr *>(ptr) - 1;
    if ((p & 15) || h->magic != MAGIC_LIVE)
    {
        if (!(p & 15) && h->magic == MAGIC_DEAD) vreport("double free", pc, 0, "heap block freed twice");
        vreport("bad free", pc, 0, "free of something that is not a live heap block");
    }
    size_t n = h->size;
    if (g.active && g.unjoined > 1 && !g.cur->quiet && !g.in_rt)
    {
        InRt r;
        race_range(p, n < 4096 ? n : 4096, 1, pc);
    }
    clear_shadow(p, n);
    uint8_t *m = reinterpret_cast<uint8_t *>(AMAP + ((p - ARENA) >> 3));
    memset(m, 0xFD, (n >> 3) + 1);
    memset(ptr, 0xDD, n <= 65536 ? n : 65536);
    h->magic = MAGIC_DEAD;
    heap.live_bytes -= n;
    --heap.live_blocks;
    if (h->cls != NCLS - 1)
    {
        FreeQ &q = heap.q[h->cls];
        *reinterpret_cast<Hdr **>(h + 1) = nullptr;
        if (q.n == 0) q.head = h;
        else *reinterpret_cast<Hdr **>(q.tail + 1) = h;
        q.tail = h;
        ++q.n;
    }
    else if (n > (1 << 20))
    {
        uintptr_t a = (p + 4095) & ~uintptr_t(4095), e = (p + n) & ~uintptr_t(4095);
        if (e > a) madvise(reinterpret_cast<void *>(a), e - a, MADV_DONTNEED);
    }
}

inline bool in_arena(const void *p) { return reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SIZE; }

void *op_new(size_t n, size_t align, bool nothrow)
{
    void *p;
    if (g.active)
    {
        Thread *t = g.cur;
        double ap = t->alloc_p < 0 ? 0 : t->alloc_p > g.alloc_all ? t->alloc_p : g.alloc_all;
        if (ap > 0 && !t->quiet && !g.in_rt)
        {
            static int kind = -1;
            if (kind < 0) kind = kid("alloc");
            if (do_choose(kind, 2, ap))
            {
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        InRt r;
        p = arena_alloc(n, align);
    }
    else
    {
        if (align <= 16) p = malloc(n ? n : 1);
        else if (posix_memalign(&p, align, n ? n : 1)) p = nullptr;
    }
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void op_delete(void *p, uint64_t pc)
{
    if (!p) return;
    if (in_arena(p))
    {
        if (!g.active) return;
        InRt r;
        arena_free(p, pc);
    }
    else
    {
        if (g.active) clear_shadow(reinterpret_cast<uintptr_t>(p), 16);
        free(p);
    }
}

// ---- crashes ------------------------------------------------------------------------------------------------------
void on_signal(int sig, siginfo_t *si, void *uc)
{
    if (g.res && g.res->status == ST_NONE)
    {
        uint64_t pc = static_cast<uint64_t>(static_cast<ucontext_t *>(uc)->uc_mcontext.gregs[REG_RIP]);
        const char *what = sig == SIGSEGV ? "segmentation fault" : sig == SIGBUS ? "bus error" : sig == SIGFPE ? "arithmetic exception"
                         : sig == SIGILL ? "illegal instruction" : sig == SIGABRT ? "abort" : sig == SIGXCPU ? "hang" : "signal";
        if (sig == SIGXCPU) vreport("hang", 0, 0, "the run used up its CPU time without finishing");
        // Return addresses from the frame-pointer-less stack are not reliable; the faulting pc is.
        vreport(sig == SIGABRT ? "abort" : "crash", pc, 0, "%s", what);
    }
    _exit(99);
}

[[noreturn]] void on_terminate()
{
    char buf[500] = "std::terminate called";
    if (std::exception_ptr e = std::current_exception())
    {
        try { std::rethrow_exception(e); }
        catch (const std::exception &ex) { snprintf(buf, sizeof buf, "uncaught exception: %s", ex.what()); }
        catch (...) { snprintf(buf, sizeof buf, "uncaught exception of unknown type"); }
    }
    if (g.active) vreport("terminate", 0, 0, "%s (thread %d)", buf, g.cur->id);
    _exit(99);
}

void install_altstack()
{
    stack_t ss{};
    ss.ss_sp = rt_alloc(65536);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
}

// ---- threads ------------------------------------------------------------------------------------------------------
void exit_handoff(void *v)
{
    // Runs after the C++ thread_local destructors; go last among the key destructors.
    Thread *t = static_cast<Thread *>(v);
    static int rounds[MAXT];
    if (!g.active) return;
    if (rounds[t->id] < 2)
    {
        ++rounds[t->id];
        pthread_setspecific(g_exit_key, v);
        return;
    }
    rounds[t->id] = 0;
    ++g.in_rt;
    t->state = T_DONE;
    --g.live;
    // What the thread did is visible to whoever joins it.
    ++t->vc.c[t->id];
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state == T_JOIN && g.th[i].wait_tid == t->id) g.th[i].state = T_RUN;
    ++g.tick;
    int nid = pick(W_BLOCK);
    if (g.tick >= g.next_preempt) set_next_preempt();
    --g.in_rt;
    switch_to(nid, false);
}

void *trampoline(void *v)
{
    Thread *t = static_cast<Thread *>(v);
    while (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    g.in_rt = 1;
    install_altstack();
    pthread_setspecific(g_exit_key, t);
    g.in_rt = 0;
    t->ret = t->fn(t->arg);
    return t->ret;
}

void *main_trampoline(void *v)
{
    Thread *t = static_cast<Thread *>(v);
    while (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    install_altstack();
    g.in_rt = 0;
    g.main_fn(g.main_arg);
    finish(ST_OK);
}

Thread *new_thread()
{
    int id = -1;
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state == T_FREE) { id = i; break; }
    if (id < 0)
    {
        snprintf(g.res->msg, sizeof g.res->msg, "too many threads for the simulator");
        finish(ST_DISCARD);
    }
    Thread *t = &g.th[id];
    VC old = t->vc;
    memset(static_cast<void *>(t), 0, sizeof *t);
    t->id = id;
    t->state = T_RUN;
    t->vc.c[id] = old.c[id] + 1;
    ++g.live;
    ++g.unjoined;
    if (g.live > g.max_threads) g.max_threads = g.live;
    return t;
}

void map_stack(int id)
{
    static bool mapped[MAXT];
    if (mapped[id]) return;
    mapped[id] = true;
    map_fixed(STACKS + static_cast<uintptr_t>(id) * STACK_STRIDE, STACK_STRIDE - 0x100000);
}

int start_real(Thread *t, void *(*tramp)(void *))
{
    map_stack(t->id);
    pthread_attr_t at;
    pthread_attr_init(&at);
    size_t sz = t->id == 0 ? STACK_STRIDE - 0x100000 : 0x200000;
    pthread_attr_setstack(&at, reinterpret_cast<void *>(STACKS + static_cast<uintptr_t>(t->id) * STACK_STRIDE + (STACK_STRIDE - 0x100000 - sz)), sz);
    int rc = real_pthread_create(&t->handle, &at, tramp, t);
    pthread_attr_destroy(&at);
    return rc;
}

Thread *by_handle(pthread_t h)
{
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state != T_FREE && !g.th[i].joined && pthread_equal(g.th[i].handle, h)) return &g.th[i];
    return nullptr;
}

uint64_t ts_ns(const timespec *ts) { return static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec); }
constexpr uint64_t REAL_BASE = 1700000000ull * 1000000000ull, MONO_BASE = 5000ull * 1000000000ull;
uint64_t abs_to_sim(clockid_t c, const timespec *ts)
{
    uint64_t base = (c == CLOCK_REALTIME) ? REAL_BASE : MONO_BASE;
    uint64_t v = ts_ns(ts);
    uint64_t d = v > base ? v - base : 0;
    return d == 0 ? 1 : d;
}

int mutex_type(pthread_mutex_t *m) { return m->__data.__kind & 3; }

int mutex_acquire(pthread_mutex_t *m, uint64_t pc, bool try_only, uint64_t deadline)
{
    Thread *t = g.cur;
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(m), SK_MUTEX);
    if (s->owner == t->id)
    {
        int ty = mutex_type(m);
        if (ty == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
        if (ty == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try_only) return EBUSY;
    }
    while (s->owner != -1)
    {
        if (try_only) return EBUSY;
        t->state = T_MUTEX;
        t->wait = s;
        t->block_pc = pc;
        t->deadline = deadline;
        t->timed_out = false;
        block();
        t->deadline = 0;
        if (t->timed_out && s->owner != -1) { t->timed_out = false; return ETIMEDOUT; }
    }
    s->owner = t->id;
    s->count = 1;
    vc_acquire(t, s->vc);
    return 0;
}
int mutex_release(pthread_mutex_t *m, uint64_t pc, bool full)
{
    Thread *t = g.cur;
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(m), SK_MUTEX);
    if (s->owner != t->id)
    {
        if (s->owner == -1) vreport("unlock of an unlocked mutex", pc, 0, "thread %d", t->id);
        vreport("unlock of a mutex owned by another thread", pc, 0, "thread %d", t->id);
    }
    if (!full && --s->count > 0) return 0;
    s->owner = -1;
    s->count = 0;
    vc_release(t, s->vc);
    wake_waiters(s, T_MUTEX);
    return 0;
}

int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline, uint64_t pc)
{
    Thread *t = g.cur;
    sync_point();
    static int spk = -1;
    if (spk < 0) spk = kid("spurious_wakeup");
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(c), SK_COND);
    Sync *ms = get_sync(reinterpret_cast<uintptr_t>(m), SK_MUTEX);
    int saved = ms->count;
    bool spurious = !t->quiet && do_choose(spk, 2, 0.1) != 0;
    mutex_release(m, pc, true);
    int rc = 0;
    if (spurious)
    {
        if (g.live > 1) point(W_YIELD);
    }
    else
    {
        t->state = T_COND;
        t->wait = s;
        t->wait_seq = ++g.wait_counter;
        t->block_pc = pc;
        t->deadline = deadline;
        t->timed_out = false;
        t->signalled = false;
        block();
        if (t->timed_out && !t->signalled) rc = ETIMEDOUT;
        t->timed_out = false;
        t->deadline = 0;
        vc_acquire(t, s->vc);
    }
    mutex_acquire(m, pc, false, 0);
    get_sync(reinterpret_cast<uintptr_t>(m), SK_MUTEX)->count = saved;
    return rc;
}

void cond_wake(Sync *s, bool all)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < MAXT; ++i)
        if (g.th[i].state == T_COND && g.th[i].wait == s) w[n++] = i;
    for (int i = 1; i < n; ++i)   // oldest first
        for (int j = i; j > 0 && g.th[w[j]].wait_seq < g.th[w[j - 1]].wait_seq; --j) { int x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
    if (n == 0) return;
    if (all)
    {
        for (int i = 0; i < n; ++i) { g.th[w[i]].signalled = true; g.th[w[i]].state = T_RUN; }
        return;
    }
    static int pk = -1;
    if (pk < 0) pk = kid("wake_order");
    long i = do_choose(pk, n, 0.5);
    g.th[w[i]].signalled = true;
    g.th[w[i]].state = T_RUN;
}

void do_sleep(uint64_t ns, uint64_t pc)
{
    Thread *t = g.cur;
    ++g.syncops;
    t->state = T_SLEEP;
    t->wait = nullptr;
    t->block_pc = pc;
    t->deadline = g.now + ns + 1;
    t->timed_out = false;
    block();
    t->deadline = 0;
    t->timed_out = false;
}

void sim_bytes(void *buf, size_t n)
{
    unsigned char *b = static_cast<unsigned char *>(buf);
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t v = g.erng.next();
        for (size_t k = 0; k < 8 && i + k < n; ++k) b[i + k] = static_cast<unsigned char>(v >> (8 * k));
    }
    ++g.entropy_n;
}
}  // namespace

// =================================================== public API ====================================================
namespace sim
{
bool active() { return g.active; }
int kind_id(const char *name) { return kid(name); }
const char *kind_name(int id) { return g_kinds[id]; }
int kind_count() { return g_nkinds; }

long choose(const char *kind, long n, double p)
{
    if (!g.active) return 0;
    InRt r;
    return do_choose(kid(kind), n, p);
}
void faults_enabled(bool on_) { g.faults_on = on_; }

void violation(const char *cls, const char *fmt, ...)
{
    char buf[5000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    ++g.in_rt;
    vreport(cls, 0, 0, "%s", buf);
}
void discard(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g.res->msg, sizeof g.res->msg, fmt, ap);
    va_end(ap);
    finish(ST_DISCARD);
}
void obs(uint64_t v) { if (g.active) mix(v); }
void obs_bytes(const void *p, size_t n)
{
    if (!g.active) return;
    const unsigned char *b = static_cast<const unsigned char *>(p);
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    mix(h);
}
void nontrivial(uint64_t n) { g.nontrivial += n; }
void probe(const char *name, uint64_t n)
{
    if (!g.active) return;
    Result *r = g.res;
    for (int i = 0; i < r->nprobes; ++i)
        if (!strcmp(r->probes[i].name, name)) { r->probes[i].n += n; return; }
    if (r->nprobes >= MAXPROBE) return;
    strncpy(r->probes[r->nprobes].name, name, 39);
    r->probes[r->nprobes++].n = n;
}
uint64_t tick() { return g.tick; }
uint64_t now_ns() { return g.now; }
int self() { return g.cur ? g.cur->id : 0; }
int live_threads() { return g.live; }
void yield_point()
{
    if (!g.active) return;
    InRt r;
    if (g.live > 1) point(W_YIELD);
}
Quiet::Quiet() { if (g.active) ++g.cur->quiet; }
Quiet::~Quiet() { if (g.active) --g.cur->quiet; }
AllocFaults::AllocFaults(double p) { prev = g.active ? g.cur->alloc_p : 0; if (g.active) g.cur->alloc_p = p; }
AllocFaults::~AllocFaults() { if (g.active) g.cur->alloc_p = prev; }
NoAllocFaults::NoAllocFaults() { prev = g.active ? g.cur->alloc_p : 0; if (g.active) g.cur->alloc_p = -1; }
NoAllocFaults::~NoAllocFaults() { if (g.active) g.cur->alloc_p = prev; }
void alloc_faults_everywhere(double p) { g.alloc_all = p; }
void set_hardware_concurrency(unsigned n) { g.hw = n; }
void set_entropy(uint64_t seed, double p_fail) { g.erng = Rng(seed); g.entropy_fail = p_fail; }
uint64_t entropy_calls() { return g.entropy_n; }
size_t heap_live_bytes() { return heap.live_bytes; }
size_t heap_live_blocks() { return heap.live_blocks; }

void run_simulation(const RunMode &mode, Result *result, MainFn fn, void *arg)
{
    rt_init_once();
    ENSURE(pthread_create);
    ENSURE(pthread_join);
    ENSURE(pthread_detach);
    ENSURE(pthread_mutex_lock);
    ENSURE(pthread_mutex_unlock);
    ENSURE(pthread_once);
    ENSURE(__cxa_guard_acquire);
    ENSURE(__cxa_guard_release);
    ENSURE(__cxa_guard_abort);
    ENSURE(__cxa_allocate_exception);
    g.mode = mode;
    g.res = result;
    g.main_fn = fn;
    g.main_arg = arg;
    g.hash = 0x243F6A8885A308D3ull;
    g.faults_on = true;
    g.hw = 4;
    g.erng = Rng(12345);
    g.srng = Rng(mode.sched_seed ^ 0x5CED5CEDull);
    g.frng = Rng(mode.sched_seed ^ 0xFA017FA017ull);
    Rng pr(mode.sched_seed ^ 0x90110C1ull);
    if (!mode.replay)
    {
        static const double gaps[] = {12, 40, 150, 600, 3000, 20000};
        static const double psync[] = {0.02, 0.1, 0.3, 0.6, 1.0};
        switch (pr.below(10))
        {
            case 0: g.policy = P_DEFAULT; break;
            case 1: case 2: case 3: g.policy = P_RANDOM; break;
            case 4: case 5: g.policy = P_PCT; break;
            case 6: g.policy = P_STARVE; break;
            default: g.policy = P_ACCESS; break;
        }
        g.p_sync = psync[pr.below(5)];
        g.gap = 0;
        if (g.policy == P_ACCESS) { g.gap = gaps[pr.below(6)]; g.p_sync *= 0.3; }
        if (g.policy == P_STARVE && pr.chance(0.5)) g.gap = gaps[3 + pr.below(3)];
        g.starved = static_cast<int>(pr.below(5));
        g.p_time = pr.chance(0.5) ? 0.01 : 0.2;
        for (int i = 0; i < MAXT; ++i) g.prio[i] = static_cast<int>(pr.below(1000000)) + 100;
        if (g.policy == P_PCT)
        {
            g.nchange = static_cast<int>(pr.below(9));
            double span = __builtin_pow(10.0, 2.0 + 4.0 * pr.unit());
            for (int i = 0; i < g.nchange; ++i) g.change[i] = 1 + static_cast<uint64_t>(pr.unit() * span);
            for (int i = 1; i < g.nchange; ++i)
                for (int j = i; j > 0 && g.change[j] < g.change[j - 1]; --j) { uint64_t x = g.change[j]; g.change[j] = g.change[j - 1]; g.change[j - 1] = x; }
        }
    }
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigemptyset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    pthread_key_create(&g_exit_key, exit_handoff);
    for (int i = 0; i < MAXT; ++i) g.th[i].id = i;
    Thread *t = new_thread();
    g.cur = t;
    set_next_preempt();
    g.active = true;
    ++g.in_rt;
    if (start_real(t, main_trampoline)) _exit(95);
    --g.in_rt;
    t->go = 1;
    futex_wake(&t->go);
    for (;;) futex_wait(&g_exit_futex, 0);
}
}  // namespace sim

// ================================================= interposed symbols ==============================================
extern "C"
{
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    ENSURE(pthread_create);
    if (!on()) return real_pthread_create(out, attr, fn, arg);
    InRt r;
    sync_point();
    static int k = -1;
    if (k < 0) k = kid("thread_create");
    if (g.cur->alloc_p > 0 && do_choose(k, 2, 0.02)) return EAGAIN;
    Thread *me = g.cur;
    Thread *t = new_thread();
    t->fn = fn;
    t->arg = arg;
    vc_join(t->vc, me->vc);
    ++me->vc.c[me->id];
    ++t->vc.c[t->id];
    if (attr)
    {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    int rc = start_real(t, trampoline);
    if (rc) rt_die("sim runtime: pthread_create failed\n");
    *out = t->handle;
    mix(0x7c0 + static_cast<uint64_t>(t->id));
    if (g.live > 1) point(W_SYNC);
    return 0;
}

int pthread_join(pthread_t h, void **ret)
{
    ENSURE(pthread_join);
    if (!on()) return real_pthread_join(h, ret);
    InRt r;
    sync_point();
    Thread *me = g.cur;
    Thread *t = by_handle(h);
    if (!t) return ESRCH;
    if (t == me) return EDEADLK;
    while (t->state != T_DONE)
    {
        me->state = T_JOIN;
        me->wait_tid = t->id;
        me->block_pc = RET_PC;
        block();
    }
    real_pthread_join(h, nullptr);
    vc_join(me->vc, t->vc);
    t->joined = true;
    --g.unjoined;
    if (ret) *ret = t->ret;
    t->state = T_FREE;
    return 0;
}

int pthread_detach(pthread_t h)
{
    ENSURE(pthread_detach);
    if (!on()) return real_pthread_detach(h);
    InRt r;
    Thread *t = by_handle(h);
    if (t) t->detached = true;
    return 0;
}

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    ENSURE(pthread_mutex_init);
    if (on()) { InRt r; drop_sync(reinterpret_cast<uintptr_t>(m)); }
    return real_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    ENSURE(pthread_mutex_destroy);
    if (!on()) return real_pthread_mutex_destroy(m);
    InRt r;
    Sync *s = find_sync(reinterpret_cast<uintptr_t>(m));
    if (s && s->kind == SK_MUTEX && s->owner != -1) vreport("mutex destroyed while locked", RET_PC, 0, "by thread %d", g.cur->id);
    drop_sync(reinterpret_cast<uintptr_t>(m));
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    ENSURE(pthread_mutex_lock);
    if (!on()) return real_pthread_mutex_lock(m);
    InRt r;
    heap_check(reinterpret_cast<uintptr_t>(m), sizeof *m, true, RET_PC);
    sync_point();
    return mutex_acquire(m, RET_PC, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    ENSURE(pthread_mutex_trylock);
    if (!on()) return real_pthread_mutex_trylock(m);
    InRt r;
    sync_point();
    return mutex_acquire(m, RET_PC, true, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts)
{
    ENSURE(pthread_mutex_timedlock);
    if (!on()) return real_pthread_mutex_timedlock(m, ts);
    InRt r;
    sync_point();
    return mutex_acquire(m, RET_PC, false, abs_to_sim(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts)
{
    if (!on()) return EINVAL;
    InRt r;
    sync_point();
    return mutex_acquire(m, RET_PC, false, abs_to_sim(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    ENSURE(pthread_mutex_unlock);
    if (!on()) return real_pthread_mutex_unlock(m);
    InRt r;
    heap_check(reinterpret_cast<uintptr_t>(m), sizeof *m, true, RET_PC);
    int rc = mutex_release(m, RET_PC, false);
    sync_point();
    return rc;
}

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    ENSURE(pthread_cond_init);
    if (on()) { InRt r; drop_sync(reinterpret_cast<uintptr_t>(c)); }
    return real_pthread_cond_init(c, a);
}
int pthread_cond_destroy(pthread_cond_t *c)
{
    ENSURE(pthread_cond_destroy);
    if (!on()) return real_pthread_cond_destroy(c);
    InRt r;
    Sync *s = find_sync(reinterpret_cast<uintptr_t>(c));
    if (s)
        for (int i = 0; i < MAXT; ++i)
            if (g.th[i].state == T_COND && g.th[i].wait == s)
                vreport("condition variable destroyed while waited on", RET_PC, 0, "thread %d is waiting", i);
    drop_sync(reinterpret_cast<uintptr_t>(c));
    return 0;
}
static clockid_t cond_clock(pthread_cond_t *c)
{
    // glibc keeps the clock id in bit 1 of __wrefs.
    return (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    ENSURE(pthread_cond_wait);
    if (!on()) return real_pthread_cond_wait(c, m);
    InRt r;
    return cond_wait_impl(c, m, 0, RET_PC);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts)
{
    ENSURE(pthread_cond_timedwait);
    if (!on()) return real_pthread_cond_timedwait(c, m, ts);
    InRt r;
    return cond_wait_impl(c, m, abs_to_sim(cond_clock(c), ts), RET_PC);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const timespec *ts)
{
    ENSURE(pthread_cond_clockwait);
    if (!on()) return real_pthread_cond_clockwait(c, m, clk, ts);
    InRt r;
    return cond_wait_impl(c, m, abs_to_sim(clk, ts), RET_PC);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    ENSURE(pthread_cond_signal);
    if (!on()) return real_pthread_cond_signal(c);
    InRt r;
    sync_point();
    heap_check(reinterpret_cast<uintptr_t>(c), sizeof *c, true, RET_PC);
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(c), SK_COND);
    cond_wake(s, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    ENSURE(pthread_cond_broadcast);
    if (!on()) return real_pthread_cond_broadcast(c);
    InRt r;
    sync_point();
    heap_check(reinterpret_cast<uintptr_t>(c), sizeof *c, true, RET_PC);
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(c), SK_COND);
    cond_wake(s, true);
    return 0;
}

// ---- rw locks ----
static int rw_lock(pthread_rwlock_t *l, bool write, bool try_only, uint64_t pc)
{
    Thread *t = g.cur;
    sync_point();
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(l), SK_RW);
    while (write ? (s->owner != -1 || s->count > 0) : s->owner != -1)
    {
        if (try_only) return EBUSY;
        t->state = T_RW;
        t->wait = s;
        t->block_pc = pc;
        block();
    }
    if (write) s->owner = t->id;
    else ++s->count;
    vc_acquire(t, s->vc);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    ENSURE(pthread_rwlock_rdlock);
    if (!on()) return real_pthread_rwlock_rdlock(l);
    InRt r;
    return rw_lock(l, false, false, RET_PC);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    ENSURE(pthread_rwlock_wrlock);
    if (!on()) return real_pthread_rwlock_wrlock(l);
    InRt r;
    return rw_lock(l, true, false, RET_PC);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
    ENSURE(pthread_rwlock_tryrdlock);
    if (!on()) return real_pthread_rwlock_tryrdlock(l);
    InRt r;
    return rw_lock(l, false, true, RET_PC);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
    ENSURE(pthread_rwlock_trywrlock);
    if (!on()) return real_pthread_rwlock_trywrlock(l);
    InRt r;
    return rw_lock(l, true, true, RET_PC);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    ENSURE(pthread_rwlock_unlock);
    if (!on()) return real_pthread_rwlock_unlock(l);
    InRt r;
    Thread *t = g.cur;
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(l), SK_RW);
    if (s->owner == t->id) s->owner = -1;
    else if (s->count > 0) --s->count;
    else vreport("unlock of an unlocked rw-lock", RET_PC, 0, "thread %d", t->id);
    // Reader/reader edges are a harmless over-approximation of happens-before.
    vc_release(t, s->vc);
    wake_waiters(s, T_RW);
    sync_point();
    return 0;
}

// ---- once ----
int pthread_once(pthread_once_t *o, void (*fn)())
{
    ENSURE(pthread_once);
    if (!on()) return real_pthread_once(o, fn);
    ++g.in_rt;
    Thread *t = g.cur;
    sync_point();
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(o), SK_ONCE);
    if (s->state == 0 && *reinterpret_cast<int *>(o) == 2) s->state = 2;
    while (s->state == 1)
    {
        t->state = T_ONCE;
        t->wait = s;
        t->block_pc = RET_PC;
        block();
    }
    if (s->state == 2)
    {
        vc_acquire(t, s->vc);
        --g.in_rt;
        return 0;
    }
    s->state = 1;
    --g.in_rt;
    try
    {
        fn();
    }
    catch (...)
    {
        InRt r;
        s->state = 0;
        wake_waiters(s, T_ONCE);
        throw;
    }
    InRt r;
    s->state = 2;
    *reinterpret_cast<int *>(o) = 2;
    vc_release(t, s->vc);
    wake_waiters(s, T_ONCE);
    return 0;
}

int __cxa_guard_acquire(void *gp)
{
    ENSURE(__cxa_guard_acquire);
    if (!on()) return real___cxa_guard_acquire(gp);
    InRt r;
    Thread *t = g.cur;
    sync_point();
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(gp), SK_GUARD);
    for (;;)
    {
        if (*static_cast<volatile char *>(gp)) { vc_acquire(t, s->vc); return 0; }
        if (s->state == 0) break;
        t->state = T_ONCE;
        t->wait = s;
        t->block_pc = RET_PC;
        block();
    }
    s->state = 1;
    return 1;
}
void __cxa_guard_release(void *gp)
{
    ENSURE(__cxa_guard_release);
    if (!on()) { real___cxa_guard_release(gp); return; }
    InRt r;
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(gp), SK_GUARD);
    *static_cast<volatile char *>(gp) = 1;
    s->state = 0;
    vc_release(g.cur, s->vc);
    wake_waiters(s, T_ONCE);
}
void __cxa_guard_abort(void *gp)
{
    ENSURE(__cxa_guard_abort);
    if (!on()) { real___cxa_guard_abort(gp); return; }
    InRt r;
    Sync *s = get_sync(reinterpret_cast<uintptr_t>(gp), SK_GUARD);
    s->state = 0;
    wake_waiters(s, T_ONCE);
}

void *__cxa_allocate_exception(size_t n) _GLIBCXX_NOTHROW
{
    ENSURE(__cxa_allocate_exception);
    void *p = real___cxa_allocate_exception(n);
    if (on()) { InRt r; clear_shadow(reinterpret_cast<uintptr_t>(p) - 128, n + 128); }
    return p;
}

// ---- semaphores ----
// The initial value is taken from glibc's own representation on first use.
static Sync *sem_sync(sem_t *sm)
{
    Sync *s = find_sync(reinterpret_cast<uintptr_t>(sm));
    if (s && s->kind == SK_SEM) return s;
    int v = 0;
    sem_getvalue(sm, &v);
    s = get_sync(reinterpret_cast<uintptr_t>(sm), SK_SEM);
    s->count = v;
    return s;
}
static int sem_take(sem_t *sm, bool try_only, uint64_t deadline, uint64_t pc)
{
    Thread *t = g.cur;
    sync_point();
    Sync *s = sem_sync(sm);
    while (s->count == 0)
    {
        if (try_only) { errno = EAGAIN; return -1; }
        t->state = T_SEM;
        t->wait = s;
        t->block_pc = pc;
        t->deadline = deadline;
        t->timed_out = false;
        block();
        t->deadline = 0;
        if (t->timed_out && s->count == 0) { t->timed_out = false; errno = ETIMEDOUT; return -1; }
    }
    --s->count;
    vc_acquire(t, s->vc);
    return 0;
}
int sem_wait(sem_t *s) { ENSURE(sem_wait); if (!on()) return real_sem_wait(s); InRt r; return sem_take(s, false, 0, RET_PC); }
int sem_trywait(sem_t *s) { ENSURE(sem_trywait); if (!on()) return real_sem_trywait(s); InRt r; return sem_take(s, true, 0, RET_PC); }
int sem_timedwait(sem_t *s, const timespec *ts)
{
    ENSURE(sem_timedwait);
    if (!on()) return real_sem_timedwait(s, ts);
    InRt r;
    return sem_take(s, false, abs_to_sim(CLOCK_REALTIME, ts), RET_PC);
}
int sem_post(sem_t *sm)
{
    ENSURE(sem_post);
    if (!on()) return real_sem_post(sm);
    InRt r;
    Sync *s = sem_sync(sm);
    ++s->count;
    vc_release(g.cur, s->vc);
    wake_waiters(s, T_SEM);
    sync_point();
    return 0;
}

// ---- time ----
int nanosleep(const timespec *ts, timespec *rem)
{
    ENSURE(nanosleep);
    if (!on()) return real_nanosleep(ts, rem);
    InRt r;
    do_sleep(ts_ns(ts), RET_PC);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *rem)
{
    ENSURE(clock_nanosleep);
    if (!on()) return real_clock_nanosleep(c, flags, ts, rem);
    InRt r;
    uint64_t ns = ts_ns(ts);
    if (flags & TIMER_ABSTIME) { uint64_t d = abs_to_sim(c, ts); ns = d > g.now ? d - g.now : 0; }
    do_sleep(ns, RET_PC);
    return 0;
}
int usleep(useconds_t us)
{
    timespec ts{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec ts{static_cast<time_t>(s), 0};
    nanosleep(&ts, nullptr);
    return 0;
}
int sched_yield(void) _GLIBCXX_NOTHROW
{
    ENSURE(sched_yield);
    if (!on()) return real_sched_yield();
    InRt r;
    if (g.live > 1) point(W_YIELD);
    else ++g.tick;
    return 0;
}
int clock_gettime(clockid_t c, timespec *ts) _GLIBCXX_NOTHROW
{
    ENSURE(clock_gettime);
    if (!on() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return real_clock_gettime(c, ts);
    g.now += 100;
    uint64_t v = g.now + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE : MONO_BASE);
    ts->tv_sec = static_cast<time_t>(v / 1000000000ull);
    ts->tv_nsec = static_cast<long>(v % 1000000000ull);
    return 0;
}
int gettimeofday(timeval *tv, void *tz) _GLIBCXX_NOTHROW
{
    ENSURE(gettimeofday);
    if (!on()) return real_gettimeofday(tv, tz);
    g.now += 100;
    uint64_t v = g.now + REAL_BASE;
    tv->tv_sec = static_cast<time_t>(v / 1000000000ull);
    tv->tv_usec = static_cast<long>(v % 1000000000ull / 1000);
    return 0;
}
time_t time(time_t *out) _GLIBCXX_NOTHROW
{
    ENSURE(time);
    if (!on()) return real_time(out);
    g.now += 100;
    time_t v = static_cast<time_t>((g.now + REAL_BASE) / 1000000000ull);
    if (out) *out = v;
    return v;
}

// ---- entropy ----
int getentropy(void *buf, size_t n) _GLIBCXX_NOTHROW
{
    ENSURE(getentropy);
    if (!on()) return real_getentropy(buf, n);
    InRt r;
    if (g.entropy_fail > 0 && do_choose(kid("entropy_fail"), 2, g.entropy_fail)) { errno = EIO; return -1; }
    sim_bytes(buf, n);
    return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    ENSURE(getrandom);
    if (!on()) return real_getrandom(buf, n, flags);
    InRt r;
    if (g.entropy_fail > 0)
    {
        long f = do_choose(kid("entropy_fail"), 7, g.entropy_fail);
        if (f == 6) { errno = EIO; return -1; }
        if (f > 2) f = 2 - (f & 1);
        if (f == 1) { errno = EINTR; return -1; }
        if (f == 2 && n > 1) n = 1 + g.erng.below(n - 1);
    }
    sim_bytes(buf, n);
    return static_cast<ssize_t>(n);
}

long syscall(long n, ...) _GLIBCXX_NOTHROW
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (on())
    {
        if (n == SYS_getrandom) return getrandom(reinterpret_cast<void *>(a[0]), static_cast<size_t>(a[1]), static_cast<unsigned>(a[2]));
        if (n == SYS_futex)
        {
            InRt r;
            int op = static_cast<int>(a[1]) & 127;
            Thread *t = g.cur;
            Sync *s = get_sync(static_cast<uintptr_t>(a[0]), SK_FUTEX);
            sync_point();
            if (op == 0 || op == 9)
            {
                if (*reinterpret_cast<volatile int *>(a[0]) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
                t->state = T_FUTEX;
                t->wait = s;
                t->block_pc = RET_PC;
                t->deadline = 0;
                t->timed_out = false;
                if (a[3])
                {
                    const timespec *ts = reinterpret_cast<const timespec *>(a[3]);
                    t->deadline = op == 0 ? g.now + ts_ns(ts) + 1 : abs_to_sim((a[1] & 256) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                }
                block();
                t->deadline = 0;
                if (t->timed_out) { t->timed_out = false; errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == 1 || op == 10)
            {
                int woken = 0;
                for (int i = 0; i < MAXT && woken < static_cast<int>(a[2]); ++i)
                    if (g.th[i].state == T_FUTEX && g.th[i].wait == s) { g.th[i].state = T_RUN; ++woken; }
                return woken;
            }
        }
    }
    long rc = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (rc < 0 && rc > -4096) { errno = static_cast<int>(-rc); return -1; }
    return rc;
}

// ---- memory functions called from instrumented code (see build: --wrap) ----
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (g.active && n) { access(reinterpret_cast<uintptr_t>(s), n, false, RET_PC); access(reinterpret_cast<uintptr_t>(d), n, true, RET_PC); }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (g.active && n) { access(reinterpret_cast<uintptr_t>(s), n, false, RET_PC); access(reinterpret_cast<uintptr_t>(d), n, true, RET_PC); }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (g.active && n) access(reinterpret_cast<uintptr_t>(d), n, true, RET_PC);
    return __real_memset(d, c, n);
}
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    if (g.active && p) { InRt r; clear_shadow(reinterpret_cast<uintptr_t>(p), n); }
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    void *p = __real_calloc(a, b);
    if (g.active && p) { InRt r; clear_shadow(reinterpret_cast<uintptr_t>(p), a * b); }
    return p;
}
void *__wrap_aligned_alloc(size_t al, size_t n)
{
    void *p = __real_aligned_alloc(al, n);
    if (g.active && p) { InRt r; clear_shadow(reinterpret_cast<uintptr_t>(p), n); }
    return p;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n)
{
    int rc = __real_posix_memalign(out, al, n);
    if (g.active && !rc) { InRt r; clear_shadow(reinterpret_cast<uintptr_t>(*out), n); }
    return rc;
}

// ---- compiler instrumentation ----
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                                       \
    void __tsan_read##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, false, RET_PC); }                                      \
    void __tsan_write##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, true, RET_PC); }                                      \
    void __tsan_unaligned_read##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, false, RET_PC); }                            \
    void __tsan_unaligned_write##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, true, RET_PC); }                            \
    void __tsan_volatile_read##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, false, RET_PC); }                             \
    void __tsan_volatile_write##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, true, RET_PC); }                             \
    void __tsan_unaligned_volatile_read##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, false, RET_PC); }                   \
    void __tsan_unaligned_volatile_write##n(void *a) { access(reinterpret_cast<uintptr_t>(a), n, true, RET_PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(reinterpret_cast<uintptr_t>(a), n, false, RET_PC); }
void __tsan_write_range(void *a, unsigned long n) { access(reinterpret_cast<uintptr_t>(a), n, true, RET_PC); }
void __tsan_vptr_read(void **p) { access(reinterpret_cast<uintptr_t>(p), 8, false, RET_PC); }
void __tsan_vptr_update(void **p, void *v)
{
    // Writing the pointer that is already there is not a race (destructors do), but it is a step of the run: what was in the
    // memory before may be a leftover of anything.
    if (*p != v) access(reinterpret_cast<uintptr_t>(p), 8, true, RET_PC);
    else access<false>(reinterpret_cast<uintptr_t>(p), 8, true, RET_PC);
}

#define ATOM(bits, T)                                                                                                               \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo)                                                                       \
    {                                                                                                                               \
        if (!on() || g.in_rt || g.cur->quiet) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                          \
        InRt r;                                                                                                                     \
        atomic_before(reinterpret_cast<uintptr_t>(a), sizeof(T), false, RET_PC);                                                    \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                 \
        atomic_sync(reinterpret_cast<uintptr_t>(a), true, false, mo);                                                               \
        return v;                                                                                                                   \
    }                                                                                                                               \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo)                                                                    \
    {                                                                                                                               \
        if (!on() || g.in_rt || g.cur->quiet) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }                                 \
        InRt r;                                                                                                                     \
        atomic_before(reinterpret_cast<uintptr_t>(a), sizeof(T), true, RET_PC);                                                     \
        atomic_sync(reinterpret_cast<uintptr_t>(a), false, true, mo);                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                   \
    }                                                                                                                               \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo)                                   \
    {                                                                                                                               \
        if (!on() || g.in_rt || g.cur->quiet)                                                                                       \
            return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
        InRt r;                                                                                                                     \
        atomic_before(reinterpret_cast<uintptr_t>(a), sizeof(T), true, RET_PC);                                                     \
        bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
        atomic_sync(reinterpret_cast<uintptr_t>(a), true, ok, ok ? mo : fmo);                                                       \
        return ok;                                                                                                                  \
    }                                                                                                                               \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo)                                     \
    {                                                                                                                               \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo);                                                     \
    }                                                                                                                               \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo)                                          \
    {                                                                                                                               \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);                                                           \
        return e;                                                                                                                   \
    }                                                                                                                               \
    RMW(bits, T, exchange, __atomic_exchange_n)                                                                                     \
    RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                                     \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                                     \
    RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                                     \
    RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                                       \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                                     \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand)
#define RMW(bits, T, name, fn)                                                                                                      \
    T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo)                                                                      \
    {                                                                                                                               \
        if (!on() || g.in_rt || g.cur->quiet) return fn(a, v, __ATOMIC_SEQ_CST);                                                    \
        InRt r;                                                                                                                     \
        atomic_before(reinterpret_cast<uintptr_t>(a), sizeof(T), true, RET_PC);                                                     \
        T o = fn(a, v, __ATOMIC_SEQ_CST);                                                                                           \
        atomic_sync(reinterpret_cast<uintptr_t>(a), true, true, mo);                                                                \
        return o;                                                                                                                   \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    if (!on() || g.in_rt || g.cur->quiet) return;
    InRt r;
    sync_point();
    Thread *t = g.cur;
    if (is_acq(mo) && t->has_pend) { vc_join(t->vc, t->pend_acq); }
    if (is_rel(mo)) { vc_join(t->fence_rel, t->vc); t->has_frel = true; ++t->vc.c[t->id]; }
    if (mo == __ATOMIC_SEQ_CST) { vc_join(t->vc, g.fence_global); vc_join(g.fence_global, t->vc); }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

unsigned int std::thread::hardware_concurrency() noexcept { return g.active ? g.hw : 8; }
std::random_device::result_type std::random_device::_M_getval()
{
    if (!g.active)
    {
        unsigned v = 0;
        ENSURE(getentropy);
        (void)real_getentropy(&v, sizeof v);
        return v;
    }
    {
        InRt r;
        if (g.entropy_fail <= 0 || !do_choose(kid("entropy_fail"), 2, g.entropy_fail))
        {
            unsigned v;
            sim_bytes(&v, sizeof v);
            return v;
        }
    }
    throw std::runtime_error("random_device could not be read");
}

// ---- operator new / delete ----
void *operator new(size_t n) { return op_new(n, 16, false); }
void *operator new[](size_t n) { return op_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a), false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, static_cast<size_t>(a), true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, static_cast<size_t>(a), true); }
void operator delete(void *p) noexcept { op_delete(p, RET_PC); }
void operator delete[](void *p) noexcept { op_delete(p, RET_PC); }
void operator delete(void *p, size_t) noexcept { op_delete(p, RET_PC); }
void operator delete[](void *p, size_t) noexcept { op_delete(p, RET_PC); }
void operator delete(void *p, std::align_val_t) noexcept { op_delete(p, RET_PC); }
void operator delete[](void *p, std::align_val_t) noexcept { op_delete(p, RET_PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_delete(p, RET_PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_delete(p, RET_PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_delete(p, RET_PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_delete(p, RET_PC); }
