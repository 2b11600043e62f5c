// See csim.h. This file is compiled without instrumentation and uses no
// library templates, so that nothing it does is itself a scheduling point.
#include "csim.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace sim { void bump_steps(uint64_t n); }

namespace csim {
enum { MAXT = 48 };
enum St { RUN, B_MUTEX, B_COND, B_JOIN, B_GUARD, B_EVENT, B_SLEEP, B_RW, DONE };
static const char* st_name[] = {"runnable", "waiting for a mutex", "waiting on a condition", "joining", "waiting for an initialisation", "stalled", "sleeping", "waiting for a rwlock", "done"};
struct Dtor { void (*f)(void*); void* o; };
struct Th {
    int id; volatile int state; volatile int turn; pthread_t pt; bool joined, detached, reaped;
    void* (*fn)(void*); void* arg; void* ret;
    uint32_t vc[MAXT]; const void* on; int onid; uint64_t wake; bool timed, timedout, signalled;
    Dtor dt[64]; int ndt; uint64_t steps;
};
static Th g_th[MAXT]; static int g_n; static volatile int g_cur; static volatile bool g_active;
static __thread Th* me __attribute__((tls_model("initial-exec")));
static __thread int t_quiet __attribute__((tls_model("initial-exec")));
static uint64_t g_time, g_shash, g_switches, g_since, g_steps, g_unaccounted; static int64_t g_gap;
static int g_mean, g_sync, g_starve, g_spur; static int g_fail_create, g_fail_all; static long g_alloc_n; static bool g_alloc_fired; static long g_live;
static bool g_events[256]; static bool (*g_idle)();

static long fut(volatile int* a, int op, int v) { return syscall(SYS_futex, (int*)a, op, v, nullptr, nullptr, 0); }
static void wake(Th* t) { __atomic_store_n(&t->turn, 1, __ATOMIC_SEQ_CST); fut(&t->turn, FUTEX_WAKE_PRIVATE, 1); }
static void reap();
static void wait_turn(Th* t) { while (!__atomic_load_n(&t->turn, __ATOMIC_SEQ_CST)) fut(&t->turn, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&t->turn, 0, __ATOMIC_SEQ_CST); }


static inline bool on() { return g_active && me && !t_quiet; }
Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }
bool active() { return g_active; }
int tid() { return me ? me->id : 0; }
int started_threads() { return g_n - 1; }
int live_threads() { int c = 0; for (int i = 0; i < g_n; i++) if (&g_th[i] != me && g_th[i].state != DONE) c++; return c; }
int parked_count() { int c = 0; for (int i = 0; i < g_n; i++) c += g_th[i].state == B_EVENT; return c; }
uint64_t schedule_hash() { return g_shash; }
uint64_t switches() { return g_switches; }
uint64_t now_ns() { return g_time; }
long live_blocks() { return g_live; }
void fail_thread_start(int n) { g_fail_create = n; g_fail_all = 0; }
void fail_threads_from(int n) { g_fail_create = n; g_fail_all = 1; }
void fail_alloc(long n) { g_alloc_n = n; g_alloc_fired = false; }
bool alloc_fault_fired() { return g_alloc_fired; }
void set_handler_on_idle(bool (*f)()) { g_idle = f; }
bool is_open(int e) { return g_events[e & 255]; }

// ---------------------------------------------------------------- scheduling
static void new_gap() {
    if (!g_mean) { g_gap = 1ll << 40; return; }
    uint32_t v = sim::choose(2 * g_mean + 1);
    g_gap = v ? v : 1ll << 40;
}
static int runnable(Th** out, Th* but) { int n = 0; for (int i = 0; i < g_n; i++) if (g_th[i].state == RUN && &g_th[i] != but) out[n++] = &g_th[i]; return n; }
static void dump_states(char* b, size_t n) { size_t o = 0; b[0] = 0; for (int i = 0; i < g_n && o + 60 < n; i++) o += snprintf(b + o, n - o, "%sT%d %s", i ? ", " : "", i, st_name[g_th[i].state]); }
static void go(Th* next) {
    // hand the processor over; returns when it comes back
    Th* self = me;
    if (next == self) return;
    g_switches++; g_shash = sim::mix(sim::mix(g_shash, next->id), self->steps);
    if (g_switches < 600) sim::note("  [T%d -> T%d after %llu steps]", self->id, next->id, (unsigned long long)self->steps);
    g_cur = next->id; g_since = 0;
    wake(next);
    wait_turn(self); reap();
}
// choose somebody when the current thread cannot go on
static Th* pick_blocked() {
    for (;;) {
        Th* r[MAXT]; int n = runnable(r, nullptr);
        if (n) {
            if (g_starve > 0 && n > 1) { int k = 0; for (int i = 0; i < n; i++) if (r[i]->id != g_starve) r[k++] = r[i]; n = k; }
            return r[sim::choose(n)];
        }
        // nothing runs: the clock moves on to the earliest sleeper
        Th* s = nullptr;
        for (int i = 0; i < g_n; i++) { Th& t = g_th[i]; if ((t.state == B_SLEEP || (t.timed && (t.state == B_COND || t.state == B_MUTEX))) && (!s || t.wake < s->wake)) s = &t; }
        if (s) { if (s->wake > g_time) { sim::sim_time(s->wake - g_time); g_time = s->wake; } s->timedout = true; s->state = RUN; continue; }
        if (g_idle) { t_quiet++; bool p = g_idle(); t_quiet--; if (p) continue; }
        char b[1200]; dump_states(b, sizeof b);
        sim::fail("deadlock", "no thread can make progress: %s", b);
    }
}
static void block() { Th* n = pick_blocked(); go(n); }
static void preempt(bool forced) {
    Th* r[MAXT]; int n = runnable(r, me);
    if (g_starve > 0 && n > 1) { int k = 0; for (int i = 0; i < n; i++) if (r[i]->id != g_starve) r[k++] = r[i]; n = k; }
    if (!n) return;
    uint32_t v = sim::choose(forced ? n : n + 1);
    if (forced) go(r[v]); else if (v) go(r[v - 1]);
}
static inline void yp() {
    Th* t = me; t->steps++; g_steps++;
    if (++g_unaccounted >= 1024) { g_unaccounted = 0; sim::bump_steps(1024); }
    if (--g_gap <= 0) { preempt(false); new_gap(); }
    else if (++g_since > 30000) { g_since = 0; preempt(true); }       // fairness: nobody spins forever
}
static void sync_point() {
    if (!on()) return;
    yp();
    if (g_sync && sim::choose(g_sync) + 1 == (uint32_t)g_sync) preempt(false);
}
void yield_point() { if (on()) { yp(); preempt(true); } }

// ---------------------------------------------------------------- vector clocks
struct Sync { const void* a; uint32_t vc[MAXT]; };
enum { NSYNC = 1 << 14 };
static Sync* g_sync_t;
static Sync* sync_of(const void* a, bool make = true) {
    size_t h = ((uintptr_t)a * 0x9e3779b97f4a7c15ULL) >> 50;
    for (size_t i = 0; i < NSYNC; i++) { Sync& s = g_sync_t[(h + i) & (NSYNC - 1)]; if (s.a == a) return &s; if (!s.a) { if (!make) return nullptr; s.a = a; return &s; } }
    sim::fail("simulator-limit", "too many synchronisation objects");
}
static void forget(const void* a) { Sync* s = sync_of(a, false); if (s) memset(s->vc, 0, sizeof s->vc); }
static void acq(const void* a) { Sync* s = sync_of(a, false); if (!s) return; for (int i = 0; i < g_n; i++) if (s->vc[i] > me->vc[i]) me->vc[i] = s->vc[i]; }
static void rel(const void* a) { Sync* s = sync_of(a); for (int i = 0; i < g_n; i++) if (me->vc[i] > s->vc[i]) s->vc[i] = me->vc[i]; me->vc[me->id]++; }
static void rel_store(const void* a) { Sync* s = sync_of(a); memcpy(s->vc, me->vc, sizeof s->vc); me->vc[me->id]++; }
static void join_vc(Th* into, Th* from) { for (int i = 0; i < MAXT; i++) if (from->vc[i] > into->vc[i]) into->vc[i] = from->vc[i]; }

// ---------------------------------------------------------------- shadow memory
struct Cell { uint32_t w, r; };
struct Page { uintptr_t key; Cell c[4096]; };
enum { NPG = 1 << 15 };
static Page** g_pt; static Page* g_last; static char* g_pool; static size_t g_pool_left;
static uint32_t (*g_rs)[MAXT]; static uint32_t g_nrs;
static Page* page(uintptr_t a, bool make) {
    uintptr_t k = (a >> 12) + 1;
    if (g_last && g_last->key == k) return g_last;
    size_t h = (k * 0x9e3779b97f4a7c15ULL) >> 49;
    for (;; h = (h + 1) & (NPG - 1)) {
        Page* p = g_pt[h];
        if (!p) {
            if (!make) return nullptr;
            if (g_pool_left < sizeof(Page)) { g_pool_left = 64 * sizeof(Page); g_pool = (char*)mmap(nullptr, g_pool_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
            p = (Page*)g_pool; g_pool += sizeof(Page); g_pool_left -= sizeof(Page); p->key = k; g_pt[h] = p; return g_last = p;
        }
        if (p->key == k) return g_last = p;
    }
}
static void clear_range(uintptr_t a, size_t n) {
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t pe = (a | 4095) + 1; if (pe > e) pe = e;
        Page* p = page(a, false); if (p) memset(&p->c[a & 4095], 0, (pe - a) * sizeof(Cell));
        a = pe;
    }
}
static inline uint32_t epoch(Th* t) { return (uint32_t)t->id << 24 | (t->vc[t->id] & 0xffffff); }
static inline bool hb(uint32_t e, Th* t) { return (e & 0xffffff) <= (t->vc[e >> 24] & 0xffffff); }
static void where(void* pc, char* b, size_t n) {
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) snprintf(b, n, "%.150s", d.dli_sname); else snprintf(b, n, "?");
}
[[noreturn]] static void race(uintptr_t a, size_t n, bool write, bool other_write, int other, void* pc) {
    char w[160]; where(pc, w, sizeof w);
    sim::fail("data-race", "T%d %s memory (%zu bytes) that T%d %s without synchronisation between them, in %s", me->id, write ? "writes" : "reads", n, other, other_write ? "wrote" : "read", w);
}
static inline void access1(uintptr_t a, size_t n, bool write, void* pc) {
    Th* t = me; uint32_t ep = epoch(t);
    for (size_t i = 0; i < n; i++) {
        Cell& c = page(a + i, true)->c[(a + i) & 4095];
        if (write) {
            if (c.w == ep && !c.r) continue;
            if (c.w && !hb(c.w, t)) race(a, n, true, true, c.w >> 24, pc);
            if (c.r) {
                if ((c.r >> 24) == 0xff) { uint32_t* v = g_rs[c.r & 0xffffff]; for (int k = 0; k < g_n; k++) if (v[k] > t->vc[k]) race(a, n, true, false, k, pc); }
                else if (!hb(c.r, t)) race(a, n, true, false, c.r >> 24, pc);
            }
            c.w = ep; c.r = 0;
        } else {
            if (c.r == ep) continue;
            if (c.w && !hb(c.w, t)) race(a, n, false, true, c.w >> 24, pc);
            if (c.r == 0 || ((c.r >> 24) != 0xff && ((int)(c.r >> 24) == t->id || hb(c.r, t)))) c.r = ep;
            else {
                if ((c.r >> 24) != 0xff) {
                    if (g_nrs >= 200000) continue;
                    uint32_t x = g_nrs++; memset(g_rs[x], 0, sizeof g_rs[x]); g_rs[x][c.r >> 24] = c.r & 0xffffff; c.r = 0xff000000u | x;
                }
                g_rs[c.r & 0xffffff][t->id] = t->vc[t->id] & 0xffffff;
            }
        }
    }
}
static inline void access(void* a, size_t n, bool write, void* pc) {
    if (!on()) return;
    yp();
    access1((uintptr_t)a, n, write, pc);
}

// ---------------------------------------------------------------- mutex and friends
struct Mx { const void* a; int owner; int depth; };
enum { NMX = 1 << 12 };
static Mx g_mx[NMX]; 
static Mx* mx(const void* a) { size_t h = ((uintptr_t)a * 0x9e3779b97f4a7c15ULL) >> 52; for (size_t i = 0; i < NMX; i++) { Mx& m = g_mx[(h + i) & (NMX - 1)]; if (m.a == a) return &m; if (!m.a) { m.a = a; m.owner = -1; m.depth = 0; return &m; } } sim::fail("simulator-limit", "too many mutexes"); }
static void wake_all_on(St st, const void* a) { for (int i = 0; i < g_n; i++) if (g_th[i].state == st && g_th[i].on == a) g_th[i].state = RUN; }
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int lock_mx(pthread_mutex_t* m, bool try_, bool timed, uint64_t deadline) {
    sync_point();
    Mx* x = mx(m);
    if (x->owner == me->id) {
        if (is_recursive(m)) { x->depth++; return 0; }
        if (try_) return EBUSY;
        sim::fail("self-deadlock", "T%d locks a mutex it already holds", me->id);
    }
    while (x->owner >= 0) {
        if (try_) return EBUSY;
        me->state = B_MUTEX; me->on = m; me->timed = timed; me->wake = deadline; me->timedout = false;
        block(); me->timed = false;
        if (timed && me->timedout) return ETIMEDOUT;
    }
    x->owner = me->id; x->depth = 1; acq(m);
    return 0;
}
static int unlock_mx(pthread_mutex_t* m) {
    Mx* x = mx(m);
    if (x->owner != me->id) sim::fail("mutex-misuse", "T%d unlocks a mutex that %s", me->id, x->owner < 0 ? "nobody holds" : "another thread holds");
    if (--x->depth > 0) return 0;
    rel(m); x->owner = -1; wake_all_on(B_MUTEX, m);
    sync_point();
    return 0;
}

void park(int ev) { if (!on()) return; sync_point(); while (!g_events[ev & 255]) { me->state = B_EVENT; me->onid = ev; block(); } acq(&g_events[ev & 255]); }
void open_event(int ev) { if (me) rel(&g_events[ev & 255]); g_events[ev & 255] = true; for (int i = 0; i < g_n; i++) if (g_th[i].state == B_EVENT && g_th[i].onid == ev) g_th[i].state = RUN; if (on()) sync_point(); }

void start() {
    if (!g_pt) {
        auto mm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
        g_pt = (Page**)mm(sizeof(Page*) * NPG); g_sync_t = (Sync*)mm(sizeof(Sync) * NSYNC); g_rs = (uint32_t(*)[MAXT])mm(sizeof(uint32_t) * MAXT * 200001);
        g_nrs = 1;
    }
    g_n = 1; me = &g_th[0]; memset(me, 0, sizeof *me); me->state = RUN; me->pt = pthread_self(); me->vc[0] = 1; g_cur = 0; g_time = 1000000000ull;
    static const int means[] = {0, 3, 12, 50, 200, 1000, 5000};
    static const int syncs[] = {2, 3, 6, 0};
    g_mean = means[sim::choose(7)]; g_sync = syncs[sim::choose(4)];
    g_starve = sim::choose(4) == 3 ? 1 + (int)sim::choose(3) : 0;
    g_spur = sim::choose(3) == 2;
    sim::log("policy: mean gap %d, switch at 1/%d of the synchronisation calls, starved thread %d", g_mean, g_sync, g_starve);
    if (g_starve) sim::fault("slow-thread");
    new_gap(); g_active = true;
}
void stop() {
    if (live_threads()) { char b[1200]; dump_states(b, sizeof b); sim::fail("thread-left", "threads are still running: %s", b); }
    g_active = false;
    sim::log("schedule %016llx, %llu switches, %d threads", (unsigned long long)g_shash, (unsigned long long)g_switches, g_n - 1);
    sim::count("context_switches", g_switches); sim::count("memory_and_sync_steps", g_steps); sim::count("threads_started", g_n - 1);
    sim::state(sim::mix(g_shash, g_steps)); sim::sim_time(0);
}
} // namespace csim
using namespace csim;

// ---------------------------------------------------------------- interposed functions
template<typename F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]() { static auto f = real<decltype(&::name)>(#name); return f; }())

// the next thread to run waits until the real thread behind a finished one is gone,
// so that nothing ever runs beside the simulation
static Th* volatile g_zombie;
namespace csim { static void reap() { Th* z = g_zombie; if (!z) return; g_zombie = nullptr; t_quiet++; REAL(pthread_join)(z->pt, nullptr); t_quiet--; z->reaped = true; } }

static void run_tls_dtors(Th* t) { while (t->ndt > 0) { Dtor d = t->dt[--t->ndt]; d.f(d.o); } }
static void* tramp(void* a) {
    Th* t = (Th*)a; wait_turn(t); me = t; t_quiet = 0; reap();
    { pthread_attr_t at; void* sa; size_t ss; t_quiet++; if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &sa, &ss); clear_range((uintptr_t)sa, ss + 8192); pthread_attr_destroy(&at); } t_quiet--; }
    t->ret = t->fn(t->arg);
    run_tls_dtors(t);
    t->vc[t->id]++; t->state = DONE;
    for (int i = 0; i < g_n; i++) if (g_th[i].state == B_JOIN && g_th[i].onid == t->id) g_th[i].state = RUN;
    Th* n = pick_blocked(); void* r = t->ret;
    g_switches++; g_shash = sim::mix(sim::mix(g_shash, n->id), t->steps + 77); g_cur = n->id; g_since = 0;
    sim::note("  [T%d ends -> T%d]", t->id, n->id);
    g_zombie = t; me = nullptr;
    wake(n);
    return r;
}
static char* g_stacks;
extern "C" {
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!on()) return REAL(pthread_create)(pt, at, fn, arg);
    sync_point();
    if (g_fail_create > 0) { if (--g_fail_create == 0) { sim::fault("thread-start-fails"); if (g_fail_all) g_fail_create = 1; return EAGAIN; } }
    if (g_n >= MAXT) sim::fail("simulator-limit", "more than %d threads", MAXT);
    Th* t = &g_th[g_n]; memset(t, 0, sizeof *t); t->id = g_n; t->fn = fn; t->arg = arg; t->state = RUN;
    g_n++;
    memcpy(t->vc, me->vc, sizeof t->vc); t->vc[t->id] = 1; me->vc[me->id]++;
    int det = 0; if (at) { int d; pthread_attr_getdetachstate(at, &d); det = d == PTHREAD_CREATE_DETACHED; }
    pthread_attr_t sa; pthread_attr_init(&sa); if (!g_stacks) g_stacks = (char*)mmap(nullptr, (size_t)MAXT << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_setstack(&sa, g_stacks + ((size_t)t->id << 20), 1 << 20);   // so that no two threads of a run get the same handle, however early one of them really ends
    t_quiet++; int r = REAL(pthread_create)(&t->pt, &sa, tramp, t); t_quiet--; pthread_attr_destroy(&sa);
    if (r) { g_n--; return r; }
    t->detached = det; *pt = t->pt;
    sync_point();
    return 0;
}
static Th* by_pt(pthread_t p) { for (int i = 0; i < g_n; i++) if (!g_th[i].joined && pthread_equal(g_th[i].pt, p)) return &g_th[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    if (!on()) return REAL(pthread_join)(p, ret);
    sync_point();
    Th* t = by_pt(p);
    if (!t || t == me) return t ? EDEADLK : ESRCH;
    while (t->state != DONE) { me->state = B_JOIN; me->onid = t->id; block(); }
    if (t->detached) sim::fail("thread-misuse", "T%d joins a detached thread", me->id);
    join_vc(me, t); t->joined = true; if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) { if (on()) { Th* t = by_pt(p); if (t) { t->detached = true; return 0; } } return REAL(pthread_detach)(p); }

int pthread_mutex_lock(pthread_mutex_t* m) { return on() ? lock_mx(m, false, false, 0) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return on() ? lock_mx(m, true, false, 0) : REAL(pthread_mutex_trylock)(m); }
static uint64_t abs_ns(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { return on() ? lock_mx(m, false, true, abs_ns(ts)) : REAL(pthread_mutex_timedlock)(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) { return on() ? lock_mx(m, false, true, abs_ns(ts)) : REAL(pthread_mutex_clocklock)(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return on() ? unlock_mx(m) : REAL(pthread_mutex_unlock)(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!on()) return REAL(pthread_mutex_destroy)(m);
    Mx* x = mx(m); if (x->owner >= 0) sim::fail("mutex-misuse", "T%d destroys a mutex that T%d still holds", me->id, x->owner);
    forget(m); return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl) {
    sync_point();
    Mx* x = mx(m); if (x->owner != me->id) sim::fail("mutex-misuse", "T%d waits on a condition without holding its mutex", me->id);
    bool spur = g_spur && sim::choose(4) == 3;
    int depth = x->depth; rel(m); x->owner = -1; x->depth = 0; wake_all_on(B_MUTEX, m);
    me->timedout = false; me->signalled = false;
    if (spur) { sim::fault("spurious-wakeup"); preempt(false); }
    else { me->state = B_COND; me->on = c; me->timed = timed; me->wake = dl; block(); me->timed = false; }
    bool to = me->timedout && !me->signalled;
    while (x->owner >= 0) { me->state = B_MUTEX; me->on = m; block(); }
    x->owner = me->id; x->depth = depth; acq(m); acq(c);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? cond_wait(c, m, false, 0) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return on() ? cond_wait(c, m, true, abs_ns(ts)) : REAL(pthread_cond_timedwait)(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { return on() ? cond_wait(c, m, true, abs_ns(ts)) : REAL(pthread_cond_clockwait)(c, m, k, ts); }
static int cond_wake(pthread_cond_t* c, bool all) {
    sync_point(); rel(c);
    Th* w[MAXT]; int n = 0;
    for (int i = 0; i < g_n; i++) if (g_th[i].state == B_COND && g_th[i].on == c) w[n++] = &g_th[i];
    if (n) { if (all) for (int i = 0; i < n; i++) { w[i]->state = RUN; w[i]->signalled = true; } else { Th* t = w[sim::choose(n)]; t->state = RUN; t->signalled = true; } }
    sync_point();
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return on() ? cond_wake(c, false) : REAL(pthread_cond_signal)(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { return on() ? cond_wake(c, true) : REAL(pthread_cond_broadcast)(c); }
int pthread_cond_destroy(pthread_cond_t* c) { return on() ? (forget(c), 0) : REAL(pthread_cond_destroy)(c); }
// reader-writer locks: depth counts readers, owner is the writer
static int rw_rd(const void* a, bool try_) { sync_point(); Mx* x = mx(a); while (x->owner >= 0) { if (try_) return EBUSY; me->state = B_RW; me->on = a; block(); } x->depth++; acq(a); return 0; }
static int rw_wr(const void* a, bool try_) { sync_point(); Mx* x = mx(a); while (x->owner >= 0 || x->depth > 0) { if (try_) return EBUSY; me->state = B_RW; me->on = a; block(); } x->owner = me->id; acq(a); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return on() ? rw_rd(m, false) : REAL(pthread_rwlock_rdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return on() ? rw_wr(m, false) : REAL(pthread_rwlock_wrlock)(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return on() ? rw_rd(m, true) : REAL(pthread_rwlock_tryrdlock)(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return on() ? rw_wr(m, true) : REAL(pthread_rwlock_trywrlock)(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!on()) return REAL(pthread_rwlock_unlock)(m); Mx* x = mx(m); rel(m); if (x->owner >= 0) x->owner = -1; else x->depth--; wake_all_on(B_RW, m); sync_point(); return 0; }
// one-time initialisation
static char g_once_lock[64][8];
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!on()) return REAL(pthread_once)(o, f);
    sync_point(); Mx* x = mx(o);
    while (x->owner >= 0 && x->owner != me->id) { me->state = B_GUARD; me->on = o; block(); }
    if (*o == 2) { acq(o); return 0; }
    x->owner = me->id; f(); *o = 2; rel(o); x->owner = -1; wake_all_on(B_GUARD, o); return 0;
}
// initialisation of function-local statics (byte 0: done)
int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    sync_point();
    for (;;) {
        if (b[0]) { acq(g); return 0; }
        Mx* x = mx(g);
        if (x->owner < 0) { x->owner = me->id; b[1] = 1; return 1; }
        if (x->owner == me->id) sim::fail("self-deadlock", "T%d re-enters the initialisation of a static", me->id);
        sim::probe("static-init-contended");
        me->state = B_GUARD; me->on = g; block();
    }
}
void __cxa_guard_release(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (!on()) { b[1] = 0; b[0] = 1; return; }
    rel(g); b[1] = 0; b[0] = 1; mx(g)->owner = -1; wake_all_on(B_GUARD, g); sync_point();
}
void __cxa_guard_abort(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (!on()) { b[1] = 0; return; }
    b[1] = 0; rel(g); mx(g)->owner = -1; wake_all_on(B_GUARD, g); sync_point();
}
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso) {
    if (g_active && me && me->id > 0 && me->ndt < 64) { me->dt[me->ndt++] = Dtor{f, o}; return 0; }
    return __cxa_thread_atexit_impl(f, o, dso);
}
void* __cxa_allocate_exception(size_t n) noexcept {       // comes from malloc: forget what was at that address before
    static auto f = real<void* (*)(size_t)>("__cxa_allocate_exception"); void* p = f(n);
    if (g_active && me) clear_range((uintptr_t)p, n);
    return p;
}
int sched_yield() { if (on()) { yp(); preempt(true); return 0; } return (int)syscall(SYS_sched_yield); }
static void sim_sleep(uint64_t ns) { sync_point(); me->state = B_SLEEP; me->wake = g_time + ns; me->timedout = false; block(); }
int nanosleep(const timespec* t, timespec* rem) { if (!on()) return (int)syscall(SYS_nanosleep, t, rem); sim_sleep(abs_ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!on()) { long r = syscall(SYS_clock_nanosleep, c, fl, t, rem); return r < 0 ? errno : 0; }
    uint64_t n = abs_ns(t); if (fl & TIMER_ABSTIME) n = n > g_time ? n - g_time : 0; sim_sleep(n); return 0;
}
int usleep(useconds_t u) { if (!on()) { timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); } sim_sleep((uint64_t)u * 1000); return 0; }
int clock_gettime(clockid_t c, timespec* t) { if (!on()) return (int)syscall(SYS_clock_gettime, c, t); g_time += 100; t->tv_sec = g_time / 1000000000ull; t->tv_nsec = g_time % 1000000000ull; return 0; }

// ---------------------------------------------------------------- instrumentation entry points
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (on()) { if (*a == v) access(a, 8, false, PC); else access(a, 8, true, PC); } }
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { if (n) access(d, n, true, PC); return memset(d, v, n); }
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline void a_pre() { sync_point(); }
static inline void a_acq(const volatile void* a, int mo) { if (on() && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acq((const void*)a); }
static inline void a_rel(const volatile void* a, int mo, bool rmw) { if (on() && mo >= 3) { if (rmw) rel((const void*)a); else rel_store((const void*)a); } }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { a_pre(); T v = __atomic_load_n(a, 5); a_acq(a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_pre(); a_rel(a, mo, false); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { a_pre(); a_acq(a, mo); a_rel(a, mo, true); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { a_pre(); bool ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); a_acq(a, ok ? mo : fmo); if (ok) a_rel(a, mo, true); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { a_pre(); bool ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); a_acq(a, ok ? mo : fmo); if (ok) a_rel(a, mo, true); return ok; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { a_pre(); bool ok = __atomic_compare_exchange_n(a, &c, v, false, 5, 5); a_acq(a, ok ? mo : fmo); if (ok) a_rel(a, mo, true); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static int g_fence;
void __tsan_atomic_thread_fence(int mo) { a_pre(); if (on()) { acq(&g_fence); rel(&g_fence); } __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ---------------------------------------------------------------- allocator
// C memory (also that of the C library itself): a new block has no history
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
static void fresh_block(void* p, size_t n) { if (p && g_active && me && !t_quiet) { t_quiet++; clear_range((uintptr_t)p, n); t_quiet--; } }
void* malloc(size_t n) { void* p = __libc_malloc(n); fresh_block(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); fresh_block(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p != q) fresh_block(p, n); return p; } }
static void* cs_new(size_t n) {
    if (g_alloc_n > 0 && !t_quiet && (!g_active || me)) { if (--g_alloc_n == 0) { g_alloc_fired = true; sim::fault("bad_alloc"); throw std::bad_alloc(); } }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (g_active && me) { clear_range((uintptr_t)p, n); if (n <= 2048) for (size_t i = 0; i < n; i += 4) forget((char*)p + i); }
    memset(p, 0xA5, n < 65536 ? n : 65536);
    __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED);
    return p;
}
static void cs_del(void* p) { if (p) { __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); free(p); } }
void* operator new(size_t n) { return cs_new(n); }
void* operator new[](size_t n) { return cs_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return cs_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return cs_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { cs_del(p); }
void operator delete[](void* p) noexcept { cs_del(p); }
void operator delete(void* p, size_t) noexcept { cs_del(p); }
void operator delete[](void* p, size_t) noexcept { cs_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { cs_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { cs_del(p); }
