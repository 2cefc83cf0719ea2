// rt.cpp - deterministic simulation runtime. Compiled WITHOUT -fsanitize=thread;
// provides the __tsan_* entry points that the instrumented library and
// workloads call, the pthread/guard/malloc seams, and the scheduler behind them.
// Uses no standard containers (their code would be shared with instrumented code).

#include "rt.h"

#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <math.h>
#include <new>

extern "C" {
int    __real_pthread_mutex_lock(pthread_mutex_t*);
int    __real_pthread_mutex_trylock(pthread_mutex_t*);
int    __real_pthread_mutex_unlock(pthread_mutex_t*);
int    __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int    __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int    __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int    __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int    __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int    __real_pthread_once(pthread_once_t*, void (*)());
int    __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int    __real_pthread_cond_signal(pthread_cond_t*);
int    __real_pthread_cond_broadcast(pthread_cond_t*);
int    __real___cxa_guard_acquire(char*);
void   __real___cxa_guard_release(char*);
void   __real___cxa_guard_abort(char*);
void*  __real___cxa_allocate_exception(size_t);
void*  __real_memcpy(void*, const void*, size_t);
void*  __real_memmove(void*, const void*, size_t);
void*  __real_memset(void*, int, size_t);
int    __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void*  __real_memchr(const void*, int, size_t);
extern char __data_start[], _end[], __executable_start[];
}

namespace sim {
namespace {

// ---------------------------------------------------------------- layout ----
const uintptr_t ArenaBase = 0x10000000000ull, ArenaSize = 1ull << 28;
const uintptr_t HostBase  = 0x18000000000ull, HostSize  = 1ull << 32;
const uintptr_t ShadowBase = 0x20000000000ull;
const uintptr_t StackBase = 0x30000000000ull, StackSpan = 1ull << 23, StackSize = 1ull << 20;

enum { StFreed = 0xFD, StNone = 0 };
enum { FlWrite = 1, FlAtomic = 2, FlFree = 4 };

struct Slot { uint32_t clk, pc; uint8_t tid1, mask, fl, pad; };
struct Cell { Slot slot[4]; uint32_t sync; uint8_t st; uint8_t pad[11]; };
static_assert(sizeof(Cell) == 64, "cell");

struct Sync {
    uint32_t vc[MaxThreads];
    uintptr_t addr;
    uint32_t next;              // hash chain / free list
    int owner;                  // tid + 1
    uint32_t count;
    uint32_t readers;           // bit per tid
    uint32_t rcount[MaxThreads];
};

enum State { Unused, Runnable, Blocked, Finished };
enum Wait { WNone, WMutex, WRw, WCond, WCondTimed, WGuard, WEvent };

struct Thr {
    int id;
    int state;
    int savedErrno;
    int wait; uintptr_t waitAddr; const char* waitWhat; bool timedOut;
    uint64_t waitSeq;
    volatile int baton;
    uint64_t lstep, nextPre;
    int64_t left;                // SyncOnly / Conflict countdown
    int host, armed, noFault;
    uint32_t tag;
    uint64_t faults;             // injected into this thread
    uint32_t vc[MaxThreads];
    uintptr_t stackLo;
    uint32_t depth;
    uint32_t cs[4096];
    uint32_t prio;
    uintptr_t spinAddr; uint32_t spin;
    uint32_t repIdx;
    Body body; void* arg;
    uint32_t ndtors; struct { void (*fn)(void*); void* obj; } dtors[64]; // of thread_local objects
    pthread_t th;
};

struct G {
    Config c;
    Result* r;
    Rng rng;
    Thr thr[MaxThreads];
    int n;
    int cur;
    volatile int done;
    uint64_t seq;
    uint32_t change[32]; uint32_t nchange, changeIdx; uint32_t lowPrio;
    bool resched;
    uint32_t phase;
    Switch rep[MaxThreads + 1][MaxSwitch / 4]; uint32_t nrep[MaxThreads + 1];
    uint32_t ufail[MaxFaults]; uint32_t nufail;
    uint32_t failIdx, failLeft;
    G() : rng(1) {}
};

int g_on = 0;            // a simulated run is in progress in this process
int g_hostPhase = 0;     // main() has started
G* g = nullptr;
__thread Thr* self = nullptr;

Sync* syncs; uint32_t nsync = 1, freeSync = 0;
uint32_t syncHash[4096];
const uint32_t MaxSync = 1 << 18;

void die(const char* what)
{
    char b[256];
    int n = snprintf(b, sizeof b, "sim runtime: %s\n", what);
    (void)!write(2, b, n);
    if (g && g->r) {
        g->r->status = Broken;
        snprintf(g->r->msg, sizeof g->r->msg, "sim runtime: %s", what);
    }
    _exit(97);
}

uintptr_t dataLo, dataHi;

void mapFixed(uintptr_t at, size_t n)
{
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void*)at) { const char m[] = "sim runtime: mmap\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
}

bool mapped = false;
uintptr_t dataShadow;
void mapAll()
{
    mapped = true;
    mapFixed(ArenaBase, ArenaSize);
    mapFixed(HostBase, HostSize);
    mapFixed(ShadowBase, ArenaSize * 8);
    dataLo = (uintptr_t)__data_start & ~7ull;
    dataHi = ((uintptr_t)_end + 7) & ~7ull;
    dataShadow = ShadowBase + ArenaSize * 8;
    mapFixed(dataShadow, ((dataHi - dataLo) * 8 + 4095) & ~4095ull);
    mapFixed(StackBase, StackSpan * (MaxThreads + 1));
    void* p = mmap(nullptr, sizeof(Sync) * MaxSync, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(97);
    syncs = (Sync*)p;
}

inline Cell* cellOf(uintptr_t a)
{
    if (a - ArenaBase < ArenaSize) return (Cell*)(ShadowBase + ((a - ArenaBase) >> 3) * 64);
    if (a - dataLo < dataHi - dataLo) return (Cell*)(dataShadow + ((a - dataLo) >> 3) * 64);
    return nullptr;
}

Sync* newSync(uintptr_t a)
{
    uint32_t i;
    if (freeSync) { i = freeSync; freeSync = syncs[i].next; }
    else { if (nsync >= MaxSync) die("too many sync objects"); i = nsync++; }
    Sync* s = &syncs[i];
    for (size_t k = 0; k < sizeof(Sync); ++k) ((volatile char*)s)[k] = 0;
    s->addr = a;
    return s;
}

Sync* syncOf(uintptr_t a)
{
    if (Cell* c = cellOf(a)) {
        if (c->sync && syncs[c->sync].addr == a) return &syncs[c->sync];
        if (!c->sync) { Sync* s = newSync(a); c->sync = s - syncs; return s; }
        // two sync objects within one 8-byte granule: fall through to the hash
    }
    uint32_t h = (a >> 2) & 4095;
    for (uint32_t i = syncHash[h]; i; i = syncs[i].next)
        if (syncs[i].addr == a) return &syncs[i];
    Sync* s = newSync(a);
    s->next = syncHash[h];
    syncHash[h] = s - syncs;
    return s;
}

inline void joinVc(uint32_t* a, const uint32_t* b)
{
    for (int i = 0; i < MaxThreads; ++i) if (b[i] > a[i]) a[i] = b[i];
}
inline void acquire(Thr* t, Sync* s) { joinVc(t->vc, s->vc); }
inline void release(Thr* t, Sync* s) { joinVc(s->vc, t->vc); t->vc[t->id]++; }
inline void releaseStore(Thr* t, Sync* s)
{
    for (int i = 0; i < MaxThreads; ++i) s->vc[i] = t->vc[i];
    t->vc[t->id]++;
}

// ------------------------------------------------------------- violations ---
uint32_t capture(Thr* t, uint32_t* out, uint32_t pc)
{
    uint32_t n = 0;
    if (pc) out[n++] = pc;
    for (uint32_t d = t ? t->depth : 0; d > 0 && n < MaxPcs; --d)
        out[n++] = t->cs[d < 4096 ? d - 1 : 4095];
    return n;
}

void finishResult(int status)
{
    g->r->nswitch = g->r->nswitch;
    __sync_synchronize();
    g->r->status = status;
    _exit(0);
}

} // namespace anonymous

void violation(const char* kind, const char* fmt, ...)
{
    Thr* t = self;
    if (t) t->host++;
    Result* r = g->r;
    if (r->status == Running) {
        snprintf(r->kind, sizeof r->kind, "%s", kind);
        va_list ap; va_start(ap, fmt);
        vsnprintf(r->msg, sizeof r->msg, fmt, ap);
        va_end(ap);
        if (!r->npcs[0]) r->npcs[0] = capture(t, r->pcs[0], 0);
        finishResult(Violated);
    }
    _exit(0);
}

void invalid(const char* fmt, ...)
{
    Result* r = g->r;
    va_list ap; va_start(ap, fmt);
    vsnprintf(r->msg, sizeof r->msg, fmt, ap);
    va_end(ap);
    finishResult(Invalid);
    _exit(0);
}

namespace {

// -------------------------------------------------------------- scheduler ---
// errno belongs to the simulated program
void futexWait(volatile int* w, int v) { int e = errno; syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); errno = e; }
void futexWake(volatile int* w) { int e = errno; syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); errno = e; }

inline void mix(uint64_t v) { g->r->hash = (g->r->hash ^ v) * 0x100000001b3ull + (g->r->hash >> 47); }

uint64_t geometric(uint32_t p)
{
    if (p <= 1) return 1;
    double u = (double)((g->rng.next() >> 11) + 1) / 9007199254740993.0;
    double k = log(u) / log1p(-1.0 / p);
    if (k > 1e15) k = 1e15;
    return 1 + (uint64_t)k;
}

void plan(Thr* t) // when will this thread be preempted next
{
    t->nextPre = UINT64_MAX;
    t->left = INT64_MAX;
    switch (g->c.mode) {
    case Uniform: t->nextPre = t->lstep + geometric(g->c.p); break;
    case SyncOnly: case Conflict: t->left = geometric(g->c.p); break;
    case Pct:
        if (g->changeIdx < g->nchange) {
            uint64_t at = g->change[g->changeIdx];
            t->nextPre = t->lstep + (at > g->r->steps ? at - g->r->steps : 1);
        }
        break;
    case Replay: {
        Switch* a = g->rep[t->id]; uint32_t n = g->nrep[t->id];
        while (t->repIdx < n && a[t->repIdx].lstep < t->lstep) t->repIdx++;
        if (t->repIdx < n) t->nextPre = a[t->repIdx].lstep == t->lstep ? t->lstep : a[t->repIdx].lstep;
        break;
    }
    default: break;
    }
}

void record(uint32_t from, int target, uint64_t lstep, uint32_t pc)
{
    Result* r = g->r;
    r->switches++;
    r->interHash = (r->interHash ^ ((uint64_t)pc << 8 | from << 4 | target)) * 0x9E3779B97F4A7C15ull + 1;
    mix(((uint64_t)from << 40) ^ ((uint64_t)target << 44) ^ lstep);
    if (r->nswitch < MaxSwitch) {
        Switch s = { from, (uint32_t)target, lstep };
        r->sw[r->nswitch++] = s;
    } else r->swOverflow = 1;
}

int runnable(int* out)
{
    int n = 0;
    for (int i = 0; i < g->n; ++i) if (g->thr[i].state == Runnable) out[n++] = i;
    return n;
}

int pickForced(Thr* t) // t cannot continue (or -1: start); who runs?
{
    int c[MaxThreads]; int n = runnable(c);
    if (!n) return -1;
    switch (g->c.mode) {
    case Uniform: case SyncOnly: case Conflict: return c[g->rng.below(n)];
    case Pct: { int b = c[0]; for (int i = 1; i < n; ++i) if (g->thr[c[i]].prio > g->thr[b].prio) b = c[i]; return b; }
    case Replay: {
        int id = t ? t->id : MaxThreads;
        uint64_t ls = t ? t->lstep : g->phase;
        Switch* a = g->rep[id]; uint32_t m = g->nrep[id];
        for (uint32_t i = t ? t->repIdx : 0; i < m && a[i].lstep <= ls; ++i)
            if (a[i].lstep == ls && (int)a[i].target < g->n && g->thr[a[i].target].state == Runnable) return a[i].target;
        return c[0];
    }
    default: return c[0];
    }
}

void handTo(Thr* t, int next)
{
    Thr* nt = &g->thr[next];
    g->cur = next;
    nt->spin = 0;
    plan(nt);
    if (nt == t) return;
    nt->baton = 1;
    futexWake(&nt->baton);
    if (t) {
        while (!t->baton) futexWait(&t->baton, 0);
        t->baton = 0;
    }
}

void describeBlocked(char* b, size_t n)
{
    size_t k = 0;
    static const char* W[] = { "-", "mutex", "rwlock", "condition", "condition", "static-init guard", "event" };
    b[0] = 0;
    for (int i = 0; i < g->n && k < n; ++i) {
        Thr* t = &g->thr[i];
        if (t->state == Blocked)
            k += snprintf(b + k, n - k, " T%d waits for %s %s@%lx", i, W[t->wait], t->waitWhat ? t->waitWhat : "", (unsigned long)t->waitAddr);
        else if (t->state == Finished) k += snprintf(b + k, n - k, " T%d finished", i);
    }
}

uint32_t topPc(Thr* t) { return t->depth ? t->cs[(t->depth <= 4096 ? t->depth : 4096) - 1] : 0; }

void reschedule(Thr* t) // t is not runnable
{
    int next;
    for (;;) {
        next = pickForced(t);
        if (next >= 0) break;
        // nothing can run: let simulated time reach the first timed wait
        Thr* w = nullptr;
        for (int i = 0; i < g->n; ++i) {
            Thr* x = &g->thr[i];
            if (x->state == Blocked && x->wait == WCondTimed && (!w || x->waitSeq < w->waitSeq)) w = x;
        }
        if (w) { w->timedOut = true; w->state = Runnable; w->wait = WNone; g->r->simTime++; continue; }
        bool all = true;
        for (int i = 0; i < g->n; ++i) if (g->thr[i].state == Blocked) all = false;
        if (all) { // everything finished
            g->done = 1;
            futexWake(&g->done);
            return;
        }
        char b[512]; describeBlocked(b, sizeof b);
        int k = 0;
        for (int i = 0; i < g->n && k < 2; ++i)
            if (g->thr[i].state == Blocked) { g->r->npcs[k] = capture(&g->thr[i], g->r->pcs[k], 0); k++; }
        violation("deadlock", "deadlock:%s", b);
    }
    record(t->id, next, t->lstep, topPc(t));
    if (t->state == Finished) { // hand over and leave
        Thr* nt = &g->thr[next];
        g->cur = next; nt->spin = 0; plan(nt);
        nt->baton = 1; futexWake(&nt->baton);
        return;
    }
    handTo(t, next);
}

void yieldTo(Thr* t, int next, uint32_t pc)
{
    g->r->preemptions++;
    record(t->id, next, t->lstep, pc ? pc : topPc(t));
    handTo(t, next);
}

void preempt(Thr* t, uint32_t pc)
{
    int c[MaxThreads]; int n = runnable(c);
    switch (g->c.mode) {
    case Uniform: case SyncOnly: case Conflict: {
        if (n <= 1) { plan(t); return; }
        int k = g->rng.below(n - 1);
        int next = c[k] == t->id ? c[n - 1] : c[k];
        yieldTo(t, next, pc);
        return;
    }
    case Pct: {
        if (g->changeIdx < g->nchange && g->r->steps >= g->change[g->changeIdx]) {
            g->changeIdx++;
            t->prio = --g->lowPrio;
        }
        int b = c[0];
        for (int i = 1; i < n; ++i) if (g->thr[c[i]].prio > g->thr[b].prio) b = c[i];
        if (b != t->id) yieldTo(t, b, pc); else plan(t);
        return;
    }
    case Replay: {
        Switch* a = g->rep[t->id];
        int target = -1;
        while (t->repIdx < g->nrep[t->id] && a[t->repIdx].lstep <= t->lstep) {
            if (a[t->repIdx].lstep == t->lstep) target = a[t->repIdx].target;
            t->repIdx++;
        }
        if (target >= 0 && target < g->n && target != t->id && g->thr[target].state == Runnable) yieldTo(t, target, pc);
        else plan(t);
        return;
    }
    default: plan(t);
    }
}

inline void step(Thr* t, uint64_t what, uint32_t pc)
{
    t->lstep++; g->r->steps++;
    mix(what ^ ((uint64_t)t->id << 60));
    if (t->lstep >= t->nextPre || (g->resched && g->c.mode == Pct)) { g->resched = false; preempt(t, pc); }
}

inline void syncStep(Thr* t, uint64_t what, uint32_t pc)
{
    step(t, what, pc);
    if (g->c.mode == SyncOnly && --t->left <= 0) preempt(t, pc);
}

void block(Thr* t, int wait, uintptr_t addr, const char* what)
{
    t->state = Blocked; t->wait = wait; t->waitAddr = addr; t->waitWhat = what; t->timedOut = false;
    t->waitSeq = ++g->seq;
    g->r->blocks++;
    reschedule(t);
}

void wakeAll(int w1, int w2, uintptr_t addr)
{
    for (int i = 0; i < g->n; ++i) {
        Thr* x = &g->thr[i];
        if (x->state == Blocked && (x->wait == w1 || x->wait == w2) && x->waitAddr == addr) {
            x->state = Runnable; x->wait = WNone; g->resched = true;
        }
    }
}

inline Thr* active() { if (!g_on) return nullptr; Thr* t = self; return t && !t->host ? t : nullptr; }
inline Thr* inSim() { return g_on ? self : nullptr; }

void overBudget(Thr* t)
{
    violation("hang", "no completion within %llu instrumented events; thread T%d still running",
            (unsigned long long)g->c.budget, t->id);
}

// ---------------------------------------------------------- race detector ---
void report(Thr* t, const char* kind, const char* what, uintptr_t a, unsigned sz, uint32_t pc, Slot* o)
{
    Result* r = g->r;
    r->npcs[0] = capture(t, r->pcs[0], pc);
    if (o) { r->pcs[1][0] = o->pc; r->npcs[1] = 1; }
    violation(kind, "%s by T%d at %lx (%u bytes)%s", what, t->id, (unsigned long)a, sz,
            o ? (o->fl & FlWrite ? " conflicts with an unordered write by another thread"
                                 : " conflicts with an unordered read by another thread") : "");
}

inline void checkCell(Thr* t, Cell* c, uintptr_t a, unsigned off, unsigned sz, unsigned fl, uint32_t pc)
{
    unsigned mask = ((1u << sz) - 1) << off;
    bool heap = a - ArenaBase < ArenaSize;
    if (heap && !(fl & FlFree)) {
        if (c->st == StFreed) report(t, "use-after-free", fl & FlWrite ? "write to freed memory" : "read of freed memory", a, sz, pc, nullptr);
        if (c->st < off + sz) report(t, "out-of-bounds", fl & FlWrite ? "write outside any heap block" : "read outside any heap block", a, sz, pc, nullptr);
    }
    uint32_t clk = t->vc[t->id];
    int self1 = t->id + 1, free_ = -1, old = -1;
    for (int i = 0; i < 4; ++i) {
        Slot* s = &c->slot[i];
        if (!s->tid1) { if (free_ < 0) free_ = i; continue; }
        if (s->tid1 == self1) {
            if (s->mask == mask && (s->fl & ~FlFree) == (fl & ~FlFree)) { if (s->clk == clk) return; if (old < 0) old = i; }
            continue;
        }
        if (!(s->mask & mask)) continue;
        bool conflict = ((s->fl | fl) & FlWrite) && !((s->fl & FlAtomic) && (fl & FlAtomic));
        bool ordered = s->clk <= t->vc[s->tid1 - 1];
        if (conflict && !ordered && g->c.raceIsViolation)
            report(t, "data-race", fl & FlFree ? "free" : fl & FlWrite ? "write" : "read", a, sz, pc, s);
        if (ordered && free_ < 0) free_ = i;
    }
    int k = old >= 0 ? old : free_ >= 0 ? free_ : (int)((g->r->steps ^ (g->r->steps >> 3)) & 3);
    Slot n = { clk, pc, (uint8_t)self1, (uint8_t)mask, (uint8_t)fl, 0 };
    c->slot[k] = n;
}

inline bool sharedCell(Thr* t, Cell* c)
{
    for (int i = 0; i < 4; ++i) if (c->slot[i].tid1 && c->slot[i].tid1 != t->id + 1) return true;
    return false;
}

__attribute__((noinline))
void access2(Thr* t, Cell* c, uintptr_t a, unsigned sz, unsigned fl, uint32_t pc)
{
    step(t, a ^ ((uint64_t)fl << 56), pc);
    if (g->c.mode == Conflict && t->left != INT64_MAX && sharedCell(t, c) && --t->left <= 0) preempt(t, pc);
    unsigned off = a & 7;
    if (off + sz <= 8) { checkCell(t, c, a, off, sz, fl, pc); return; }
    while (sz) {
        unsigned k = 8 - off < sz ? 8 - off : sz;
        c = cellOf(a);
        if (!c) return;
        checkCell(t, c, a, off, k, fl, pc);
        a += k; sz -= k; off = 0;
    }
}

inline __attribute__((always_inline))
void access(uintptr_t a, unsigned sz, unsigned fl, void* pc)
{
    if (!g_on) return;
    Thr* t = self;
    if (!t || t->host) return;
    if (++g->r->events > g->c.budget) overBudget(t);
    if (a - t->stackLo < StackSize) return;
    Cell* c = cellOf(a);
    if (c) access2(t, c, a, sz, fl, (uint32_t)(uintptr_t)pc);
    else if (a < 4096) report(t, "crash", "null pointer access", a, sz, (uint32_t)(uintptr_t)pc, nullptr);
}

void accessRange(uintptr_t a, size_t n, unsigned fl, void* pc)
{
    if (!n || !g_on) return;
    Thr* t = self;
    if (!t || t->host) return;
    if (++g->r->events > g->c.budget) overBudget(t);
    if (a - t->stackLo < StackSize) return;
    if (!cellOf(a)) return;
    step(t, a ^ ((uint64_t)fl << 56) ^ (n << 32), (uint32_t)(uintptr_t)pc);
    size_t lim = n > 4096 ? 4096 : n;
    uintptr_t b = a, e = a + lim;
    while (b < e) {
        unsigned off = b & 7, k = 8 - off; if (k > e - b) k = e - b;
        Cell* c = cellOf(b);
        if (!c) break;
        checkCell(t, c, b, off, k, fl, (uint32_t)(uintptr_t)pc);
        b += k;
    }
    if (n > lim) { // still check the far end
        b = (a + n - 1); Cell* c = cellOf(b);
        if (c) checkCell(t, c, b, b & 7, 1, fl, (uint32_t)(uintptr_t)pc);
    }
}

// ------------------------------------------------------------------- heap ---
struct Hdr { uint32_t magic, cls, size, tag; uint32_t seq, pc[3]; };
static_assert(sizeof(Hdr) == 32, "hdr");
const uint32_t Magic = 0x51B10C0D, MagicFree = 0x51B1DEAD;
const int NClass = 160;
struct FreeNode { FreeNode* next; };
struct Heap {
    uintptr_t base, size, bump;
    FreeNode* head[NClass]; FreeNode* tail[NClass]; uint32_t len[NClass];
    uint64_t layout; uint32_t seq;
    // With a layout: where the other regions are, and whether what was freed
    // last is used first.
    uintptr_t zone[3]; bool eager;
};
Heap simHeap = { ArenaBase, ArenaSize, ArenaBase + 64, {}, {}, {}, 0, 0, {}, false };
Heap hostHeap = { HostBase, HostSize, HostBase + 64, {}, {}, {}, 0, 0, {}, false };

int classOf(size_t n, size_t* rounded)
{
    if (n <= 1024) { int c = n ? (n + 15) / 16 : 1; *rounded = c * 16; return c; } // 1..64
    int c = 64; size_t s = 1024;
    for (;;) {
        for (int q = 1; q <= 4; ++q) { ++c; size_t v = s + s / 4 * q; if (n <= v) { *rounded = v; return c; } }
        s *= 2;
        if (c > NClass - 6) { *rounded = 0; return -1; }
    }
}

void* heapAlloc(Heap* h, size_t n, bool isSim)
{
    size_t sz; int c = n > (1ull << 31) ? -1 : classOf(n, &sz);
    if (c < 0) return nullptr;
    FreeNode* f = nullptr;
    uint32_t keep = isSim && !h->eager ? 48 : 0;
    if (h->len[c] > keep) {
        f = h->head[c];
        h->head[c] = f->next; h->len[c]--;
        if (!h->head[c]) h->tail[c] = nullptr;
    }
    Hdr* hd;
    if (f) hd = (Hdr*)((char*)f - sizeof(Hdr));
    else {
        uintptr_t* bump = &h->bump;
        uintptr_t end = h->base + h->size;
        if (h->layout && isSim) { // anywhere in one of four regions
            h->layout = h->layout * 6364136223846793005ull + 1442695040888963407ull;
            int z = (h->layout >> 50) & 3;
            if (z && h->zone[z - 1] + sizeof(Hdr) + sz + 1024 <= h->base + h->size / 4 * (z + 1)) {
                bump = &h->zone[z - 1];
                end = h->base + h->size / 4 * (z + 1);
            }
            else end = h->base + h->size / 4;
            *bump += ((h->layout >> 40) & 31) * 16;
        }
        if (*bump + sizeof(Hdr) + sz + 64 > end) return nullptr;
        hd = (Hdr*)*bump;
        *bump += sizeof(Hdr) + sz;
    }
    hd->magic = Magic; hd->cls = c; hd->size = (uint32_t)n; hd->tag = 0; hd->seq = ++h->seq;
    hd->pc[0] = hd->pc[1] = hd->pc[2] = 0;
    if (isSim) {
        uintptr_t a = (uintptr_t)(hd + 1);
        Cell* cl = cellOf(a);
        for (size_t i = 0; i < (n + 7) / 8; ++i) {
            for (int k = 0; k < 4; ++k) cl[i].slot[k].tid1 = 0;
            cl[i].st = (i + 1) * 8 <= n ? 8 : n - i * 8;
        }
        if (!n) cl[0].st = 0;
    }
    return hd + 1;
}

void dropSync(Cell* c)
{
    uint32_t i = c->sync;
    if (!i) return;
    c->sync = 0;
    syncs[i].addr = 0;
    syncs[i].next = freeSync;
    freeSync = i;
}

void heapFree(Heap* h, Hdr* hd, bool isSim)
{
    hd->magic = MagicFree;
    if (isSim) {
        Cell* cl = cellOf((uintptr_t)(hd + 1));
        size_t n = (hd->size + 7) / 8;
        for (size_t i = 0; i < n; ++i) { cl[i].st = StFreed; dropSync(&cl[i]); }
    }
    FreeNode* f = (FreeNode*)(hd + 1);
    f->next = nullptr;
    int c = hd->cls;
    if (isSim && !h->eager) { // FIFO: reuse as late as possible
        if (h->tail[c]) h->tail[c]->next = f; else h->head[c] = f;
        h->tail[c] = f;
    } else { f->next = h->head[c]; h->head[c] = f; if (!h->tail[c]) h->tail[c] = f; }
    h->len[c]++;
}

bool failNow(Thr* t)
{
    if (!t->armed || t->noFault) return false;
    uint64_t k = ++g->r->armedAllocs;
    if (g->failLeft) { g->failLeft--; g->r->allocFaults++; t->faults++; return true; }
    if (g->failIdx < g->c.nfail && k >= g->c.fail[g->failIdx]) {
        g->failIdx++;
        g->failLeft = g->c.failRun ? g->c.failRun - 1 : 0;
        g->r->allocFaults++; t->faults++;
        return true;
    }
    return false;
}

void* rtAlloc(size_t n, size_t align)
{
    if (!mapped) mapAll();
    size_t want = n;
    bool sim_;
    Thr* t = nullptr;
    if (g_on) { t = self; sim_ = t && !t->host; }
    else sim_ = !g_hostPhase;
    if (align > 16) n += align;
    if (t && sim_) {
        step(t, 0xA110Cull ^ (n << 8), topPc(t));
        if (failNow(t)) { errno = ENOMEM; mix(0xFA11); return nullptr; }
    }
    void* p = heapAlloc(sim_ ? &simHeap : &hostHeap, n, sim_);
    if (!p) { errno = ENOMEM; return nullptr; }
    Hdr* hd = (Hdr*)p - 1;
    if (sim_) {
        if (t) { hd->tag = t->tag; for (uint32_t i = 0; i < 3 && i < t->depth && t->depth <= 4096; ++i) hd->pc[i] = t->cs[t->depth - 1 - i]; }
        uint32_t f = g_on ? g->c.fill : 0xCD;
        __real_memset(p, f, n);
    }
    if (align > 16) {
        // only used for over-aligned requests, which the library never makes; never freed
        p = (void*)(((uintptr_t)p + align - 1) & ~(align - 1));
    }
    (void)want;
    return p;
}

void rtFree(void* p)
{
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    Hdr* hd = (Hdr*)p - 1;
    if (a - HostBase < HostSize) { if (hd->magic == Magic) heapFree(&hostHeap, hd, false); return; }
    Thr* t = g_on ? self : nullptr;
    if (a - ArenaBase >= ArenaSize) {
        if (t) report(t, "bad-free", "free of memory that is not from the heap", a, 0, 0, nullptr);
        return;
    }
    bool chk = t && !t->host;
    if (a & 15 || (hd->magic != Magic)) {
        if (t) report(t, hd->magic == MagicFree ? "double-free" : "bad-free",
                hd->magic == MagicFree ? "second free of a block" : "free of memory that is not a heap block", a, 0, 0, nullptr);
        return;
    }
    if (chk) {
        step(t, 0xF4EEull ^ a, topPc(t));
        if (hd->magic != Magic) report(t, "double-free", "second free of a block", a, 0, 0, nullptr);
        size_t n = hd->size > 2048 ? 2048 : hd->size;
        Cell* c = cellOf(a);
        for (size_t o = 0; o < n; o += 8, ++c)
            checkCell(t, c, a + o, 0, n - o < 8 ? n - o : 8, FlWrite | FlFree, topPc(t));
        __real_memset(p, 0xDD, hd->size);
    }
    heapFree(&simHeap, hd, true);
}

// ---------------------------------------------------------------- signals ---
void onSignal(int sig, siginfo_t* si, void* uc)
{
    if (!g || !g_on) _exit(98);
    Thr* t = self;
    Result* r = g->r;
    if (r->status != Running) _exit(0);
    uint32_t pc = (uint32_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    r->npcs[0] = capture(t, r->pcs[0], sig == SIGABRT ? 0 : pc);
    if (sig == SIGABRT) violation("abort", "the process aborted (abort or std::terminate)");
    if (sig == SIGVTALRM) violation("hang", "processor time limit exceeded");
    uintptr_t a = (uintptr_t)si->si_addr;
    bool so = t && a - (t->stackLo - StackSpan + StackSize) < StackSpan && a < t->stackLo + 65536;
    violation(so ? "stack-overflow" : "crash", "signal %d%s", sig, so ? " (stack overflow)" : sig == SIGSEGV && a < 65536 ? " (null pointer)" : "");
}

void* threadMain(void* arg)
{
    Thr* t = (Thr*)arg;
    static char alt[MaxThreads][65536];
    stack_t ss; __real_memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt[t->id]; ss.ss_size = sizeof alt[0];
    sigaltstack(&ss, nullptr);
    t->host = 1;
    self = t;
    while (!t->baton) futexWait(&t->baton, 0);
    t->baton = 0;
    scrubStack(g->c.fill);
    errno = g->c.fill ? ERANGE : 0; // whatever was left there
    t->host = 0;
    t->body(t->arg);
    t->armed = 0;
    while (t->ndtors) {
        --t->ndtors;
        t->dtors[t->ndtors].fn(t->dtors[t->ndtors].obj);
    }
    t->host = 1;
    t->lstep++;
    t->state = Finished;
    t->armed = 0;
    reschedule(t);
    return nullptr;
}

} // namespace anonymous

// ------------------------------------------------------------- controller ---
void init(Result* r, const Config& c)
{
    static char store[sizeof(G)] __attribute__((aligned(16)));
    g = new (store) G();
    g->c = c; g->r = r;
    g->rng = Rng(c.seed);
    r->status = Running;
    r->hash = 0xcbf29ce484222325ull; r->interHash = 1; r->stateHash = 0;
    simHeap.layout = c.layout;
    if (c.layout) {
        for (int z = 0; z < 3; ++z) simHeap.zone[z] = simHeap.base + simHeap.size / 4 * (z + 1) + 64;
        simHeap.eager = c.layout & 1;
    }
    if (c.mode == Replay) {
        for (uint32_t i = 0; i < c.nswitch; ++i) {
            uint32_t id = c.sw[i].tid;
            if (id > MaxThreads) continue;
            if (g->nrep[id] < MaxSwitch / 4) g->rep[id][g->nrep[id]++] = c.sw[i];
        }
    }
    g->lowPrio = 1000;
    if (c.mode == Pct) {
        uint32_t d = c.depth > 31 ? 31 : c.depth;
        for (uint32_t i = 0; i < d; ++i) {
            double e = (double)(g->rng.next() >> 11) / 9007199254740992.0 * (c.span ? c.span : 18);
            uint32_t v = (uint32_t)exp2(e);
            uint32_t k = g->nchange++;
            while (k > 0 && g->change[k - 1] > v) { g->change[k] = g->change[k - 1]; --k; }
            g->change[k] = v;
        }
    }
    struct sigaction sa; __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM };
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, nullptr);
    struct itimerval it; __real_memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 20;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void run(int n, Body* body, void** arg)
{
    if (n > MaxThreads) die("too many threads");
    uint32_t base[MaxThreads] = {0};
    for (int i = 0; i < MaxThreads; ++i) joinVc(base, g->thr[i].vc);
    g->n = n; g->done = 0; g->phase++;
    for (int i = 0; i < n; ++i) {
        Thr* t = &g->thr[i];
        uint64_t ls = t->lstep; uint32_t ri = t->repIdx;
        __real_memset(t, 0, sizeof *t);
        t->lstep = ls; t->repIdx = ri;
        t->id = i; t->state = Runnable;
        for (int k = 0; k < MaxThreads; ++k) t->vc[k] = base[k];
        t->vc[i]++;
        t->body = body[i]; t->arg = arg[i];
        t->prio = 2000 + (uint32_t)g->rng.below(1000000);
        uintptr_t top = StackBase + (i + 1) * StackSpan;
        t->stackLo = top - StackSize;
        mprotect((void*)(t->stackLo - 65536), 65536, PROT_NONE);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)t->stackLo, StackSize);
        if (pthread_create(&t->th, &at, threadMain, t)) die("pthread_create");
        pthread_attr_destroy(&at);
    }
    g_on = 1;
    int first = pickForced(nullptr);
    record(MaxThreads, first, g->phase, 0);
    g->cur = first;
    plan(&g->thr[first]);
    g->thr[first].baton = 1;
    futexWake(&g->thr[first].baton);
    while (!g->done) futexWait(&g->done, 0);
    for (int i = 0; i < n; ++i) pthread_join(g->thr[i].th, nullptr);
}

// ----------------------------------------------------------- thread API -----
int tid() { Thr* t = inSim(); return t ? t->id : -1; }
uint64_t stamp() { return ++g->seq; }
void point() { if (Thr* t = active()) syncStep(t, 0x9017, topPc(t)); }

void blockUntil(bool (*pred)(void*), void* arg, const char* what)
{
    Thr* t = inSim();
    if (!t) return;
    for (;;) {
        t->host++; bool ok = pred(arg); t->host--;
        if (ok) return;
        t->lstep++;
        block(t, WEvent, 0, what);
    }
}
void notify()
{
    Thr* t = inSim();
    if (!t) return;
    wakeAll(WEvent, WEvent, 0);
    syncStep(t, 0x40717F, topPc(t));
}

void text(const char* s, size_t n)
{
    Result* r = g->r;
    if (r->ntext + n > sizeof r->text) n = sizeof r->text - r->ntext;
    __real_memcpy(r->text + r->ntext, s, n);
    r->ntext += n;
}
void probe(const char* name)
{
    Result* r = g->r;
    uint32_t h = (uint32_t)(((uintptr_t)name * 0x9E3779B97F4A7C15ull) >> 56);
    for (uint32_t i = 0; i < MaxProbes; ++i, h = (h + 1) % MaxProbes) {
        if (!r->probeName[h]) r->probeName[h] = name;
        if (r->probeName[h] == name) { r->probes[h]++; return; }
    }
}
void nontrivial() { g->r->nontrivial = 1; }
void stateMix(uint64_t v) { g->r->stateHash = (g->r->stateHash ^ v) * 0x100000001b3ull + 7; }
void arm(bool on) { if (Thr* t = inSim()) t->armed = on; }
uint64_t armedAllocs() { return g->r->armedAllocs; }
uint64_t allocFaults() { return g->r->allocFaults; }
uint64_t myFaults() { Thr* t = inSim(); return t ? t->faults : 0; }
void setUserFaults(const uint32_t* at, uint32_t n)
{
    g->nufail = n > MaxFaults ? (uint32_t)MaxFaults : n;
    for (uint32_t i = 0; i < g->nufail; ++i) g->ufail[i] = at[i];
}
bool userFault()
{
    Thr* t = inSim();
    if (!t || !t->armed) return false;
    uint64_t k = ++g->r->userPoints;
    for (uint32_t i = 0; i < g->nufail; ++i)
        if (g->ufail[i] == k) { g->r->userFaults++; t->faults++; mix(0xFA12); return true; }
    return false;
}
void tag(uint32_t v) { if (Thr* t = inSim()) t->tag = v; }
uint32_t liveBlocks(uint32_t tg, char* out, size_t n)
{
    uint32_t cnt = 0; size_t k = 0;
    if (out && n) out[0] = 0;
    if (simHeap.layout) return 0;
    uintptr_t a = simHeap.base + 64;
    while (a < simHeap.bump) {
        Hdr* h = (Hdr*)a;
        size_t sz; classOf(h->size, &sz);
        // reused blocks keep their class size
        int c = h->cls; size_t s2 = 0;
        if (c <= 64) s2 = c * 16; else { size_t s = 1024; int cc = 64; bool f = false; while (!f) { for (int q = 1; q <= 4; ++q) if (++cc == c) { s2 = s + s / 4 * q; f = true; break; } s *= 2; } }
        if (h->magic == Magic && h->tag == tg) {
            cnt++;
            if (out && k + 80 < n) k += snprintf(out + k, n - k, " %u@%x/%x/%x", h->size, h->pc[0], h->pc[1], h->pc[2]);
        }
        a += sizeof(Hdr) + s2;
    }
    return cnt;
}
bool isHeap(const void* p) { return (uintptr_t)p - ArenaBase < ArenaSize; }
bool isLive(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    if (a - ArenaBase >= ArenaSize) return true;
    Cell* c = cellOf(a);
    return c->st != StFreed && c->st > (a & 7);
}
__attribute__((noinline)) void scrubStack(uint32_t fill)
{
    volatile char b[48 * 1024];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)fill;
}
void hostEnter() { if (!g_on) return; if (Thr* t = self) if (!t->host++) t->savedErrno = errno; }
void hostLeave() { if (!g_on) return; if (Thr* t = self) if (!--t->host) errno = t->savedErrno; }
Host::Host() { hostEnter(); }
Host::~Host() { hostLeave(); }

void hostPhase() { g_hostPhase = 1; }

} // namespace sim

using namespace sim;

// ============================================================ C entry points
extern "C" {

// ---- heap ----
void* malloc(size_t n) { return rtAlloc(n, 16); }
void free(void* p) { rtFree(p); }
void* calloc(size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
    void* p = rtAlloc(a * b, 16);
    if (p) __real_memset(p, 0, a * b);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    void* q = malloc(n);
    if (!q) return nullptr;
    size_t o = ((Hdr*)p - 1)->size;
    __real_memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return rtAlloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return rtAlloc(n, al); }
int posix_memalign(void** p, size_t al, size_t n) { *p = rtAlloc(n, al); return *p ? 0 : ENOMEM; }
void* valloc(size_t n) { return rtAlloc(n, 4096); }
void* pvalloc(size_t n) { return rtAlloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }

void* __wrap___cxa_allocate_exception(size_t n)
{
    Thr* t = inSim();
    if (t) t->noFault++;
    void* p = __real___cxa_allocate_exception(n);
    if (t) t->noFault--;
    return p;
}

// ---- memory functions ----
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (g_on && self && n) {
        accessRange((uintptr_t)s, n, 0, __builtin_return_address(0));
        accessRange((uintptr_t)d, n, FlWrite, __builtin_return_address(0));
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (g_on && self && n) {
        accessRange((uintptr_t)s, n, 0, __builtin_return_address(0));
        accessRange((uintptr_t)d, n, FlWrite, __builtin_return_address(0));
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
    if (g_on && self && n) accessRange((uintptr_t)d, n, FlWrite, __builtin_return_address(0));
    return __real_memset(d, v, n);
}

int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (g_on && self && n) {
        accessRange((uintptr_t)a, n, 0, __builtin_return_address(0));
        accessRange((uintptr_t)b, n, 0, __builtin_return_address(0));
    }
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char* s)
{
    size_t n = __real_strlen(s);
    if (g_on && self) accessRange((uintptr_t)s, n + 1, 0, __builtin_return_address(0));
    return n;
}
void* __wrap_memchr(const void* s, int c, size_t n)
{
    void* p = __real_memchr(s, c, n);
    if (g_on && self && n) accessRange((uintptr_t)s, p ? (char*)p - (char*)s + 1 : n, 0, __builtin_return_address(0));
    return p;
}

// ---- mutexes ----
static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    Thr* t = inSim();
    if (!t) return g_on ? 0 : __real_pthread_mutex_lock(m);
    if (t->host) return 0;
    syncStep(t, 0x10C ^ (uintptr_t)m << 4, topPc(t));
    for (;;) {
        Sync* s = syncOf((uintptr_t)m);
        if (!s->owner) { s->owner = t->id + 1; s->count = 1; acquire(t, s); break; }
        if (s->owner == t->id + 1) {
            if (isRecursive(m)) { s->count++; return 0; }
            g->r->npcs[0] = capture(t, g->r->pcs[0], 0);
            violation("deadlock", "T%d locks a mutex it already holds", t->id);
        }
        t->lstep++;
        block(t, WMutex, (uintptr_t)m, "");
    }
    mix(0x10CED ^ (uintptr_t)m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    Thr* t = inSim();
    if (!t) return g_on ? 0 : __real_pthread_mutex_trylock(m);
    if (t->host) return 0;
    syncStep(t, 0x10D ^ (uintptr_t)m << 4, topPc(t));
    Sync* s = syncOf((uintptr_t)m);
    if (!s->owner) { s->owner = t->id + 1; s->count = 1; acquire(t, s); return 0; }
    if (s->owner == t->id + 1 && isRecursive(m)) { s->count++; return 0; }
    if (++t->spin > 50) { t->spin = 0; int c[MaxThreads]; int n = runnable(c); if (n > 1) for (int i = 0; i < n; ++i) if (c[i] != t->id && c[i] > t->id) { yieldTo(t, c[i], 0); return EBUSY; } if (n > 1) yieldTo(t, c[0] == t->id ? c[1] : c[0], 0); }
    return EBUSY;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    Thr* t = inSim();
    if (!t) return g_on ? 0 : __real_pthread_mutex_unlock(m);
    if (t->host) return 0;
    Sync* s = syncOf((uintptr_t)m);
    if (s->owner != t->id + 1)
        violation("bad-unlock", "T%d unlocks a mutex it does not hold", t->id);
    if (--s->count == 0) {
        release(t, s);
        s->owner = 0;
        wakeAll(WMutex, WMutex, (uintptr_t)m);
    }
    syncStep(t, 0x0E1 ^ (uintptr_t)m << 4, topPc(t));
    return 0;
}

// ---- reader/writer locks ----
static int rwLock(pthread_rwlock_t* l, bool write, bool tryOnly)
{
    Thr* t = inSim();
    if (!t) {
        if (g_on) return 0;
        return write ? (tryOnly ? __real_pthread_rwlock_trywrlock(l) : __real_pthread_rwlock_wrlock(l))
                     : (tryOnly ? __real_pthread_rwlock_tryrdlock(l) : __real_pthread_rwlock_rdlock(l));
    }
    if (t->host) return 0;
    syncStep(t, 0x4E1 ^ (uintptr_t)l << 4 ^ write, topPc(t));
    for (;;) {
        Sync* s = syncOf((uintptr_t)l);
        uint32_t me = 1u << t->id;
        if (s->owner == t->id + 1 || (write && (s->readers & me))) {
            if (tryOnly) return EBUSY;
            violation("deadlock", "T%d locks a reader/writer lock it already holds", t->id);
        }
        if (!s->owner && (!write || !s->readers)) {
            if (write) s->owner = t->id + 1; else { s->readers |= me; s->rcount[t->id]++; }
            acquire(t, s);
            return 0;
        }
        if (tryOnly) return EBUSY;
        t->lstep++;
        block(t, WRw, (uintptr_t)l, "");
    }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwLock(l, false, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwLock(l, true, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwLock(l, false, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwLock(l, true, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    Thr* t = inSim();
    if (!t) return g_on ? 0 : __real_pthread_rwlock_unlock(l);
    if (t->host) return 0;
    Sync* s = syncOf((uintptr_t)l);
    uint32_t me = 1u << t->id;
    if (s->owner == t->id + 1) { release(t, s); s->owner = 0; }
    else if (s->readers & me) { release(t, s); if (--s->rcount[t->id] == 0) s->readers &= ~me; }
    else violation("bad-unlock", "T%d unlocks a reader/writer lock it does not hold", t->id);
    wakeAll(WRw, WRw, (uintptr_t)l);
    syncStep(t, 0x4E2 ^ (uintptr_t)l << 4, topPc(t));
    return 0;
}

// ---- condition variables ----
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    Thr* t = inSim();
    if (!t) { if (!g_on) return __real_pthread_cond_wait(c, m); return 0; }
    if (t->host) return 0;
    Sync* s = syncOf((uintptr_t)m);
    if (s->owner != t->id + 1) violation("bad-unlock", "T%d waits on a condition without holding its mutex", t->id);
    uint32_t cnt = s->count;
    release(t, s); s->owner = 0; s->count = 0;
    wakeAll(WMutex, WMutex, (uintptr_t)m);
    t->lstep++;
    block(t, timed ? WCondTimed : WCond, (uintptr_t)c, "");
    bool to = t->timedOut;
    t->timedOut = false;
    __wrap_pthread_mutex_lock(m);
    syncOf((uintptr_t)m)->count = cnt;
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    Thr* t = inSim();
    if (!t) return g_on ? 0 : __real_pthread_cond_broadcast(c);
    wakeAll(WCond, WCondTimed, (uintptr_t)c);
    if (!t->host) syncStep(t, 0xB40AD, topPc(t));
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    Thr* t = inSim();
    if (!t) return g_on ? 0 : __real_pthread_cond_signal(c);
    Thr* w = nullptr;
    for (int i = 0; i < g->n; ++i) {
        Thr* x = &g->thr[i];
        if (x->state == Blocked && (x->wait == WCond || x->wait == WCondTimed) && x->waitAddr == (uintptr_t)c && (!w || x->waitSeq < w->waitSeq)) w = x;
    }
    if (w) { w->state = Runnable; w->wait = WNone; g->resched = true; }
    if (!t->host) syncStep(t, 0x516, topPc(t));
    return 0;
}

// ---- one-time initialisation ----
// owner: tid + 1 while running; count: 1 when done
static bool onceEnter(Thr* t, uintptr_t a, const char* what)
{
    syncStep(t, 0x0ACE ^ a << 4, topPc(t));
    for (;;) {
        Sync* s = syncOf(a);
        if (s->count) { acquire(t, s); return false; }
        if (!s->owner) { s->owner = t->id + 1; acquire(t, s); return true; }
        if (s->owner == t->id + 1) violation("deadlock", "T%d re-enters %s initialisation it is already running", t->id, what);
        t->lstep++;
        block(t, WGuard, a, what);
    }
}
static void onceLeave(Thr* t, uintptr_t a, bool done)
{
    Sync* s = syncOf(a);
    release(t, s);
    s->owner = 0; s->count = done;
    wakeAll(WGuard, WGuard, a);
    syncStep(t, 0x0ACF ^ a << 4, topPc(t));
}

int __wrap___cxa_guard_acquire(char* gd)
{
    Thr* t = inSim();
    if (!t) return __real___cxa_guard_acquire(gd);
    if (t->host) return __real___cxa_guard_acquire(gd);
    if (*(volatile char*)gd) { // initialised before or in this run
        acquire(t, syncOf((uintptr_t)gd));
        return 0;
    }
    return onceEnter(t, (uintptr_t)gd, "static") ? 1 : 0;
}
void __wrap___cxa_guard_release(char* gd)
{
    Thr* t = inSim();
    if (!t || t->host) { __real___cxa_guard_release(gd); return; }
    *(volatile char*)gd = 1;
    onceLeave(t, (uintptr_t)gd, true);
}
void __wrap___cxa_guard_abort(char* gd)
{
    Thr* t = inSim();
    if (!t || t->host) { __real___cxa_guard_abort(gd); return; }
    onceLeave(t, (uintptr_t)gd, false);
}
// thread_local objects are destroyed when the simulated thread ends.
int __real___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso);
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
    Thr* t = inSim();
    if (!t || t->host) return __real___cxa_thread_atexit(fn, obj, dso);
    if (t->ndtors >= sizeof t->dtors / sizeof *t->dtors) die("too many thread_local objects");
    t->dtors[t->ndtors].fn = fn; t->dtors[t->ndtors].obj = obj;
    t->ndtors++;
    return 0;
}
struct OnceAbort { Thr* t; uintptr_t a; bool ok; };
static void onceCleanup(OnceAbort* o) { onceLeave(o->t, o->a, o->ok); }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
    Thr* t = inSim();
    if (!t || t->host) return __real_pthread_once(o, fn);
    if (*(volatile int*)o & 2) { acquire(t, syncOf((uintptr_t)o)); return 0; }
    if (!onceEnter(t, (uintptr_t)o, "call_once")) return 0;
    OnceAbort __attribute__((cleanup(onceCleanup))) oa = { t, (uintptr_t)o, false };
    fn();
    *(volatile int*)o = 2;
    oa.ok = true;
    return 0;
}

// ---- time and yielding: simulated ----
static void yieldNow(Thr* t)
{
    int c[MaxThreads]; int n = runnable(c);
    syncStep(t, 0x71E1D, topPc(t));
    n = runnable(c);
    if (n > 1) {
        int next = -1;
        for (int i = 0; i < n; ++i) if (c[i] > t->id) { next = c[i]; break; }
        if (next < 0) next = c[0] == t->id ? c[1] : c[0];
        t->lstep++;
        yieldTo(t, next, 0);
    }
}
int __wrap_sched_yield() { if (Thr* t = active()) yieldNow(t); return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { if (Thr* t = active()) { g->r->simTime++; yieldNow(t); } return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (Thr* t = active()) { g->r->simTime++; yieldNow(t); } return 0; }
int __wrap_usleep(useconds_t) { if (Thr* t = active()) { g->r->simTime++; yieldNow(t); } return 0; }

// ---- instrumentation callbacks ----
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (!g_on) return;
    Thr* t = self;
    if (!t) return;
    if (t->depth < 4096) t->cs[t->depth] = (uint32_t)(uintptr_t)pc;
    t->depth++;
    if (!t->host && ++g->r->events > g->c.budget) overBudget(t);
}
void __tsan_func_exit()
{
    if (!g_on) return;
    Thr* t = self;
    if (t && t->depth) t->depth--;
}
#define RW(n) \
void __tsan_read##n(void* a)  { access((uintptr_t)a, n, 0, __builtin_return_address(0)); } \
void __tsan_write##n(void* a) { access((uintptr_t)a, n, FlWrite, __builtin_return_address(0)); } \
void __tsan_read##n##_pc(void* a, void* pc)  { access((uintptr_t)a, n, 0, pc); } \
void __tsan_write##n##_pc(void* a, void* pc) { access((uintptr_t)a, n, FlWrite, pc); } \
void __tsan_unaligned_read##n(void* a)  { access((uintptr_t)a, n, 0, __builtin_return_address(0)); } \
void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, FlWrite, __builtin_return_address(0)); } \
void __tsan_volatile_read##n(void* a)  { access((uintptr_t)a, n, 0, __builtin_return_address(0)); } \
void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, FlWrite, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n)  { accessRange((uintptr_t)a, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void* a, size_t n) { accessRange((uintptr_t)a, n, FlWrite, __builtin_return_address(0)); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, 0, __builtin_return_address(0)); }
void __tsan_vptr_update(void** a, void* v)
{
    // storing the value already there (constructor chains) is not a write
    if (*a == v) return;
    access((uintptr_t)a, 8, FlWrite, __builtin_return_address(0));
}

} // extern "C"

// ---- atomics ----
namespace {
inline Thr* atomicPre(void* a, unsigned sz, unsigned fl, void* pc)
{
    if (!g_on) return nullptr;
    Thr* t = self;
    if (!t || t->host) return nullptr;
    if (++g->r->events > g->c.budget) overBudget(t);
    syncStep(t, (uintptr_t)a ^ ((uint64_t)fl << 55), (uint32_t)(uintptr_t)pc);
    if (t->spinAddr == (uintptr_t)a) {
        if (++t->spin > 300) {
            t->spin = 0;
            int c[MaxThreads]; int n = runnable(c);
            if (n > 1) {
                int next = -1;
                for (int i = 0; i < n; ++i) if (c[i] > t->id) { next = c[i]; break; }
                if (next < 0) next = c[0] == t->id ? c[1] : c[0];
                t->lstep++;
                yieldTo(t, next, (uint32_t)(uintptr_t)pc);
            }
        }
    } else { t->spinAddr = (uintptr_t)a; t->spin = 0; }
    if (Cell* c = cellOf((uintptr_t)a)) {
        if (g->c.mode == Conflict && t->left != INT64_MAX && sharedCell(t, c) && --t->left <= 0) preempt(t, (uint32_t)(uintptr_t)pc);
        checkCell(t, c, (uintptr_t)a, (uintptr_t)a & 7, sz, fl | FlAtomic, (uint32_t)(uintptr_t)pc);
    }
    return t;
}
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline void atomicPost(Thr* t, void* a, int mo, bool load, bool store)
{
    if (!t) return;
    if (!(load && acq(mo)) && !(store && (rel(mo) || !load))) return;
    Sync* s = syncOf((uintptr_t)a & ~7ull);
    if (load && acq(mo)) acquire(t, s);
    if (store) {
        if (load) { if (rel(mo)) release(t, s); }        // RMW continues a release sequence
        else if (rel(mo)) releaseStore(t, s);
        else for (int i = 0; i < MaxThreads; ++i) s->vc[i] = 0; // relaxed store ends it
    }
}
}

#define ATOMIC(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), 0, __builtin_return_address(0)); T v = *a; atomicPost(t, (void*)a, mo, true, false); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); *a = v; atomicPost(t, (void*)a, mo, false, true); } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = v; atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = o + v; atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = o - v; atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = o & v; atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = o | v; atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = o ^ v; atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); T o = *a; *a = ~(o & v); atomicPost(t, (void*)a, mo, true, true); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); \
    if (*a == *e) { *a = v; atomicPost(t, (void*)a, mo, true, true); return 1; } \
    *e = *a; atomicPost(t, (void*)a, fmo, true, false); return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { \
    Thr* t = atomicPre((void*)a, sizeof(T), FlWrite, __builtin_return_address(0)); \
    T o = *a; if (o == e) { *a = v; atomicPost(t, (void*)a, mo, true, true); } else atomicPost(t, (void*)a, fmo, true, false); return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
